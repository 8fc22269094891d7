package eng

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"time"
)

// Wire is the behaviour of one simulated driver build/configuration.
type Wire struct {
	Text     bool            // MySQL text protocol / pq-style encodings
	Reuse    bool            // row buffers are recycled (and scribbled over)
	Exec     bool            // conn implements ExecerContext / QueryerContext
	Skip     bool            // ... but answers driver.ErrSkip
	Reset    bool            // implements SessionResetter and Validator
	NumInput bool            // statements know their parameter count
	Float32  map[string]bool // FLOAT columns, which the MySQL binary protocol returns as float32
	TimeText map[string]bool // time columns which the driver returns as text
	// How MySQL writes them: the fractional digits of the column, which values
	// with more do not have, and columns without a time of day.
	TimeDigits int
	TimeDate   bool
	Escaped    bool // JSON text which another client has written in ASCII
}

// Action is what the fault plan decides for one driver call.
type Action struct {
	Kind  string // "", badconn, err, errafter, cancel, cancelafter, cancelok, crash, crashafter, delay
	Err   error
	Delay time.Duration
}

// Hooks connects the driver to the simulator.
type Hooks interface {
	// At is asked at every driver call; it may yield to other tasks.
	At(op string, c *Conn, query string, row int) Action
	// Cancel cancels the context of the running call.
	Cancel()
	// Ctx sees the context a call arrived with.
	Ctx(op string, ctx context.Context)
	// Delay holds the call up, at most until ctx is done.
	Delay(ctx context.Context, d time.Duration) error
	// Note adds to the event log.
	Note(format string, a ...any)
	// Failed sees every error the driver reports.
	Failed(op string, err error)
	// Began tells the id of a transaction that was opened.
	Began(id int64)
	// Owner is the call on whose behalf the driver runs.
	Owner() any
}

// Server is the database/sql/driver side of one simulated database.
type Server struct {
	E     *Engine
	W     Wire
	H     Hooks
	Conns map[int]*Conn
	nconn int

	OpenConns, OpenStmts, OpenRows, OpenTx int
	// Held counts open result sets and statements per owning call.
	Held map[any]int
}

func NewServer(e *Engine, w Wire, h Hooks) *Server {
	return &Server{E: e, W: w, H: h, Conns: map[int]*Conn{}, Held: map[any]int{}}
}

// ConnErr is a broken connection seen after the statement may have been sent.
type ConnErr struct{ ID int }

func (e *ConnErr) Error() string { return fmt.Sprintf("simulated connection failure #%d", e.ID) }

func (s *Server) Connector() driver.Connector { return &connector{s} }

type connector struct{ s *Server }

func (c *connector) Driver() driver.Driver { return drv{} }

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, errors.New("use the connector") }

func (c *connector) Connect(ctx context.Context) (rc driver.Conn, rerr error) {
	defer func() {
		if rerr != nil {
			c.s.H.Failed("connect", rerr)
		}
	}()
	s := c.s
	s.H.Ctx("connect", ctx)
	a := s.H.At("connect", nil, "", 0)
	if err := s.before(ctx, nil, a); err != nil {
		return nil, err
	}
	s.nconn++
	cn := &Conn{s: s, ID: s.nconn, epoch: s.E.Epoch}
	s.Conns[cn.ID] = cn
	s.OpenConns++
	switch {
	case s.W.Exec && s.W.Reset:
		return &connExecReset{connExec{cn}}, nil
	case s.W.Exec:
		return &connExec{cn}, nil
	case s.W.Reset:
		return &connReset{cn}, nil
	}
	return cn, nil
}

// before handles everything that strikes before the server acts.
func (s *Server) before(ctx context.Context, c *Conn, a Action) error {
	if c != nil && c.dead() {
		return driver.ErrBadConn
	}
	switch a.Kind {
	case "delay":
		if err := s.H.Delay(ctx, a.Delay); err != nil {
			return err
		}
	case "badconn":
		if c != nil {
			c.broken = true
		}
		return driver.ErrBadConn
	case "err":
		return a.Err
	case "cancel":
		s.H.Cancel()
		return ctxErr(ctx)
	case "crash":
		s.Crash()
		if c == nil {
			return a.Err
		}
		return a.Err
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	return nil
}

func ctxErr(ctx context.Context) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	return context.Canceled
}

// after handles what strikes between applying and replying.
func (s *Server) after(ctx context.Context, c *Conn, a Action) error {
	switch a.Kind {
	case "errafter":
		c.broken = true
		return a.Err
	case "cancelafter":
		s.H.Cancel()
		return ctxErr(ctx)
	case "cancelok": // the reply still arrives
		s.H.Cancel()
	case "crashafter":
		s.Crash()
		return a.Err
	}
	return nil
}

// Crash restarts the server under all connections.
func (s *Server) Crash() {
	s.E.Crash()
	for _, c := range s.Conns {
		c.tx = nil
	}
}

// Conn is one server connection.
type Conn struct {
	s      *Server
	ID     int
	epoch  int
	broken bool
	closed bool
	tx     *Tx
	lastID int64
	buf    [][]byte
}

func (c *Conn) dead() bool { return c.broken || c.closed || c.epoch != c.s.E.Epoch }

func (c *Conn) scribble() {
	for _, b := range c.buf {
		for i := range b {
			b[i] = 0xDB
		}
	}
	c.buf = nil
}

func (c *Conn) Close() error {
	if !c.closed {
		c.closed = true
		c.s.OpenConns--
		delete(c.s.Conns, c.ID)
		if c.tx != nil {
			c.s.E.Rollback(c.tx)
			c.tx = nil
			c.s.OpenTx--
		}
		c.scribble()
	}
	return nil
}

func (c *Conn) Prepare(q string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), q)
}

func (c *Conn) PrepareContext(ctx context.Context, q string) (rs driver.Stmt, rerr error) {
	defer func() {
		if rerr != nil {
			c.s.H.Failed("prepare", rerr)
		}
	}()
	c.s.H.Ctx("prepare", ctx)
	a := c.s.H.At("prepare", c, q, 0)
	if err := c.s.before(ctx, c, a); err != nil {
		return nil, err
	}
	n := -1
	st, err := Parse(c.s.E.D, q)
	if err != nil {
		if c.s.E.Observe != nil {
			c.s.E.Observe(&Event{Query: q, Err: err})
		}
		return nil, err
	}
	if c.s.W.NumInput {
		n = st.NParams
	}
	if err := c.s.after(ctx, c, a); err != nil {
		return nil, err
	}
	c.s.OpenStmts++
	o := c.s.H.Owner()
	c.s.Held[o]++
	return &stmt{c: c, q: q, n: n, owner: o}, nil
}

func (c *Conn) Begin() (driver.Tx, error) { return c.BeginTx(context.Background(), driver.TxOptions{}) }

func (c *Conn) BeginTx(ctx context.Context, _ driver.TxOptions) (rt driver.Tx, rerr error) {
	defer func() {
		if rerr != nil {
			c.s.H.Failed("begin", rerr)
		}
	}()
	a := c.s.H.At("begin", c, "", 0)
	if err := c.s.before(ctx, c, a); err != nil {
		return nil, err
	}
	c.tx = c.s.E.Begin()
	c.s.H.Began(c.tx.ID)
	c.s.OpenTx++
	if err := c.s.after(ctx, c, a); err != nil {
		return nil, err
	}
	return &dtx{c, c.tx}, nil
}

func (c *Conn) CheckNamedValue(nv *driver.NamedValue) error {
	if u, ok := nv.Value.(uint64); ok && c.s.E.D == MySQL {
		nv.Value = u
		return nil
	}
	v, err := driver.DefaultParameterConverter.ConvertValue(nv.Value)
	if err != nil {
		// pointers to and named uint64 in MySQL
		if c.s.E.D == MySQL {
			if vr, ok := nv.Value.(driver.Valuer); ok {
				if x, err2 := vr.Value(); err2 == nil {
					if u, ok := x.(uint64); ok {
						nv.Value = u
						return nil
					}
				}
			}
		}
		return err
	}
	nv.Value = v
	return nil
}

type dtx struct {
	c  *Conn
	tx *Tx
}

func (t *dtx) Commit() (rerr error) {
	defer func() {
		if rerr != nil {
			t.c.s.H.Failed("commit", rerr)
		}
	}()
	c := t.c
	a := c.s.H.At("commit", c, "", 0)
	if c.dead() {
		t.end()
		return driver.ErrBadConn
	}
	switch a.Kind {
	case "badconn", "crash":
		if a.Kind == "crash" {
			c.s.Crash()
		} else {
			c.broken = true
			c.s.E.Rollback(t.tx)
		}
		t.end()
		return a.Err
	case "err":
		c.s.E.Rollback(t.tx)
		t.end()
		return a.Err
	}
	err := c.s.E.Commit(t.tx)
	t.end()
	switch a.Kind {
	case "errafter":
		c.broken = true
		return a.Err
	case "crashafter":
		c.s.Crash()
		return a.Err
	}
	return err
}

func (t *dtx) end() {
	if t.c.tx == t.tx {
		t.c.tx = nil
	}
	t.c.s.OpenTx--
}

func (t *dtx) Rollback() error {
	if t.c.tx != t.tx {
		if t.tx.Done {
			t.c.s.OpenTx--
			return driver.ErrBadConn
		}
		return nil
	}
	t.c.s.E.Rollback(t.tx)
	t.end()
	return nil
}

// variants with optional interfaces
type connExec struct{ *Conn }
type connReset struct{ *Conn }
type connExecReset struct{ connExec }

func (c *connExec) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if c.s.W.Skip && len(args) > 0 {
		return nil, driver.ErrSkip
	}
	return c.exec(ctx, q, args)
}
func (c *connExec) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if c.s.W.Skip && len(args) > 0 {
		return nil, driver.ErrSkip
	}
	return c.query(ctx, q, args)
}
func (c *connReset) ResetSession(ctx context.Context) error     { return c.reset() }
func (c *connReset) IsValid() bool                              { return !c.dead() }
func (c *connExecReset) ResetSession(ctx context.Context) error { return c.reset() }
func (c *connExecReset) IsValid() bool                          { return !c.dead() }

func (c *Conn) reset() error {
	if c.dead() {
		return driver.ErrBadConn
	}
	return nil
}

func vals(args []driver.NamedValue) []any {
	out := make([]any, len(args))
	for i := range args {
		out[i] = args[i].Value
		if b, ok := out[i].([]byte); ok {
			out[i] = append([]byte{}, b...)
		}
	}
	return out
}

type result struct {
	s    *Server
	c    *Conn
	r    *Result
	last int64
}

func (r *result) LastInsertId() (ri int64, rerr error) {
	defer func() {
		if rerr != nil {
			r.s.H.Failed("lastid", rerr)
		}
	}()
	if a := r.s.H.At("lastid", r.c, "", 0); a.Kind == "err" {
		return 0, a.Err
	}
	if r.s.E.D == Postgres {
		return 0, errors.New("LastInsertId is not supported by this driver")
	}
	return r.last, nil
}

func (r *result) RowsAffected() (ri int64, rerr error) {
	defer func() {
		if rerr != nil {
			r.s.H.Failed("affected", rerr)
		}
	}()
	if a := r.s.H.At("affected", r.c, "", 0); a.Kind == "err" {
		return 0, a.Err
	}
	return r.r.Affected, nil
}

func (c *Conn) exec(ctx context.Context, q string, args []driver.NamedValue) (rr driver.Result, rerr error) {
	defer func() {
		if rerr != nil {
			c.s.H.Failed("exec", rerr)
		}
	}()
	c.s.H.Ctx("exec", ctx)
	a := c.s.H.At("exec", c, q, 0)
	c.scribble()
	if err := c.s.before(ctx, c, a); err != nil {
		return nil, err
	}
	r, err := c.s.E.Exec(c.tx, q, vals(args))
	if err != nil {
		return nil, err
	}
	last := r.LastID
	if c.s.E.D == SQLite {
		if r.SetLast {
			c.lastID = r.LastID
		}
		last = c.lastID
	}
	if err := c.s.after(ctx, c, a); err != nil {
		return nil, err
	}
	return &result{c.s, c, r, last}, nil
}

func (c *Conn) query(ctx context.Context, q string, args []driver.NamedValue) (rr driver.Rows, rerr error) {
	defer func() {
		if rerr != nil {
			c.s.H.Failed("query", rerr)
		}
	}()
	c.s.H.Ctx("query", ctx)
	a := c.s.H.At("query", c, q, 0)
	c.scribble()
	if err := c.s.before(ctx, c, a); err != nil {
		return nil, err
	}
	r, err := c.s.E.Exec(c.tx, q, vals(args))
	if err != nil {
		return nil, err
	}
	if c.s.E.D == SQLite && r.SetLast {
		c.lastID = r.LastID
	}
	if err := c.s.after(ctx, c, a); err != nil {
		return nil, err
	}
	c.s.OpenRows++
	o := c.s.H.Owner()
	c.s.Held[o]++
	return &rows{c: c, r: r, q: q, ctx: ctx, epoch: c.epoch, owner: o}, nil
}

type stmt struct {
	c      *Conn
	q      string
	n      int
	closed bool
	owner  any
}

func (s *stmt) Close() error {
	if !s.closed {
		s.closed = true
		s.c.s.OpenStmts--
		s.c.s.Held[s.owner]--
	}
	return nil
}
func (s *stmt) NumInput() int { return s.n }
func (s *stmt) Exec(args []driver.Value) (driver.Result, error) {
	return nil, errors.New("context required")
}
func (s *stmt) Query(args []driver.Value) (driver.Rows, error) {
	return nil, errors.New("context required")
}
func (s *stmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	return s.c.exec(ctx, s.q, args)
}
func (s *stmt) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	return s.c.query(ctx, s.q, args)
}

type rows struct {
	c      *Conn
	r      *Result
	q      string
	i      int
	closed bool
	ctx    context.Context
	epoch  int
	owner  any
}

func (r *rows) Columns() []string { return r.r.Cols }

func (r *rows) Close() error {
	if r.closed {
		return nil
	}
	r.closed = true
	r.c.s.OpenRows--
	r.c.s.Held[r.owner]--
	if r.c.s.W.Reuse {
		r.c.scribble()
	}
	// a closing failure is decided without yielding
	if a := r.c.s.H.At("rowsclose", r.c, r.q, r.i); a.Kind == "err" {
		r.c.s.H.Failed("rowsclose", a.Err)
		return a.Err
	}
	return nil
}

func (r *rows) Next(dest []driver.Value) (rerr error) {
	defer func() {
		if rerr != nil && rerr != io.EOF {
			r.c.s.H.Failed("next", rerr)
		}
	}()
	if r.closed {
		return io.EOF
	}
	a := r.c.s.H.At("next", r.c, r.q, r.i)
	if r.c.s.W.Reuse {
		r.c.scribble()
	}
	switch a.Kind {
	case "delay":
		if err := r.c.s.H.Delay(r.ctx, a.Delay); err != nil {
			return err
		}
	case "err":
		return a.Err
	case "errafter", "badconn":
		r.c.broken = true
		return a.Err
	case "cancel":
		r.c.s.H.Cancel()
		return ctxErr(r.ctx)
	case "crash":
		r.c.s.Crash()
		return a.Err
	}
	if err := r.ctx.Err(); err != nil {
		return err
	}
	if r.c.epoch != r.c.s.E.Epoch || r.c.broken {
		return &ConnErr{r.c.ID}
	}
	if r.i >= len(r.r.Rows) {
		return io.EOF
	}
	src := r.r.Rows[r.i]
	for i := range dest {
		dest[i] = r.c.wire(r.r.Cols[i], r.r.Kinds[i], src[i])
	}
	r.i++
	return nil
}

func (c *Conn) bytes(s string) []byte {
	b := make([]byte, len(s), len(s)+4)
	copy(b, s)
	c.buf = append(c.buf, b)
	return b
}

// wire chooses one of the legal representations of a value.
func (c *Conn) wire(col string, k Kind, v any) driver.Value {
	if v == nil {
		return nil
	}
	w, d := c.s.W, c.s.E.D
	switch n := v.(type) {
	case int64:
		if d == MySQL && w.Text {
			return c.bytes(strconv.FormatInt(n, 10))
		}
		return n
	case uint64:
		if d == MySQL && (w.Text || n > math.MaxInt64) {
			return c.bytes(strconv.FormatUint(n, 10))
		}
		return int64(n)
	case float64:
		if d == MySQL && w.Text {
			return c.bytes(strconv.FormatFloat(n, 'g', -1, 64))
		}
		if d == MySQL && w.Float32[strings.ToLower(col)] {
			return float32(n)
		}
		return n
	case bool:
		switch d {
		case MySQL:
			b := int64(0)
			if n {
				b = 1
			}
			if w.Text {
				return c.bytes(strconv.FormatInt(b, 10))
			}
			return b
		case SQLite:
			if w.Text {
				if n {
					return int64(1)
				}
				return int64(0)
			}
		}
		return n
	case time.Time:
		if w.TimeText[strings.ToLower(col)] {
			switch d {
			case MySQL:
				n = n.UTC()
				h := n.Hour() + n.Minute() + n.Second() + n.Nanosecond()
				if w.TimeDate && h == 0 {
					return c.bytes(n.Format("2006-01-02"))
				}
				f := "2006-01-02 15:04:05.000000"
				switch k := w.TimeDigits; {
				case k == 0 && n.Nanosecond() == 0:
					f = f[:19]
				case k > 0 && n.Nanosecond()%[]int{1, 1e8, 1e7, 1e6, 1e5, 1e4, 1e3}[k] == 0:
					f = f[:20+k]
				}
				return c.bytes(n.Format(f))
			case SQLite:
				return n.Format(time.RFC3339Nano)
			}
		}
		return n
	case []byte:
		return c.bytes(string(n))
	case string:
		if w.Escaped && k == KJSON && d != MySQL {
			n = asciiJSON(n)
		}
		switch d {
		case MySQL:
			return c.bytes(n)
		case Postgres:
			if (k == KJSON || k == KArray) && w.Text {
				return c.bytes(n)
			}
			return n
		case SQLite:
			if w.Text {
				return c.bytes(n)
			}
			return n
		}
	}
	return v
}
