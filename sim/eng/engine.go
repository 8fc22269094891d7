package eng

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"
	"unicode/utf8"
)

// Kind is the declared kind of a column.
type Kind int

const (
	KInt Kind = iota
	KUint
	KFloat
	KBool
	KText
	KBytes
	KTime
	KJSON
	KArray // a Postgres array, handled as its literal
)

func (k Kind) String() string {
	return [...]string{"int", "uint", "float", "bool", "text", "bytes", "time", "json", "array"}[k]
}

type Column struct {
	Name     string
	Kind     Kind
	Nullable bool
	AutoInc  bool
	Default  any
	HasDef   bool
}

type Table struct {
	Name    string
	Cols    []Column
	Uniques [][]int // the first one is the primary key
	Rows    []*Row
	Next    int64
	idx     map[string]int
}

// Row is one stored record with its pending version and locks.
type Row struct {
	ID      int64
	Vals    []any // newest version (pending when Owner != 0)
	Old     []any // committed version while Owner != 0
	Owner   int64 // transaction with a pending change
	IsNew   bool
	Deleted bool
	locks   map[int64]lockMode
}

type lockMode int

const (
	lkKeyShare lockMode = 1 + iota
	lkShare
	lkNoKey
	lkUpdate
)

func conflicts(a, b lockMode) bool {
	if a > b {
		a, b = b, a
	}
	switch a {
	case lkKeyShare:
		return b == lkUpdate
	case lkShare:
		return b >= lkNoKey
	}
	return true
}

// DBError is an error of the simulated server.
type DBError struct {
	Code string
	Msg  string
}

func (e *DBError) Error() string { return e.Code + ": " + e.Msg }

func dberr(code, f string, a ...any) error { return &DBError{code, fmt.Sprintf(f, a...)} }

// Engine is one database server with durable tables.
type Engine struct {
	D        Dialect
	Tables   map[string]*Table
	nextRow  int64
	nextTx   int64
	waits    map[int64][]int64
	txs      map[int64]*Tx
	Epoch    int   // grows at every server restart
	ver      int   // SQLite: commits so far
	writer   int64 // SQLite: the one writing transaction
	Shuffle  func(n int) []int
	LockWait func(cond func() bool)
	// Observe is called around the execution instant of every statement.
	Observe func(ev *Event)
	Locked  func(tx int64, table string, pk []any, mode string)
}

// Tx is one open transaction.
type Tx struct {
	ID     int64
	Failed bool
	Done   bool
	Mods   int
	Events []*Event
	read   bool // SQLite: the transaction has a snapshot
	snap   int  // and it is this version of the database
	wrote  bool
}

// Event is one executed statement with the table before and after it.
type Event struct {
	Query     string
	Args      []any
	Stmt      *Stmt
	Tx        int64
	Auto      bool
	Table     string
	Pre       [][]any
	Post      [][]any
	Res       *Result
	Err       error
	Committed bool
}

type Result struct {
	Cols     []string
	Kinds    []Kind
	Rows     [][]any
	Affected int64
	LastID   int64
	Inserted []int64
	IsQuery  bool
	SetLast  bool
}

func NewEngine(d Dialect) *Engine {
	return &Engine{D: d, Tables: map[string]*Table{}, waits: map[int64][]int64{}, txs: map[int64]*Tx{}}
}

func (e *Engine) AddTable(t *Table) {
	t.idx = map[string]int{}
	for i, c := range t.Cols {
		t.idx[e.fold(c.Name)] = i
	}
	e.Tables[t.Name] = t
	if t.Next == 0 {
		t.Next = 1
	}
}

func (e *Engine) fold(s string) string {
	if e.D == Postgres {
		return s
	}
	return strings.ToLower(s)
}

func (e *Engine) table(name string) (*Table, error) {
	if len(name) > 5 && strings.EqualFold(name[:5], "main.") { // the one database there is
		name = name[5:]
	}
	if t, ok := e.Tables[name]; ok {
		return t, nil
	}
	if e.D != Postgres {
		for n, t := range e.Tables {
			if strings.EqualFold(n, name) {
				return t, nil
			}
		}
	}
	return nil, dberr("42P01", "table %q does not exist", name)
}

func (t *Table) col(e *Engine, name string) (int, error) {
	if i, ok := t.idx[e.fold(name)]; ok {
		return i, nil
	}
	return 0, dberr("42703", "column %q of table %q does not exist", name, t.Name)
}

// Committed returns a copy of the committed rows.
func (t *Table) Committed() [][]any {
	var out [][]any
	for _, r := range t.Rows {
		if r.Owner != 0 {
			if r.IsNew {
				continue
			}
			out = append(out, append([]any(nil), r.Old...))
			continue
		}
		out = append(out, append([]any(nil), r.Vals...))
	}
	return out
}

// current returns rows as transaction tx sees them.
func (t *Table) current(tx int64) [][]any {
	var out [][]any
	for _, r := range t.Rows {
		if v := r.visible(tx); v != nil {
			out = append(out, append([]any(nil), v...))
		}
	}
	return out
}

func (r *Row) visible(tx int64) []any {
	if r.Owner == 0 {
		return r.Vals
	}
	if r.Owner == tx {
		if r.Deleted {
			return nil
		}
		return r.Vals
	}
	if r.IsNew {
		return nil
	}
	return r.Old
}

// Put stores a row directly, as an earlier writer would have.
func (e *Engine) Put(table string, vals []any) {
	t := e.Tables[table]
	e.nextRow++
	t.Rows = append(t.Rows, &Row{ID: e.nextRow, Vals: vals})
	for i, c := range t.Cols {
		if c.AutoInc {
			t.used(vals[i])
		}
	}
}

func keyInt(v any) int64 {
	switch n := v.(type) {
	case int64:
		return n
	case uint64:
		return int64(n)
	}
	return 0
}

// used keeps the next generated key above the keys in use.
func (t *Table) used(v any) {
	switch n := v.(type) {
	case int64:
		if n >= t.Next && n < 1<<62 {
			t.Next = n + 1
		}
	case uint64:
		if n < 1<<62 && int64(n) >= t.Next {
			t.Next = int64(n) + 1
		}
	}
}

func (e *Engine) Begin() *Tx {
	e.nextTx++
	tx := &Tx{ID: e.nextTx}
	e.txs[tx.ID] = tx
	return tx
}

func (e *Engine) Commit(tx *Tx) error {
	if tx.Done {
		return dberr("25000", "transaction is gone")
	}
	if tx.Failed {
		e.Rollback(tx)
		return dberr("25P02", "transaction was aborted")
	}
	for _, t := range e.Tables {
		var keep []*Row
		for _, r := range t.Rows {
			delete(r.locks, tx.ID)
			if r.Owner == tx.ID {
				if r.Deleted {
					continue
				}
				r.Owner, r.Old, r.IsNew = 0, nil, false
			}
			keep = append(keep, r)
		}
		t.Rows = keep
	}
	if tx.wrote {
		e.ver++
	}
	e.finish(tx)
	for _, ev := range tx.Events {
		ev.Committed = true
	}
	return nil
}

func (e *Engine) Rollback(tx *Tx) {
	if tx.Done {
		return
	}
	for _, t := range e.Tables {
		var keep []*Row
		for _, r := range t.Rows {
			delete(r.locks, tx.ID)
			if r.Owner == tx.ID {
				if r.IsNew {
					continue
				}
				r.Vals, r.Owner, r.Old, r.Deleted = r.Old, 0, nil, false
			}
			keep = append(keep, r)
		}
		t.Rows = keep
	}
	e.finish(tx)
}

// Alive tells whether a transaction is still open.
func (e *Engine) Alive(tx int64) bool { return e.txs[tx] != nil }

// admit applies SQLite's database level isolation: one writer at a time, and a
// transaction whose snapshot is no longer the newest one can't go on to write.
// (SQLite lets it go on reading; here it is turned away earlier.)
func (e *Engine) admit(tx *Tx, write bool) (wait []int64, err error) {
	if tx.read && tx.snap != e.ver {
		return nil, dberr("55P03", "database is locked (517)")
	}
	if write && e.writer != 0 && e.writer != tx.ID {
		if tx.read {
			return nil, dberr("55P03", "database is locked (5)")
		}
		return []int64{e.writer}, nil
	}
	tx.read, tx.snap = true, e.ver
	if write {
		e.writer, tx.wrote = tx.ID, true
	}
	return nil, nil
}

func (e *Engine) finish(tx *Tx) {
	tx.Done = true
	if e.writer == tx.ID {
		e.writer = 0
	}
	delete(e.waits, tx.ID)
	delete(e.txs, tx.ID)
}

// Crash restarts the server: every open transaction is lost.
func (e *Engine) Crash() {
	e.Epoch++
	var ids []int64
	for id := range e.txs {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		e.Rollback(e.txs[id])
	}
}

var ErrDeadlock = &DBError{"40P01", "deadlock detected"}

// Exec runs one statement. tx nil means autocommit.
func (e *Engine) Exec(tx *Tx, q string, args []any) (*Result, error) {
	st, err := Parse(e.D, q)
	ev := &Event{Query: q, Args: args, Stmt: st, Auto: tx == nil}
	fail := func(err error) (*Result, error) {
		ev.Err = err
		if tx != nil && e.D == Postgres {
			tx.Failed = true
		}
		if e.Observe != nil {
			e.Observe(ev)
		}
		return nil, err
	}
	if err != nil {
		return fail(err)
	}
	if tx != nil && tx.Done {
		return fail(dberr("25000", "transaction is gone"))
	}
	if tx != nil && tx.Failed {
		return fail(dberr("25P02", "current transaction is aborted"))
	}
	if len(args) != st.NParams {
		return fail(dberr("08P01", "statement has %d parameters but %d arguments were given: %s", st.NParams, len(args), q))
	}
	t, err := e.table(st.Table)
	if err != nil {
		return fail(err)
	}
	ev.Table = t.Name
	me := tx
	if me == nil {
		me = e.Begin()
	}
	ev.Tx = me.ID
	for {
		x := &exec{e: e, t: t, tx: me, st: st, args: args}
		if e.D == SQLite {
			x.waitFor, err = e.admit(me, st.Kind != "select")
		}
		if err == nil && len(x.waitFor) == 0 {
			err = x.plan()
		}
		if err == nil && len(x.waitFor) == 0 {
			ev.Pre = t.current(me.ID)
			ev.Res, err = x.apply()
			ev.Post = t.current(me.ID)
			break
		}
		if err != nil {
			break
		}
		e.waits[me.ID] = x.waitFor
		if e.cycle(me.ID) {
			e.Rollback(me)
			me.Failed = true
			err = ErrDeadlock
			break
		}
		if e.LockWait == nil {
			err = dberr("55P03", "lock not available")
			break
		}
		wait := append([]int64(nil), x.waitFor...)
		e.LockWait(func() bool {
			for _, id := range wait {
				if _, ok := e.txs[id]; ok {
					return false
				}
			}
			return true
		})
		delete(e.waits, me.ID)
		if me.Done {
			err = dberr("25000", "transaction is gone")
			break
		}
	}
	if err != nil {
		if tx == nil {
			e.Rollback(me)
		}
		return fail(err)
	}
	if e.D == Postgres && tx != nil {
		// statement-level errors above marked the transaction failed
	}
	if tx == nil {
		e.Commit(me)
		ev.Committed = true
	} else {
		tx.Events = append(tx.Events, ev)
	}
	if e.Observe != nil {
		e.Observe(ev)
	}
	return ev.Res, nil
}

func (e *Engine) cycle(from int64) bool {
	seen := map[int64]bool{}
	var visit func(id int64) bool
	visit = func(id int64) bool {
		for _, n := range e.waits[id] {
			if n == from {
				return true
			}
			if !seen[n] {
				seen[n] = true
				if visit(n) {
					return true
				}
			}
		}
		return false
	}
	return visit(from)
}

type exec struct {
	e       *Engine
	t       *Table
	tx      *Tx
	st      *Stmt
	args    []any
	waitFor []int64

	matched []*Row
	newRows [][]any
	auto    []bool
}

func (x *exec) need(r *Row, m lockMode) {
	add := func(id int64) {
		for _, w := range x.waitFor {
			if w == id {
				return
			}
		}
		x.waitFor = append(x.waitFor, id)
	}
	if r.Owner != 0 && r.Owner != x.tx.ID {
		add(r.Owner)
	}
	var ids []int64
	for id := range r.locks {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		if id != x.tx.ID && conflicts(r.locks[id], m) {
			add(id)
		}
	}
}

func (x *exec) lock(r *Row, m lockMode) {
	if r.locks == nil {
		r.locks = map[int64]lockMode{}
	}
	if r.locks[x.tx.ID] < m {
		r.locks[x.tx.ID] = m
	}
}

func (x *exec) lockMode() lockMode {
	switch x.st.Lock {
	case "update":
		return lkUpdate
	case "nokeyupdate":
		return lkNoKey
	case "share":
		return lkShare
	case "keyshare":
		return lkKeyShare
	}
	return 0
}

// checkCols verifies every column reference once.
func (x *exec) checkCols() error {
	var walk func(ex expr) error
	walk = func(ex expr) error {
		switch v := ex.(type) {
		case eCol:
			_, err := x.t.col(x.e, v.Name)
			return err
		case eExcl:
			_, err := x.t.col(x.e, v.Name)
			return err
		case eTuple:
			for _, a := range v.L {
				if err := walk(a); err != nil {
					return err
				}
			}
		case eBin:
			if err := walk(v.A); err != nil {
				return err
			}
			return walk(v.B)
		case eNot:
			return walk(v.A)
		case eIsNull:
			return walk(v.A)
		case eIn:
			if err := walk(v.A); err != nil {
				return err
			}
			for _, a := range v.L {
				if err := walk(a); err != nil {
					return err
				}
			}
		case eBetw:
			for _, a := range []expr{v.A, v.Lo, v.Hi} {
				if err := walk(a); err != nil {
					return err
				}
			}
		case eFunc:
			switch v.Name {
			case "count", "sum", "min", "max", "lower", "upper", "coalesce", "istrue", "isfalse", "default", "abs", "length":
			default:
				return dberr("42883", "function %s does not exist", v.Name)
			}
			for _, a := range v.Args {
				if err := walk(a); err != nil {
					return err
				}
			}
		}
		return nil
	}
	st := x.st
	var all []expr
	if st.Where != nil {
		all = append(all, st.Where)
	}
	all = append(all, st.GroupBy...)
	for _, o := range st.OrderBy {
		if c, ok := o.E.(eCol); ok && x.isAlias(c.Name) {
			continue
		}
		all = append(all, o.E)
	}
	for _, s := range append(append([]selItem{}, st.Sel...), st.Returning...) {
		if !s.Star {
			all = append(all, s.E)
		}
	}
	for _, r := range st.Rows {
		all = append(all, r...)
	}
	for _, a := range append(append([]assign{}, st.Set...), st.Updates...) {
		all = append(all, eCol{a.Col}, a.E)
	}
	for _, ex := range all {
		if err := walk(ex); err != nil {
			return err
		}
	}
	for _, c := range st.Cols {
		if _, err := x.t.col(x.e, c); err != nil {
			return err
		}
	}
	seen := map[int]bool{}
	for _, c := range st.Cols {
		i, _ := x.t.col(x.e, c)
		if seen[i] {
			return dberr("42701", "column %q specified more than once", c)
		}
		seen[i] = true
	}
	for _, as := range [][]assign{st.Set, st.Updates} {
		seen := map[int]bool{}
		for _, a := range as {
			i, _ := x.t.col(x.e, a.Col)
			if seen[i] && x.e.D == Postgres {
				return dberr("42601", "multiple assignments to same column %q", a.Col)
			}
			seen[i] = true
		}
	}
	return nil
}

func (x *exec) isAlias(n string) bool {
	for _, s := range x.st.Sel {
		if s.As != "" && s.As == n {
			return true
		}
	}
	return false
}

func (x *exec) plan() error {
	if err := x.checkCols(); err != nil {
		return err
	}
	switch x.st.Kind {
	case "select", "update", "delete":
		m := lockMode(0)
		switch x.st.Kind {
		case "select":
			m = x.lockMode()
		case "update":
			m = lkNoKey
			if x.e.D == MySQL {
				m = lkUpdate
			}
		case "delete":
			m = lkUpdate
		}
		rows := append([]*Row(nil), x.t.Rows...)
		if x.e.Shuffle != nil {
			p := x.e.Shuffle(len(rows))
			for i, j := range p {
				rows[i] = x.t.Rows[j]
			}
		}
		for _, r := range rows {
			if m != 0 && r.Owner != 0 && r.Owner != x.tx.ID {
				// Would either version match? Then its owner decides first.
				hit := false
				for _, v := range [][]any{r.Vals, r.Old} {
					if v == nil {
						continue
					}
					b, err := x.where(v)
					if err != nil {
						return err
					}
					hit = hit || b
				}
				if hit {
					x.need(r, m)
				}
				continue
			}
			v := r.visible(x.tx.ID)
			if v == nil {
				continue
			}
			b, err := x.where(v)
			if err != nil {
				return err
			}
			if b {
				x.matched = append(x.matched, r)
				if m != 0 {
					x.need(r, m)
				}
			}
		}
		if len(x.waitFor) > 0 {
			return nil
		}
		if len(x.st.GroupBy) == 0 && !x.hasAgg() {
			if err := x.sortRows(x.matched); err != nil {
				return err
			}
			lim, off, err := x.bounds()
			if err != nil {
				return err
			}
			if off > int64(len(x.matched)) {
				off = int64(len(x.matched))
			}
			x.matched = x.matched[off:]
			if lim >= 0 && lim < int64(len(x.matched)) {
				x.matched = x.matched[:lim]
			}
		}
		return nil
	case "insert":
		return x.planInsert()
	}
	return errors.New("bad statement")
}

func (x *exec) hasAgg() bool {
	for _, s := range x.st.Sel {
		if f, ok := s.E.(eFunc); ok {
			switch f.Name {
			case "count", "sum", "min", "max":
				return true
			}
		}
	}
	return false
}

func (x *exec) bounds() (lim, off int64, err error) {
	lim = -1
	get := func(ex expr) (int64, error) {
		v, err := x.eval(ex, nil, nil)
		if err != nil {
			return 0, err
		}
		switch n := v.(type) {
		case int64:
			return n, nil
		case uint64:
			return math.MaxInt64, nil
		case nil:
			return -1, nil
		}
		return 0, dberr("22023", "bad LIMIT value %v", v)
	}
	if x.st.Limit != nil {
		if lim, err = get(x.st.Limit); err != nil {
			return
		}
		if lim < 0 && x.e.D == MySQL {
			return 0, 0, dberr("42000", "negative LIMIT")
		}
	}
	if x.st.Offset != nil {
		if off, err = get(x.st.Offset); err != nil {
			return
		}
		if off < 0 {
			off = 0
		}
	}
	return
}

func (x *exec) where(vals []any) (bool, error) {
	if x.st.Where == nil {
		return true, nil
	}
	v, err := x.eval(x.st.Where, vals, nil)
	if err != nil {
		return false, err
	}
	b, null, err := x.truth(v)
	return b && !null, err
}

func (x *exec) truth(v any) (b, null bool, err error) {
	switch n := v.(type) {
	case nil:
		return false, true, nil
	case bool:
		return n, false, nil
	case int64:
		if x.e.D == Postgres {
			return false, false, dberr("42804", "argument of WHERE must be boolean, not integer")
		}
		return n != 0, false, nil
	case float64:
		if x.e.D != Postgres {
			return n != 0, false, nil
		}
	}
	return false, false, dberr("42804", "argument of WHERE must be boolean, not %T", v)
}

func (x *exec) sortRows(rows []*Row) error {
	var serr error
	if len(x.st.OrderBy) == 0 {
		return nil
	}
	sort.SliceStable(rows, func(i, j int) bool {
		c, err := x.cmpOrder(rows[i].visible(x.tx.ID), rows[j].visible(x.tx.ID))
		if err != nil {
			serr = err
		}
		return c < 0
	})
	return serr
}

func (x *exec) cmpOrder(a, b []any) (int, error) {
	for _, o := range x.st.OrderBy {
		es := []expr{o.E}
		if t, ok := o.E.(eTuple); ok {
			es = t.L
		}
		for _, ex := range es {
			if l, ok := ex.(eLit); ok {
				_ = l
				continue
			}
			va, err := x.eval(ex, a, nil)
			if err != nil {
				return 0, err
			}
			vb, err := x.eval(ex, b, nil)
			if err != nil {
				return 0, err
			}
			c, err := cmpNull(x.e.D, va, vb, o.Desc, o.Null)
			if err != nil {
				return 0, err
			}
			if c != 0 {
				return c, nil
			}
		}
	}
	return 0, nil
}

// cmpNull orders two values with the dialect's placement of nulls; the result
// already accounts for the direction.
func cmpNull(d Dialect, a, b any, desc bool, nulls int) (int, error) {
	if a == nil || b == nil {
		if a == nil && b == nil {
			return 0, nil
		}
		first := (d != Postgres) != desc // nulls first?
		if nulls == 1 {
			first = true
		} else if nulls == 2 {
			first = false
		}
		if (a == nil) == first {
			return -1, nil
		}
		return 1, nil
	}
	c, err := Compare(d, a, b)
	if desc {
		c = -c
	}
	return c, err
}

func num(v any) (f float64, i int64, u uint64, kind int) {
	switch n := v.(type) {
	case int64:
		return float64(n), n, 0, 1
	case uint64:
		if n <= math.MaxInt64 {
			return float64(n), int64(n), 0, 1
		}
		return float64(n), 0, n, 2
	case float64:
		return n, 0, 0, 3
	case bool:
		if n {
			return 1, 1, 0, 1
		}
		return 0, 0, 0, 1
	}
	return 0, 0, 0, 0
}

func cmpInt[T int64 | uint64 | float64](a, b T) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

var timeLayouts = []string{time.RFC3339Nano, "2006-01-02 15:04:05.999999999-07:00", "2006-01-02 15:04:05.999999999", "2006-01-02T15:04:05.999999999", "2006-01-02"}

func parseTime(s string) (time.Time, bool) {
	for _, l := range timeLayouts {
		if t, err := time.ParseInLocation(l, s, time.UTC); err == nil {
			return t, true
		}
	}
	return time.Time{}, false
}

// Compare orders two non-null values.
func Compare(d Dialect, a, b any) (int, error) {
	_, ab := a.(bool)
	_, bb := b.(bool)
	if d == Postgres && ab != bb {
		return 0, dberr("42883", "operator does not exist: %T with %T", a, b)
	}
	fa, ia, ua, ka := num(a)
	fb, ib, ub, kb := num(b)
	if ka != 0 && kb != 0 {
		switch {
		case ka == 1 && kb == 1:
			return cmpInt(ia, ib), nil
		case ka == 2 && kb == 2:
			return cmpInt(ua, ub), nil
		}
		return cmpInt(fa, fb), nil
	}
	sa, oka := text(a)
	sb, okb := text(b)
	if oka && okb {
		return strings.Compare(sa, sb), nil
	}
	ta, ota := a.(time.Time)
	tb, otb := b.(time.Time)
	if ota && okb {
		tb, otb = parseTime(sb)
	}
	if otb && oka {
		ta, ota = parseTime(sa)
	}
	if ota && otb {
		return ta.Compare(tb), nil
	}
	// number against numeric text
	if ka != 0 && okb {
		if f, err := strconv.ParseFloat(sb, 64); err == nil {
			if n, err := strconv.ParseInt(sb, 10, 64); err == nil && ka == 1 {
				return cmpInt(ia, n), nil
			}
			return cmpInt(fa, f), nil
		}
	}
	if kb != 0 && oka {
		c, err := Compare(d, b, a)
		return -c, err
	}
	return 0, dberr("42883", "operator does not exist: %T with %T", a, b)
}

func text(v any) (string, bool) {
	switch s := v.(type) {
	case string:
		return s, true
	case []byte:
		return string(s), true
	}
	return "", false
}

func like(s, p string) bool {
	if p == "" {
		return s == ""
	}
	switch p[0] {
	case '%':
		for i := 0; i <= len(s); i++ {
			if like(s[i:], p[1:]) {
				return true
			}
		}
		return false
	case '_':
		return s != "" && like(s[1:], p[1:])
	case '\\':
		if len(p) > 1 {
			return s != "" && s[0] == p[1] && like(s[1:], p[2:])
		}
	}
	return s != "" && s[0] == p[0] && like(s[1:], p[1:])
}

// eval evaluates an expression over a row; excl is the proposed row of an upsert.
func (x *exec) eval(ex expr, vals, excl []any) (any, error) {
	switch v := ex.(type) {
	case eLit:
		return v.V, nil
	case eParam:
		return x.args[v.N-1], nil
	case eCol:
		i, err := x.t.col(x.e, v.Name)
		if err != nil {
			return nil, err
		}
		if vals == nil {
			return nil, dberr("42703", "column %q not allowed here", v.Name)
		}
		return vals[i], nil
	case eExcl:
		i, err := x.t.col(x.e, v.Name)
		if err != nil {
			return nil, err
		}
		if excl == nil {
			return nil, dberr("42P01", "EXCLUDED not allowed here")
		}
		return excl[i], nil
	case eTuple:
		out := make([]any, len(v.L))
		for i := range v.L {
			a, err := x.eval(v.L[i], vals, excl)
			if err != nil {
				return nil, err
			}
			out[i] = a
		}
		return tuple(out), nil
	case eNot:
		a, err := x.eval(v.A, vals, excl)
		if err != nil {
			return nil, err
		}
		b, null, err := x.truth(a)
		if err != nil || null {
			return nil, err
		}
		return !b, nil
	case eIsNull:
		a, err := x.eval(v.A, vals, excl)
		if err != nil {
			return nil, err
		}
		return (a == nil) != v.Not, nil
	case eBetw:
		lo, err := x.eval(eBin{">=", v.A, v.Lo}, vals, excl)
		if err != nil {
			return nil, err
		}
		hi, err := x.eval(eBin{"<=", v.A, v.Hi}, vals, excl)
		if err != nil {
			return nil, err
		}
		r := and3(lo, hi)
		if v.Not {
			return not3(r), nil
		}
		return r, nil
	case eIn:
		var r any = false
		for _, l := range v.L {
			c, err := x.eval(eBin{"=", v.A, l}, vals, excl)
			if err != nil {
				return nil, err
			}
			r = or3(r, c)
		}
		if v.Not {
			return not3(r), nil
		}
		return r, nil
	case eFunc:
		return x.fn(v, vals, excl)
	case eBin:
		switch v.Op {
		case "and", "or":
			a, err := x.eval(v.A, vals, excl)
			if err != nil {
				return nil, err
			}
			b, err := x.eval(v.B, vals, excl)
			if err != nil {
				return nil, err
			}
			ta, na, err := x.truth(a)
			if err != nil {
				return nil, err
			}
			tb, nb, err := x.truth(b)
			if err != nil {
				return nil, err
			}
			var va, vb any = ta, tb
			if na {
				va = nil
			}
			if nb {
				vb = nil
			}
			if v.Op == "and" {
				return and3(va, vb), nil
			}
			return or3(va, vb), nil
		}
		a, err := x.eval(v.A, vals, excl)
		if err != nil {
			return nil, err
		}
		b, err := x.eval(v.B, vals, excl)
		if err != nil {
			return nil, err
		}
		switch v.Op {
		case "+", "-", "*", "/":
			if a == nil || b == nil {
				return nil, nil
			}
			fa, ia, _, ka := num(a)
			fb, ib, _, kb := num(b)
			if ka == 0 || kb == 0 {
				return nil, dberr("22P02", "bad operand")
			}
			if ka == 1 && kb == 1 && v.Op != "/" {
				switch v.Op {
				case "+":
					return ia + ib, nil
				case "-":
					return ia - ib, nil
				}
				return ia * ib, nil
			}
			switch v.Op {
			case "+":
				return fa + fb, nil
			case "-":
				return fa - fb, nil
			case "*":
				return fa * fb, nil
			}
			return fa / fb, nil
		case "like":
			if a == nil || b == nil {
				return nil, nil
			}
			sa, oka := text(a)
			sb, okb := text(b)
			if !oka || !okb {
				if x.e.D == Postgres {
					return nil, dberr("42883", "operator does not exist: %T ~~ %T", a, b)
				}
				if !oka {
					sa = fmt.Sprint(a)
				}
				if !okb {
					sb = fmt.Sprint(b)
				}
			}
			return like(sa, sb), nil
		}
		return x.cmp(v.Op, a, b)
	}
	return nil, fmt.Errorf("bad expression %T", ex)
}

type tuple []any

func (x *exec) cmp(op string, a, b any) (any, error) {
	ta, oka := a.(tuple)
	tb, okb := b.(tuple)
	if oka != okb {
		if oka && len(ta) == 1 {
			return x.cmp(op, ta[0], b)
		}
		if okb && len(tb) == 1 {
			return x.cmp(op, a, tb[0])
		}
		return nil, dberr("21000", "operand should contain 1 column")
	}
	if oka {
		if len(ta) != len(tb) {
			return nil, dberr("21000", "unequal number of entries in row expressions")
		}
		switch op {
		case "=", "<>":
			var r any = true
			for i := range ta {
				c, err := x.cmp("=", ta[i], tb[i])
				if err != nil {
					return nil, err
				}
				r = and3(r, c)
			}
			if op == "<>" {
				return not3(r), nil
			}
			return r, nil
		}
		// lexicographic
		strict := op[:1]
		var r any = false
		var eq any = true
		for i := range ta {
			o := strict
			if i == len(ta)-1 {
				o = op
			}
			c, err := x.cmp(o, ta[i], tb[i])
			if err != nil {
				return nil, err
			}
			r = or3(r, and3(eq, c))
			e, err := x.cmp("=", ta[i], tb[i])
			if err != nil {
				return nil, err
			}
			eq = and3(eq, e)
		}
		return r, nil
	}
	if op == "<=>" {
		if a == nil || b == nil {
			return a == nil && b == nil, nil
		}
		op = "="
	}
	if a == nil || b == nil {
		return nil, nil
	}
	c, err := Compare(x.e.D, a, b)
	if err != nil {
		return nil, err
	}
	switch op {
	case "=":
		return c == 0, nil
	case "<>":
		return c != 0, nil
	case "<":
		return c < 0, nil
	case "<=":
		return c <= 0, nil
	case ">":
		return c > 0, nil
	case ">=":
		return c >= 0, nil
	}
	return nil, fmt.Errorf("bad operator %s", op)
}

func and3(a, b any) any {
	if a == false || b == false {
		return false
	}
	if a == nil || b == nil {
		return nil
	}
	return true
}
func or3(a, b any) any {
	if a == true || b == true {
		return true
	}
	if a == nil || b == nil {
		return nil
	}
	return false
}
func not3(a any) any {
	if b, ok := a.(bool); ok {
		return !b
	}
	return nil
}

func (x *exec) fn(f eFunc, vals, excl []any) (any, error) {
	var as []any
	for _, a := range f.Args {
		v, err := x.eval(a, vals, excl)
		if err != nil {
			return nil, err
		}
		as = append(as, v)
	}
	switch f.Name {
	case "coalesce":
		for _, a := range as {
			if a != nil {
				return a, nil
			}
		}
		return nil, nil
	case "istrue", "isfalse":
		b, null, err := x.truth(as[0])
		if err != nil {
			return nil, err
		}
		return !null && b == (f.Name == "istrue"), nil
	case "lower", "upper":
		if len(as) == 1 {
			if s, ok := text(as[0]); ok {
				if f.Name == "lower" {
					return strings.ToLower(s), nil
				}
				return strings.ToUpper(s), nil
			}
			return as[0], nil
		}
	}
	return nil, dberr("42883", "function %s cannot be used here", f.Name)
}

// Coerce converts an argument to the column's kind as a strict server would.
func Coerce(d Dialect, k Kind, v any) (any, error) {
	if v == nil {
		return nil, nil
	}
	bad := func() (any, error) {
		return nil, dberr("22P02", "value %v (%T) cannot be stored in a column of type %s", v, v, k)
	}
	s, isText := text(v)
	switch k {
	case KInt:
		switch n := v.(type) {
		case int64:
			return n, nil
		case uint64:
			if n > math.MaxInt64 {
				return nil, dberr("22003", "out of range")
			}
			return int64(n), nil
		case bool:
			if d == Postgres {
				return bad()
			}
			if n {
				return int64(1), nil
			}
			return int64(0), nil
		case float64:
			if n == math.Trunc(n) && math.Abs(n) < 1<<53 {
				return int64(n), nil
			}
			return bad()
		}
		if isText {
			if n, err := strconv.ParseInt(strings.TrimSpace(s), 10, 64); err == nil {
				return n, nil
			}
		}
		return bad()
	case KUint:
		switch n := v.(type) {
		case int64:
			if n < 0 {
				return nil, dberr("22003", "out of range")
			}
			return uint64(n), nil
		case uint64:
			return n, nil
		}
		if isText {
			if n, err := strconv.ParseUint(strings.TrimSpace(s), 10, 64); err == nil {
				return n, nil
			}
		}
		return bad()
	case KFloat:
		switch n := v.(type) {
		case float64:
			return n, nil
		case int64:
			return float64(n), nil
		}
		if isText {
			if f, err := strconv.ParseFloat(strings.TrimSpace(s), 64); err == nil {
				return f, nil
			}
		}
		return bad()
	case KBool:
		switch n := v.(type) {
		case bool:
			return n, nil
		case int64:
			if d == Postgres {
				return bad()
			}
			return n != 0, nil
		}
		if isText && d == Postgres {
			if b, err := strconv.ParseBool(s); err == nil {
				return b, nil
			}
		}
		return bad()
	case KText, KJSON, KArray:
		if isText {
			if k == KJSON && d != SQLite {
				n, ok := normJSON(s, d == MySQL)
				if !ok {
					return nil, dberr("3140", "Invalid JSON text: %.60q", s)
				}
				return n, nil
			}
			return s, nil
		}
		if d == Postgres {
			return bad()
		}
		switch n := v.(type) {
		case int64:
			return strconv.FormatInt(n, 10), nil
		case uint64:
			return strconv.FormatUint(n, 10), nil
		case float64:
			return strconv.FormatFloat(n, 'g', -1, 64), nil
		}
		return bad()
	case KBytes:
		if isText {
			return []byte(s), nil
		}
		return bad()
	case KTime:
		switch n := v.(type) {
		case time.Time:
			return n.UTC(), nil
		}
		if isText {
			if t, ok := parseTime(s); ok {
				return t.UTC(), nil
			}
		}
		return bad()
	}
	return bad()
}

func (x *exec) planInsert() error {
	cols := x.st.Cols
	var idx []int
	if cols == nil {
		for i := range x.t.Cols {
			idx = append(idx, i)
		}
	}
	for _, c := range cols {
		i, err := x.t.col(x.e, c)
		if err != nil {
			return err
		}
		idx = append(idx, i)
	}
	for _, r := range x.st.Rows {
		if cols != nil || len(r) > 0 {
			if len(r) != len(idx) {
				return dberr("21S01", "column count (%d) does not match value count (%d)", len(idx), len(r))
			}
		}
		vals := make([]any, len(x.t.Cols))
		given := make([]bool, len(x.t.Cols))
		for i := range r {
			if f, ok := r[i].(eFunc); ok && f.Name == "default" {
				continue
			}
			v, err := x.eval(r[i], nil, nil)
			if err != nil {
				return err
			}
			c := x.t.Cols[idx[i]]
			cv, err := Coerce(x.e.D, c.Kind, v)
			if err != nil {
				return err
			}
			vals[idx[i]] = cv
			given[idx[i]] = true
		}
		auto := false
		for i, c := range x.t.Cols {
			if c.AutoInc {
				if !given[i] || vals[i] == nil && x.e.D != Postgres || x.e.D == MySQL && isZero(vals[i]) {
					auto = true
					vals[i] = nil
					continue
				}
			}
			if !given[i] {
				if c.HasDef {
					vals[i] = c.Default
				} else if !c.Nullable {
					return dberr("HY000", "field %q doesn't have a default value", c.Name)
				}
			}
			if vals[i] == nil && !c.Nullable {
				return dberr("23502", "null value in column %q violates not-null constraint", c.Name)
			}
		}
		x.newRows = append(x.newRows, vals)
		x.auto = append(x.auto, auto)
	}
	// Conflicts with pending rows of other transactions decide first.
	for i, vals := range x.newRows {
		for ui := range x.t.Uniques {
			if x.auto[i] && ui == 0 {
				continue
			}
			for _, r := range x.t.Rows {
				for _, v := range [][]any{r.Vals, r.Old} {
					if v != nil && x.sameKey(ui, v, vals) {
						if x.st.HasConf && !x.st.DoNothing {
							x.need(r, lkNoKey)
						} else if r.Owner != 0 && r.Owner != x.tx.ID {
							x.need(r, lkKeyShare)
						}
					}
				}
			}
		}
	}
	if x.st.ConfCols != nil {
		if _, err := x.target(); err != nil {
			return err
		}
	}
	return nil
}

func isZero(v any) bool {
	n, ok := v.(int64)
	return ok && n == 0
}

func (x *exec) target() (int, error) {
	want := map[int]bool{}
	for _, c := range x.st.ConfCols {
		i, err := x.t.col(x.e, c)
		if err != nil {
			return 0, err
		}
		want[i] = true
	}
	for ui, u := range x.t.Uniques {
		if len(u) != len(want) {
			continue
		}
		ok := true
		for _, i := range u {
			ok = ok && want[i]
		}
		if ok {
			return ui, nil
		}
	}
	return 0, dberr("42P10", "there is no unique or exclusion constraint matching the ON CONFLICT specification")
}

func (x *exec) sameKey(ui int, a, b []any) bool {
	for _, i := range x.t.Uniques[ui] {
		if a[i] == nil || b[i] == nil {
			return false
		}
		c, err := Compare(x.e.D, a[i], b[i])
		if err != nil || c != 0 {
			return false
		}
	}
	return true
}

func (x *exec) conflict(vals []any, except *Row) (*Row, int) {
	for ui := range x.t.Uniques {
		for _, r := range x.t.Rows {
			if r == except || r.Deleted {
				continue
			}
			if x.sameKey(ui, r.Vals, vals) {
				return r, ui
			}
		}
	}
	return nil, -1
}

func (x *exec) touch(r *Row) {
	if r.Owner == 0 {
		r.Owner = x.tx.ID
		r.Old = append([]any(nil), r.Vals...)
	}
	x.lock(r, lkUpdate)
}

func (x *exec) apply() (*Result, error) {
	res := &Result{}
	switch x.st.Kind {
	case "select":
		return x.applySelect()
	case "update":
		for _, r := range x.matched {
			nv := append([]any(nil), r.Vals...)
			for _, a := range x.st.Set {
				i, _ := x.t.col(x.e, a.Col)
				src := r.Vals
				if x.e.D == MySQL {
					src = nv // MySQL evaluates assignments left to right
				}
				v, err := x.eval(a.E, src, nil)
				if err != nil {
					return nil, err
				}
				if nv[i], err = Coerce(x.e.D, x.t.Cols[i].Kind, v); err != nil {
					return nil, err
				}
				if nv[i] == nil && !x.t.Cols[i].Nullable {
					return nil, dberr("23502", "null value in column %q", x.t.Cols[i].Name)
				}
			}
			changed := !sameVals(nv, r.Vals)
			if changed || x.e.D != MySQL {
				res.Affected++
			}
			if changed {
				if c, _ := x.conflict(nv, r); c != nil {
					return nil, dberr("23505", "duplicate key value violates unique constraint")
				}
				x.touch(r)
				r.Vals = nv
			} else {
				x.lock(r, lkUpdate)
			}
			if x.st.Returning != nil {
				if err := x.project(res, x.st.Returning, r.Vals); err != nil {
					return nil, err
				}
			}
		}
		return x.finishRet(res), nil
	case "delete":
		for _, r := range x.matched {
			if x.st.Returning != nil {
				if err := x.project(res, x.st.Returning, r.Vals); err != nil {
					return nil, err
				}
			}
			if r.Owner == x.tx.ID && r.IsNew {
				for i := range x.t.Rows {
					if x.t.Rows[i] == r {
						x.t.Rows = append(x.t.Rows[:i:i], x.t.Rows[i+1:]...)
						break
					}
				}
			} else {
				x.touch(r)
				r.Deleted = true
			}
			res.Affected++
		}
		return x.finishRet(res), nil
	case "insert":
		return x.applyInsert()
	}
	return nil, errors.New("bad statement")
}

func (x *exec) finishRet(res *Result) *Result {
	if x.st.Returning != nil {
		res.IsQuery = true
		if res.Cols == nil {
			res.Cols, res.Kinds = x.colsOf(x.st.Returning)
		}
	}
	return res
}

func (x *exec) colsOf(items []selItem) ([]string, []Kind) {
	var cs []string
	var ks []Kind
	for _, it := range items {
		if it.Star {
			for _, c := range x.t.Cols {
				cs = append(cs, c.Name)
				ks = append(ks, c.Kind)
			}
			continue
		}
		n, k := "expr", KText
		switch v := it.E.(type) {
		case eCol:
			i, _ := x.t.col(x.e, v.Name)
			n, k = x.t.Cols[i].Name, x.t.Cols[i].Kind
		case eFunc:
			n = v.Name
			switch v.Name {
			case "count", "sum", "length", "abs":
				k = KInt
			default:
				if len(v.Args) == 1 {
					if c, ok := v.Args[0].(eCol); ok {
						i, _ := x.t.col(x.e, c.Name)
						k = x.t.Cols[i].Kind
					}
				}
			}
		}
		if it.As != "" {
			n = it.As
		}
		cs = append(cs, n)
		ks = append(ks, k)
	}
	return cs, ks
}

func (x *exec) project(res *Result, items []selItem, vals []any) error {
	if res.Cols == nil {
		res.Cols, res.Kinds = x.colsOf(items)
	}
	var out []any
	for _, it := range items {
		if it.Star {
			out = append(out, vals...)
			continue
		}
		v, err := x.eval(it.E, vals, nil)
		if err != nil {
			return err
		}
		out = append(out, v)
	}
	res.Rows = append(res.Rows, out)
	return nil
}

func sameVals(a, b []any) bool {
	for i := range a {
		if !SameVal(a[i], b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

// SameVal compares two stored values.
func SameVal(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch va := a.(type) {
	case []byte:
		vb, ok := b.([]byte)
		return ok && bytes.Equal(va, vb)
	case time.Time:
		vb, ok := b.(time.Time)
		return ok && va.Equal(vb)
	case float64:
		vb, ok := b.(float64)
		return ok && (va == vb || va != va && vb != vb)
	}
	return a == b
}

func (x *exec) applySelect() (*Result, error) {
	res := &Result{IsQuery: true}
	res.Cols, res.Kinds = x.colsOf(x.st.Sel)
	if len(x.st.GroupBy) > 0 || x.hasAgg() {
		return x.applyGroup(res)
	}
	m := x.lockMode()
	for _, r := range x.matched {
		if m != 0 {
			x.lock(r, m)
			if x.e.Locked != nil {
				var pk []any
				for _, i := range x.t.Uniques[0] {
					pk = append(pk, r.Vals[i])
				}
				x.e.Locked(x.tx.ID, x.t.Name, pk, x.st.Lock)
			}
		}
		if err := x.project(res, x.st.Sel, r.visible(x.tx.ID)); err != nil {
			return nil, err
		}
	}
	return res, nil
}

func (x *exec) applyGroup(res *Result) (*Result, error) {
	type group struct {
		key  []any
		rows [][]any
	}
	var gs []*group
	for _, r := range x.matched {
		vals := r.visible(x.tx.ID)
		var key []any
		for _, g := range x.st.GroupBy {
			v, err := x.eval(g, vals, nil)
			if err != nil {
				return nil, err
			}
			key = append(key, v)
		}
		var hit *group
		for _, g := range gs {
			if sameVals(g.key, key) {
				hit = g
			}
		}
		if hit == nil {
			hit = &group{key: key}
			gs = append(gs, hit)
		}
		hit.rows = append(hit.rows, vals)
	}
	if len(x.st.GroupBy) == 0 && len(gs) == 0 {
		gs = []*group{{}}
	}
	// every plain column must be grouped, or depend on a grouped primary key
	grouped := map[int]bool{}
	for _, g := range x.st.GroupBy {
		if c, ok := g.(eCol); ok {
			i, _ := x.t.col(x.e, c.Name)
			grouped[i] = true
		}
	}
	pk := len(x.t.Uniques) > 0
	for _, i := range x.t.Uniques[0] {
		pk = pk && grouped[i]
	}
	chk := func(ex expr) error {
		if c, ok := ex.(eCol); ok && !pk {
			if x.isAlias(c.Name) {
				return nil
			}
			i, _ := x.t.col(x.e, c.Name)
			if !grouped[i] {
				return dberr("42803", "column %q must appear in the GROUP BY clause", c.Name)
			}
		}
		return nil
	}
	for _, s := range x.st.Sel {
		if s.Star && !pk {
			return nil, dberr("42803", "* with GROUP BY")
		}
		if err := chk(s.E); err != nil {
			return nil, err
		}
	}
	for _, o := range x.st.OrderBy {
		if err := chk(o.E); err != nil {
			return nil, err
		}
	}
	evalG := func(ex expr, g *group) (any, error) {
		if f, ok := ex.(eFunc); ok {
			switch f.Name {
			case "count":
				n := int64(0)
				for _, r := range g.rows {
					if f.Star || len(f.Args) == 0 {
						n++
						continue
					}
					v, err := x.eval(f.Args[0], r, nil)
					if err != nil {
						return nil, err
					}
					if v != nil {
						n++
					}
				}
				return n, nil
			case "sum", "min", "max":
				var acc any
				for _, r := range g.rows {
					v, err := x.eval(f.Args[0], r, nil)
					if err != nil {
						return nil, err
					}
					if v == nil {
						continue
					}
					if acc == nil {
						acc = v
						continue
					}
					if f.Name == "sum" {
						a, _ := acc.(int64)
						b, _ := v.(int64)
						acc = a + b
						continue
					}
					c, err := Compare(x.e.D, v, acc)
					if err != nil {
						return nil, err
					}
					if c < 0 == (f.Name == "min") && c != 0 {
						acc = v
					}
				}
				return acc, nil
			}
		}
		if len(g.rows) == 0 {
			return nil, nil
		}
		return x.eval(ex, g.rows[0], nil)
	}
	var serr error
	if len(x.st.OrderBy) > 0 {
		sort.SliceStable(gs, func(i, j int) bool {
			for _, o := range x.st.OrderBy {
				ex := o.E
				if c, ok := ex.(eCol); ok {
					for _, s := range x.st.Sel {
						if s.As != "" && s.As == c.Name {
							ex = s.E
						}
					}
				}
				a, err := evalG(ex, gs[i])
				if err != nil {
					serr = err
				}
				b, err := evalG(ex, gs[j])
				if err != nil {
					serr = err
				}
				c, err := cmpNull(x.e.D, a, b, o.Desc, o.Null)
				if err != nil {
					serr = err
				}
				if c != 0 {
					return c < 0
				}
			}
			return false
		})
	}
	if serr != nil {
		return nil, serr
	}
	for _, g := range gs {
		var row []any
		for _, s := range x.st.Sel {
			if s.Star {
				row = append(row, g.rows[0]...)
				continue
			}
			v, err := evalG(s.E, g)
			if err != nil {
				return nil, err
			}
			row = append(row, v)
		}
		res.Rows = append(res.Rows, row)
	}
	lim, off, err := x.bounds()
	if err != nil {
		return nil, err
	}
	if off > int64(len(res.Rows)) {
		off = int64(len(res.Rows))
	}
	res.Rows = res.Rows[off:]
	if lim >= 0 && lim < int64(len(res.Rows)) {
		res.Rows = res.Rows[:lim]
	}
	return res, nil
}

func (x *exec) applyInsert() (*Result, error) {
	res := &Result{}
	snap := make([]*Row, len(x.t.Rows))
	copy(snap, x.t.Rows)
	undo := map[*Row]Row{}
	for _, r := range snap {
		undo[r] = *r
	}
	fail := func(err error) (*Result, error) {
		for r, v := range undo {
			*r = v
		}
		x.t.Rows = snap
		return nil, err
	}
	touched := map[*Row]bool{}
	for n, vals := range x.newRows {
		vals = append([]any(nil), vals...)
		autoCol := -1
		for i, c := range x.t.Cols {
			if c.AutoInc {
				autoCol = i
			}
		}
		if x.auto[n] {
			k, err := Coerce(x.e.D, x.t.Cols[autoCol].Kind, x.t.Next)
			if err != nil {
				return fail(err)
			}
			vals[autoCol] = k
			x.t.Next++
		} else if autoCol >= 0 {
			x.t.used(vals[autoCol])
		}
		c, ui := x.conflict(vals, nil)
		if c != nil && x.st.ConfCols != nil {
			want, err := x.target()
			if err != nil {
				return fail(err)
			}
			if ui != want {
				// maybe also a conflict on the target; the other one still errors
				return fail(dberr("23505", "duplicate key value violates unique constraint"))
			}
		}
		if c != nil {
			switch {
			case x.st.Ignore, x.st.HasConf && x.st.DoNothing:
				continue
			case x.st.HasConf:
				if touched[c] && x.e.D == Postgres {
					return fail(dberr("21000", "ON CONFLICT DO UPDATE command cannot affect row a second time"))
				}
				nv := append([]any(nil), c.Vals...)
				for _, a := range x.st.Updates {
					i, _ := x.t.col(x.e, a.Col)
					src := c.Vals
					if x.e.D == MySQL {
						src = nv
					}
					v, err := x.eval(a.E, src, vals)
					if err != nil {
						return fail(err)
					}
					if nv[i], err = Coerce(x.e.D, x.t.Cols[i].Kind, v); err != nil {
						return fail(err)
					}
					if nv[i] == nil && !x.t.Cols[i].Nullable {
						return fail(dberr("23502", "null value in column %q", x.t.Cols[i].Name))
					}
				}
				changed := !sameVals(nv, c.Vals)
				if k, _ := x.conflict(nv, c); k != nil {
					return fail(dberr("23505", "duplicate key value violates unique constraint"))
				}
				if changed {
					x.touch(c)
					c.Vals = nv
				} else {
					x.lock(c, lkUpdate)
				}
				touched[c] = true
				if x.e.D == MySQL {
					if changed {
						res.Affected += 2
					}
				} else {
					res.Affected++
				}
				if autoCol >= 0 && x.e.D == MySQL && res.LastID == 0 {
					res.LastID = keyInt(c.Vals[autoCol])
					res.SetLast = true
				}
				if x.st.Returning != nil {
					if err := x.project(res, x.st.Returning, c.Vals); err != nil {
						return fail(err)
					}
				}
				continue
			default:
				return fail(dberr("23505", "duplicate key value violates unique constraint"))
			}
		}
		x.e.nextRow++
		r := &Row{ID: x.e.nextRow, Vals: vals, Owner: x.tx.ID, IsNew: true}
		x.lock(r, lkUpdate)
		x.t.Rows = append(x.t.Rows, r)
		touched[r] = true
		res.Affected++
		if autoCol >= 0 {
			id := keyInt(vals[autoCol])
			res.Inserted = append(res.Inserted, id)
			switch x.e.D {
			case MySQL:
				if x.auto[n] && !res.SetLast || !x.auto[n] && res.LastID == 0 {
					res.LastID = id
					res.SetLast = x.auto[n]
				}
			default:
				res.LastID = id
				res.SetLast = true
			}
		} else if x.e.D == SQLite {
			res.LastID = r.ID
			res.SetLast = true
		}
		if x.st.Returning != nil {
			if err := x.project(res, x.st.Returning, vals); err != nil {
				return fail(err)
			}
		}
	}
	return x.finishRet(res), nil
}

// LockedRows lists the rows transaction tx holds explicit locks on.
func (e *Engine) LockedRows(tx int64, table string) [][]any {
	t := e.Tables[table]
	var out [][]any
	for _, r := range t.Rows {
		if _, ok := r.locks[tx]; ok {
			out = append(out, r.Vals)
		}
	}
	return out
}

// Txs are the open transactions.
func (e *Engine) Txs() map[int64]*Tx { return e.txs }

// normJSON checks that s is one JSON document. MySQL stores documents in a
// normal form: members ordered by key length and bytes, ", " and ": " as
// separators, the last of equal keys kept. PostgreSQL's json type keeps the text.
func normJSON(s string, norm bool) (string, bool) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v any
	if d.Decode(&v) != nil || !utf8.ValidString(s) {
		return "", false
	}
	if _, err := d.Token(); err != io.EOF {
		return "", false
	}
	if !norm {
		return s, true
	}
	var b strings.Builder
	writeJSON(&b, v)
	return b.String(), true
}

func writeJSON(b *strings.Builder, v any) {
	switch n := v.(type) {
	case []any:
		b.WriteByte('[')
		for i, e := range n {
			if i > 0 {
				b.WriteString(", ")
			}
			writeJSON(b, e)
		}
		b.WriteByte(']')
	case map[string]any:
		keys := make([]string, 0, len(n))
		for k := range n {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool {
			if len(keys[i]) != len(keys[j]) {
				return len(keys[i]) < len(keys[j])
			}
			return keys[i] < keys[j]
		})
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteString(", ")
			}
			writeJSON(b, k)
			b.WriteString(": ")
			writeJSON(b, n[k])
		}
		b.WriteByte('}')
	case json.Number:
		b.WriteString(n.String())
	case string:
		b.WriteByte('"')
		for _, r := range n {
			switch {
			case r == '"' || r == '\\':
				b.WriteByte('\\')
				b.WriteRune(r)
			case r == '\n':
				b.WriteString(`\n`)
			case r == '\r':
				b.WriteString(`\r`)
			case r == '\t':
				b.WriteString(`\t`)
			case r < 0x20:
				fmt.Fprintf(b, `\u%04x`, r)
			default:
				b.WriteRune(r)
			}
		}
		b.WriteByte('"')
	case bool:
		b.WriteString(strconv.FormatBool(n))
	case nil:
		b.WriteString("null")
	}
}

// asciiJSON is the same document with every other character escaped.
func asciiJSON(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r < 0x80:
			b.WriteRune(r)
		case r < 0x10000:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			h, l := utf16.EncodeRune(r)
			fmt.Fprintf(&b, `\u%04X\u%04x`, h, l)
		}
	}
	return b.String()
}
