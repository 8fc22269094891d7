package h

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"simws/core"
	"simws/eng"
)

// Violation is one broken property in one run.
type Violation struct {
	Props []string
	Sig   string
	Msg   string
}

// Profile shapes the runs of one check.
type Profile struct {
	Prop     string
	Variants []string // prefixes; nil for all
	Mix      map[string]int
	MaxTasks int
	MaxOps   int
	// FaultPct is the chance (per cent) that a run has faults at all,
	// FaultDen the odds per driver call within it.
	FaultPct  int
	FaultDen  int
	Kinds     []string
	CancelPct int
	PanicPct  int
	Wide      bool
	Kept      bool // keep results for later inspection
	Diag      int  // per cent of the places where a caller formats the statement
	Extra     int  // per cent of runs that use Scenario instead of the mixed workload
	Scenario  func(w *World)
	Models    func(m *Model) bool
}

type tokKey struct{}

type tableInfo struct {
	t    *eng.Table
	perm []int
}

// Failure is an error the simulated driver reported to a call.
type Failure struct {
	Op  string
	Err error
	Inj bool
}

// Call is one helper call under observation.
type Call struct {
	ID        int
	Op        *Op
	T         *core.Task
	ctx       context.Context
	cancel    context.CancelFunc
	cancelled bool
	late      int // statements issued after the cancellation
	crashed   bool
	Events    []*eng.Event
	Fails     []Failure
	Err       error
	Res       sql.Result
	Out       any
	Panic     any
	Stack     string
	ctxBad    string
	stmts     int
	noFault   bool
	nops      int
	noCancel  bool
	eid       int64
	pages     [][][]any
	stopped   bool // the caller broke the iteration off
	start     time.Time
	shadow    any
	shadowRow []any
	shown     []shown
}

func (c *Call) String() string { return fmt.Sprintf("call %d: %s", c.ID, c.Op) }

// World is one simulated run.
type World struct {
	P     *Profile
	D     *core.Decider
	Sim   *core.Sim
	V     *Variant
	E     *eng.Engine
	S     *eng.Server
	DB    *sql.DB
	Tab   map[*Model]*tableInfo
	Calls int
	Viols []Violation
	root  context.Context
	stop  context.CancelFunc
	all   []context.CancelFunc

	faulty     bool
	nfault     int
	maxFault   int
	ntasks     int
	Faults     map[string]int
	OpsRun     map[string]int
	pools      map[*sync.Pool][]any
	out        map[any]bool
	usePool    bool
	errID      int
	kept       []kept
	states     map[string]bool
	openTx     int
	muted      bool
	Nontrivial bool
	lockLog    []lockEv
	events     []*eng.Event
	multi      int
	fresh      bool // hand out only new pooled objects
	setup      int
	locksRan   int
	heldMax    int
}

type lockEv struct {
	tx    int64
	table string
	pk    []any
	mode  string
}

// kept is a value handed to a caller, watched for later changes.
type kept struct {
	m    *Model
	p    any
	want []any
	call *Call
}

var world *World // the run in progress; the pool hook needs it

func (w *World) viol(props string, sig, format string, a ...any) {
	if w.muted {
		return
	}
	v := Violation{Props: strings.Split(props, ","), Sig: w.V.Name + "/" + sig, Msg: fmt.Sprintf(format, a...)}
	for _, o := range w.Viols {
		if o.Sig == v.Sig && reflect.DeepEqual(o.Props, v.Props) {
			return
		}
	}
	w.Viols = append(w.Viols, v)
	w.Sim.Logf("VIOLATION %s %s", props, v.Sig)
}

func (w *World) cur() *Call {
	t := w.Sim.Cur()
	if t == nil || t.Op == nil {
		return nil
	}
	return t.Op.(*Call)
}

// ---- eng.Hooks ----

func (w *World) Owner() any {
	if c := w.cur(); c != nil {
		return c
	}
	return nil
}

func (w *World) Began(id int64) {
	if c := w.cur(); c != nil {
		c.eid = id
	}
}

func (w *World) Delay(ctx context.Context, d time.Duration) error {
	end := time.Now().Add(d)
	w.Sim.Timed("delay", func() bool { return ctx.Err() != nil || !time.Now().Before(end) })
	return ctx.Err()
}

func (w *World) Note(f string, a ...any) { w.Sim.Logf(f, a...) }

func (w *World) Failed(op string, err error) {
	c := w.cur()
	if c == nil || errors.Is(err, driver.ErrSkip) {
		return
	}
	var ie *injected
	c.Fails = append(c.Fails, Failure{op, err, errors.As(err, &ie)})
	w.Sim.Logf("  driver %s -> %v", op, err)
}

func (w *World) Cancel() {
	if c := w.cur(); c != nil && c.cancel != nil {
		c.cancelled = true
		c.cancel()
	}
}

func (w *World) Ctx(op string, ctx context.Context) {
	c := w.cur()
	if c == nil {
		return
	}
	if got := ctx.Value(tokKey{}); got != c.ID && c.ctxBad == "" {
		c.ctxBad = fmt.Sprintf("%s arrived with a context that is not the caller's (token %v, want %d)", op, got, c.ID)
	}
}

type injected struct {
	id int
	op string
}

func (e *injected) Error() string { return fmt.Sprintf("injected fault #%d at %s", e.id, e.op) }

func (w *World) At(op string, cn *eng.Conn, q string, row int) eng.Action {
	c := w.cur()
	if c == nil {
		return eng.Action{}
	}
	gone := c.ctx.Err() != nil
	if op != "rowsclose" && op != "affected" {
		w.Sim.Yield(op)
	}
	c.nops++
	if op == "exec" || op == "query" || op == "prepare" {
		if gone {
			c.late++
		}
		if op != "prepare" {
			c.stmts++
		}
	}
	if w.Sim.KeepLog || true {
		w.Sim.Logf("  c%d %s conn=%d row=%d %s", c.ID, op, connID(cn), row, q)
	}
	if !w.faulty || c.noFault || w.nfault >= w.maxFault || !w.D.P(1, w.P.FaultDen, "fault") {
		return eng.Action{}
	}
	w.errID++
	ie := &injected{w.errID, op}
	var opts []string
	for _, k := range w.P.Kinds {
		switch k {
		case "badconn":
			if op == "connect" || op == "prepare" || op == "exec" || op == "query" || op == "begin" {
				opts = append(opts, k)
			}
		case "err":
			opts = append(opts, k)
		case "errafter":
			if op == "exec" || op == "query" || op == "next" || op == "commit" {
				opts = append(opts, k)
			}
		case "cancel":
			if op == "connect" || op == "prepare" || op == "exec" || op == "query" || op == "next" {
				opts = append(opts, k)
			}
		case "cancelafter", "cancelok":
			if op == "exec" || op == "query" {
				opts = append(opts, k)
			}
		case "crash":
			if op != "lastid" && op != "rowsclose" && op != "affected" {
				opts = append(opts, k)
			}
		case "crashafter":
			if op == "exec" || op == "query" || op == "commit" {
				opts = append(opts, k)
			}
		case "delay":
			if op == "connect" || op == "exec" || op == "query" || op == "prepare" || op == "next" {
				opts = append(opts, k)
			}
		}
	}
	if len(opts) == 0 {
		return eng.Action{}
	}
	w.nfault++
	a := eng.Action{Kind: opts[w.D.N(len(opts), "faultkind")], Err: ie}
	if a.Kind == "delay" {
		a.Delay = time.Duration(1+w.D.N(40, "delay")) * 100 * time.Millisecond
	}
	if strings.HasPrefix(a.Kind, "crash") {
		c.crashed = true
	}
	w.Faults[op+"/"+a.Kind]++
	w.Sim.Logf("  FAULT %s at %s", a.Kind, op)
	w.Sim.Mark("fault:" + a.Kind + "@" + op)
	return a
}

func connID(c *eng.Conn) int {
	if c == nil {
		return 0
	}
	return c.ID
}

// ---- pools ----

func ours(p *sync.Pool) bool {
	if p.New == nil {
		return false
	}
	n := runtime.FuncForPC(reflect.ValueOf(p.New).Pointer()).Name()
	return strings.HasPrefix(n, "simws/db/") || strings.HasPrefix(n, "github.com/si3nloong/")
}

var oursCache = map[*sync.Pool]bool{}

// poolHook stands in for sync.Pool for the pools of the code under test.
func poolHook(p *sync.Pool, put bool, x any) (any, bool) {
	w := world
	if w == nil || !w.usePool || w.cur() == nil || w.Sim.Aborting() {
		return nil, false
	}
	is, ok := oursCache[p]
	if !ok {
		is = ours(p)
		oursCache[p] = is
	}
	if !is {
		return nil, false
	}
	if put {
		l := w.pools[p]
		for _, y := range l {
			if y == x {
				w.viol("C04,C05", "pool-double-put", "%s: a pooled %T was given back twice, so two later users would share it", w.cur(), x)
				return nil, true
			}
		}
		delete(w.out, x)
		w.pools[p] = append(l, x)
		w.Sim.Yield("pool.put")
		return nil, true
	}
	w.Sim.Yield("pool.get")
	l := w.pools[p]
	if len(l) == 0 || w.D.P(1, 8, "poolnew") {
		n := p.New()
		w.out[n] = true
		return n, true
	}
	i := len(l) - 1 - w.D.N(len(l), "poolpick")
	if w.fresh {
		o := p.New()
		w.out[o] = true
		return o, true
	}
	o := l[i]
	w.pools[p] = append(append([]any{}, l[:i]...), l[i+1:]...)
	w.out[o] = true
	return o, true
}

// ---- running ----

func newWorld(p *Profile, d *core.Decider, keep bool) *World {
	w := &World{P: p, D: d, Sim: core.NewSim(d), Tab: map[*Model]*tableInfo{}, Faults: map[string]int{}, OpsRun: map[string]int{},
		pools: map[*sync.Pool][]any{}, out: map[any]bool{}, usePool: true, states: map[string]bool{}}
	w.Sim.KeepLog = keep
	var vs []*Variant
	for _, v := range Variants {
		if len(p.Variants) == 0 {
			vs = append(vs, v)
			continue
		}
		for _, n := range p.Variants {
			if v.Name == n {
				vs = append(vs, v)
			}
		}
	}
	w.V = vs[d.N(len(vs), "variant")]
	curVariant = w.V
	w.E = eng.NewEngine(w.V.d)
	w.E.Shuffle = func(n int) []int {
		l := make([]int, n)
		for i := range l {
			l[i] = i
		}
		for i := n - 1; i > 0; i-- {
			j := i - w.D.N(i+1, "shuffle")
			l[i], l[j] = l[j], l[i]
		}
		return l
	}
	w.E.LockWait = func(cond func() bool) { w.Sim.Block("lock", cond) }
	w.E.Observe = func(ev *eng.Event) {
		w.events = append(w.events, ev)
		if c := w.cur(); c != nil {
			c.Events = append(c.Events, ev)
			if ev.Err != nil {
				w.Sim.Logf("  db: %v", ev.Err)
			} else if ev.Res != nil {
				w.Sim.Logf("  db: affected=%d rows=%d", ev.Res.Affected, len(ev.Res.Rows))
			}
		}
	}
	w.E.Locked = func(tx int64, table string, pk []any, mode string) {
		w.lockLog = append(w.lockLog, lockEv{tx, table, append([]any(nil), pk...), mode})
	}
	for _, m := range w.V.Models {
		t, perm := m.table(d)
		w.E.AddTable(t)
		w.Tab[m] = &tableInfo{t, perm}
	}
	wire := eng.Wire{
		Text:     d.N(2, "wire.text") == 1,
		Reuse:    d.N(2, "wire.reuse") == 1,
		Exec:     d.N(2, "wire.exec") == 1,
		Skip:     d.N(3, "wire.skip") == 2,
		Reset:    d.N(2, "wire.reset") == 1,
		NumInput: d.N(2, "wire.numinput") == 1,
	}
	wire.Escaped = d.N(4, "wire.escaped") == 3
	if d.N(2, "wire.float32") == 1 {
		wire.Float32 = w.V.columns(func(f *Field) bool { return f.base().Kind() == reflect.Float32 })
	}
	if d.N(3, "wire.timetext") == 2 {
		wire.TimeText = w.V.columns(func(f *Field) bool { return f.ft == reflect.TypeFor[*time.Time]() })
		wire.TimeDigits = []int{0, 6, 3, 1, 2}[d.N(5, "wire.timedigits")]
		wire.TimeDate = d.N(2, "wire.timedate") == 1
	}
	w.S = eng.NewServer(w.E, wire, w)
	w.DB = sql.OpenDB(w.S.Connector())
	w.DB.SetMaxIdleConns([]int{2, 0, 1, 5}[d.N(4, "idle")])
	w.root, w.stop = context.WithCancel(context.Background())
	w.faulty = p.FaultPct > 0 && d.P(p.FaultPct, 100, "faulty")
	w.maxFault = 1
	if w.faulty {
		w.maxFault += d.N(4, "maxfault")
	}
	return w
}

// columns are the names which belong to no other field.
func (v *Variant) columns(is func(*Field) bool) map[string]bool {
	out := map[string]bool{}
	for _, want := range []bool{true, false} {
		for _, m := range v.Models {
			for _, f := range m.Fields {
				if is(f) == want {
					out[strings.ToLower(f.Col)] = want
				}
			}
		}
	}
	return out
}

// prefill stores rows an earlier writer left.
func (w *World) prefill(m *Model, max int, have ...[]any) int {
	n := w.D.N(max+1, "prefill")
	rows := append([][]any{}, have...)
	for i := 0; i < n; i++ {
		p := m.genModel(w.D, w.P.Wide)
		r := m.row(p)
		for _, f := range m.Fields {
			if f.RO && w.D.N(2, "rodef") == 0 {
				r[f.n] = f.Default
			}
		}
		clash := false
		for _, o := range rows {
			for _, u := range m.uq {
				eq := true
				for _, k := range u {
					if !m.Fields[k].same(o[k], r[k]) {
						eq = false
					}
				}
				clash = clash || eq
			}
		}
		if clash {
			continue
		}
		rows = append(rows, r)
		w.put(m, r)
	}
	return len(rows)
}

func (w *World) put(m *Model, r []any, edit ...func(pos []any, perm []int)) {
	ti := w.Tab[m]
	tr := make([]any, len(r))
	for i := range r {
		v, err := eng.Coerce(w.V.d, m.Fields[i].k, w.encode(m.Fields[i], r[i]))
		if err != nil {
			panic(err)
		}
		tr[ti.perm[i]] = v
	}
	for _, f := range edit {
		f(tr, ti.perm)
	}
	w.E.Put(m.Table, tr)
}

// encode turns a logical value into what a writer would have stored.
func (w *World) encode(f *Field, v any) any {
	if f.json && v == "null" && f.base().Kind() == reflect.Slice {
		return nil
	}
	if f.arr && v != nil {
		a, _ := jsonAny(v.(string))
		l, ok := a.([]any)
		if !ok {
			return "{}"
		}
		var s []string
		for _, x := range l {
			switch y := x.(type) {
			case string:
				s = append(s, `"`+strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(y)+`"`)
			case bool:
				s = append(s, map[bool]string{true: "t", false: "f"}[y])
			case float64:
				if y == math.Trunc(y) && math.Abs(y) < 1<<53 {
					s = append(s, strconv.FormatFloat(y, 'f', -1, 64))
				} else {
					s = append(s, strconv.FormatFloat(y, 'g', -1, 64))
				}
			default:
				s = append(s, fmt.Sprint(y))
			}
		}
		return "{" + strings.Join(s, ",") + "}"
	}
	return v
}

// rowsOf reads engine rows as model rows.
func (w *World) mrows(m *Model, in [][]any) [][]any {
	perm := w.Tab[m].perm
	out := make([][]any, len(in))
	for i, r := range in {
		o := make([]any, len(perm))
		for j, p := range perm {
			o[j] = r[p]
		}
		out[i] = o
	}
	return out
}

func (w *World) committed(m *Model) [][]any { return w.mrows(m, w.Tab[m].t.Committed()) }

// call runs one helper call on behalf of task t and judges it.
func (w *World) call(t *core.Task, op *Op, fn func(c *Call)) *Call {
	c := w.begin(t, op)
	w.run(c, fn)
	w.finish(c)
	return c
}

func (w *World) begin(t *core.Task, op *Op) *Call {
	w.Calls++
	c := &Call{ID: w.Calls, Op: op, T: t, start: time.Now()}
	ctx := context.WithValue(w.root, tokKey{}, c.ID)
	if op.Timeout > 0 {
		c.ctx, c.cancel = context.WithTimeout(ctx, op.Timeout)
	} else {
		c.ctx, c.cancel = context.WithCancel(ctx)
	}
	w.all = append(w.all, c.cancel)
	w.OpsRun[op.Kind]++
	w.Sim.Logf("%s starts on %s", c, t.Name)
	t.Op = c
	if op.PreCancel {
		c.cancelled = true
		c.cancel()
	}
	return c
}

func (w *World) run(c *Call, fn func(c *Call)) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(core.Abort); ok {
				panic(r)
			}
			if r == errBody {
				c.Err = errBody
				return
			}
			c.Panic, c.Stack = r, string(debug.Stack())
			c.Err = fmt.Errorf("panic: %v", r)
		}
	}()
	fn(c)
}

var errBody = errors.New("simulated panic in the caller's code")

func (w *World) finish(c *Call) {
	if !c.cancelled && c.ctx.Err() != nil {
		c.cancelled = true
	}
	w.Sim.Logf("c%d returns err=%v", c.ID, c.Err)
	if late := time.Since(c.start) - op(c).Timeout; w.ntasks == 1 && op(c).Timeout > 0 && late > 300*time.Millisecond {
		w.viol("C10", c.Op.Kind+"/slow", "%s returned %s after its deadline (err=%v)", c, late, c.Err)
	}
	c.T.Op = nil
	w.Sim.Yield("settle")
	if n := w.S.Held[c]; n != 0 {
		w.viol("C05", c.Op.Kind+"/leak", "%s returned (err=%v) with %d result sets or statements still open", c, c.Err, n)
	}
	if w.ntasks == 1 {
		if n := w.DB.Stats().InUse; n != w.openTx {
			w.viol("C05", c.Op.Kind+"/conn", "%s returned (err=%v) and %d connections are still in use (open transactions: %d)", c, c.Err, n, w.openTx)
		}
	}
	w.judge(c)
	w.checkKept(c.String())
	if c.shadow != nil {
		m := c.Op.M
		row := m.row(c.shadow)
		for i, f := range m.Fields {
			if !f.same(c.shadowRow[i], row[i]) {
				w.viol("C08", c.Op.Kind+"/"+m.Name+"/overwrote", "a copy of the model made before %s changed with it: column %s of type %s was %s and is %s", c, f.Col, f.ft, show(c.shadowRow[i]), show(row[i]))
			}
		}
	}
}

// old keeps what a copy of the model, made before it is read again, holds.
func (c *Call) old(p any) {
	s := reflect.New(c.Op.M.rt)
	s.Elem().Set(reflect.ValueOf(p).Elem())
	c.shadow, c.shadowRow = s.Interface(), c.Op.M.row(c.Op.M.clone(p))
}

func (w *World) keep(m *Model, p any, c *Call) {
	w.kept = append(w.kept, kept{m, p, m.row(m.clone(p)), c})
}

func (w *World) checkKept(when string) {
	for i := 0; i < len(w.kept); i++ {
		k := w.kept[i]
		if d := k.m.diff(k.want, k.m.row(k.p)); d != "" {
			w.viol("C08", k.call.Op.Kind+"/changed", "the value returned by %s changed later (%s; noticed after %s)", k.call, d, when)
			w.kept = append(w.kept[:i], w.kept[i+1:]...)
			i--
		}
	}
}

// end closes the world and makes the final checks.
func (w *World) end(ok bool) {
	if w.Sim.Hung == "" && ok {
		if n := w.DB.Stats().InUse; n != 0 {
			w.viol("C05", "conn-at-end", "%d connections are still in use after every call returned", n)
		}
		if w.S.OpenRows != 0 || w.S.OpenStmts != 0 {
			w.viol("C05", "rows-at-end", "%d result sets and %d statements are still open after every call returned", w.S.OpenRows, w.S.OpenStmts)
		}
	}
	for _, f := range w.all {
		f()
	}
	w.stop()
	time.Sleep(time.Millisecond)
	w.DB.Close()
	if w.Sim.Hung != "" {
		w.viol(w.P.Prop, "hang", "%s", w.Sim.Hung)
	}
	w.checkKept("the end of the run")
	for m := range w.Tab {
		var l []string
		for _, r := range w.committed(m) {
			l = append(l, showRow(r))
		}
		sort.Strings(l)
		w.states[m.Name+strings.Join(l, ";")] = true
	}
	var l []string
	for s := range w.states {
		l = append(l, s)
	}
	sort.Strings(l)
	w.Sim.Logf("final state %s", strings.Join(l, "\n"))
}

func op(c *Call) *Op { return c.Op }
