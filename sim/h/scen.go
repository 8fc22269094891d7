package h

import (
	"database/sql"
	"errors"
	"fmt"
	"reflect"

	"simws/core"
	"simws/eng"
)

var writes = map[string]int{"insert1": 4, "insert": 4, "updpk": 4, "delpk": 2, "update": 3, "delete": 2}
var reads = map[string]int{"query": 5, "query1": 3, "find": 4, "page": 3}

func mix(ms ...map[string]int) map[string]int {
	o := map[string]int{}
	for _, m := range ms {
		for k, v := range m {
			o[k] += v
		}
	}
	return o
}

var allKinds = []string{"err", "err", "badconn", "errafter", "crash", "crashafter"}

// Profiles are the simulated worlds of each property.
var Profiles = map[string]*Profile{
	"C01": {Mix: map[string]int{"query": 6, "insert": 3, "upsert": 2, "page": 4, "find": 1}, MaxTasks: 2, MaxOps: 3, FaultPct: 85, FaultDen: 7, Kinds: []string{"err", "errafter", "badconn", "crash", "cancel", "cancelok"}},
	"C02": {Mix: mix(writes, map[string]int{"find": 1, "query": 1}), MaxTasks: 3, MaxOps: 5, FaultPct: 15, FaultDen: 20, Kinds: append([]string{"cancelok"}, allKinds...)},
	"C03": {Mix: map[string]int{"query": 6, "query1": 4, "update": 2, "delete": 1, "insert": 1}, MaxTasks: 2, MaxOps: 5, FaultPct: 10, FaultDen: 25, Kinds: append([]string{"cancelok"}, allKinds...)},
	"C04": {Mix: mix(writes, reads, map[string]int{"upsert1": 2, "upsert": 2}), MaxTasks: 4, MaxOps: 4, FaultPct: 40, FaultDen: 14, Kinds: []string{"err", "badconn", "errafter", "cancel"}, PanicPct: 12},
	"C05": {Mix: mix(writes, reads, map[string]int{"upsert1": 2, "upsert": 2, "lock": 2}), MaxTasks: 2, MaxOps: 4, FaultPct: 75, FaultDen: 9, Kinds: []string{"err", "err", "badconn", "errafter", "crash", "cancel", "cancelafter", "cancelok"}, PanicPct: 20, CancelPct: 10},
	"C06": {Mix: map[string]int{"page": 10, "insert": 1, "delpk": 1, "updpk": 1}, MaxTasks: 2, MaxOps: 3, FaultPct: 20, FaultDen: 14, Kinds: []string{"err", "badconn", "errafter", "crash"}},
	"C07": {Mix: map[string]int{"insert1": 3, "insert": 3, "upsert1": 2, "upsert": 1, "updpk": 3, "update": 2, "find": 6, "query": 3, "query1": 2, "page": 1}, MaxTasks: 2, MaxOps: 6, Wide: true, FaultPct: 10, FaultDen: 25, Kinds: allKinds, Extra: 35},
	"C08": {Mix: map[string]int{"insert1": 1, "insert": 2, "upsert": 2, "updpk": 2, "find": 6, "query": 6, "query1": 3, "page": 3, "lock": 2}, MaxTasks: 3, MaxOps: 5, Wide: true, FaultPct: 15, FaultDen: 20, Kinds: allKinds},
	"C09": {Mix: mix(writes, reads, map[string]int{"upsert1": 2, "upsert": 2, "lock": 2}), MaxTasks: 2, MaxOps: 3, FaultPct: 85, FaultDen: 6, Kinds: []string{"err", "err", "err", "badconn", "errafter", "crash", "crashafter"}},
	"C10": {Mix: mix(writes, reads, map[string]int{"upsert1": 2, "upsert": 2, "lock": 2}), MaxTasks: 2, MaxOps: 3, FaultPct: 70, FaultDen: 6, Kinds: []string{"cancel", "cancelafter", "cancelok", "delay", "delay"}, CancelPct: 55},
	"C11": {Mix: map[string]int{"find": 1}, MaxTasks: 3, MaxOps: 2, FaultPct: 35, FaultDen: 20, Kinds: []string{"err", "badconn", "errafter", "crash", "crashafter"}, Extra: 100},
	"C12": {Mix: map[string]int{"insert1": 6, "insert": 4, "upsert1": 4, "upsert": 3, "find": 1, "delpk": 1}, MaxTasks: 3, MaxOps: 5, FaultPct: 45, FaultDen: 10, Kinds: []string{"err", "err", "badconn", "errafter", "crash", "crashafter", "cancel", "cancelafter", "cancelok", "cancelok"}, CancelPct: 10},
	"C13": {Mix: map[string]int{"upsert1": 6, "upsert": 6, "insert1": 1, "find": 1, "delpk": 1}, MaxTasks: 3, MaxOps: 5, FaultPct: 20, FaultDen: 15, Kinds: append([]string{"cancelok"}, allKinds...)},
	"C14": {Mix: mix(writes, map[string]int{"upsert1": 3, "upsert": 3}), MaxTasks: 2, MaxOps: 4, FaultPct: 85, FaultDen: 7, Kinds: []string{"badconn", "badconn", "errafter", "crash", "crashafter", "cancelafter", "cancelok"}},
	"C22": {Mix: map[string]int{"stmt": 8, "query": 4, "query1": 2, "update": 2, "delete": 1, "page": 1, "insert": 1}, MaxTasks: 3, MaxOps: 5, FaultPct: 10, FaultDen: 20, Kinds: []string{"err", "badconn", "cancel"}, Diag: 50},
	"C21": {Mix: mix(writes, reads, map[string]int{"upsert1": 2, "upsert": 2, "lock": 1}), MaxTasks: 1, MaxOps: 6, Wide: true},
}

func init() {
	for id, p := range Profiles {
		p.Prop = id
	}
	Profiles["C11"].Scenario = lockScenario
	Profiles["C07"].Scenario = rawScenario
	for _, id := range []string{"C01", "C04", "C05", "C09"} {
		Profiles[id].Scenario, Profiles[id].Extra = rawScenario, 6
	}
}

func (w *World) pickKind() string {
	ks := []string{"insert1", "insert", "updpk", "delpk", "update", "delete", "upsert1", "upsert", "query", "query1", "find", "page", "lock", "stmt"}
	var ws []int
	var l []string
	for _, k := range ks {
		if n := w.P.Mix[k]; n > 0 {
			l = append(l, k)
			ws = append(ws, n)
		}
	}
	return l[w.D.W("kind", ws...)]
}

// mixed is the general workload: several callers, each with a list of calls
// fixed before the run starts.
func mixed(w *World) {
	ms := w.models()
	used := []*Model{ms[w.D.N(len(ms), "model")]}
	if w.D.N(3, "second") == 2 {
		used = append(used, ms[w.D.N(len(ms), "model")])
	}
	for i, m := range used {
		if i == 0 || m != used[0] {
			w.prefill(m, 9)
		}
	}
	w.ntasks = 1
	if w.P.MaxTasks > 1 && w.D.N(2, "concurrent") == 1 {
		w.ntasks = 2 + w.D.N(w.P.MaxTasks-1, "tasks")
	}
	plans := make([][]*Op, w.ntasks)
	for i := range plans {
		n := 1 + w.D.N(w.P.MaxOps, "ops")
		for j := 0; j < n; j++ {
			plans[i] = append(plans[i], w.genOp(w.pickKind(), used[w.D.N(len(used), "opmodel")]))
		}
	}
	w.setup = len(w.D.Trace)
	for i := range plans {
		plan := plans[i]
		w.Sim.Go(fmt.Sprintf("t%d", i), func(t *core.Task) {
			for _, o := range plan {
				if o.Kind == "lock" {
					w.lockOnce(t, o)
					continue
				}
				if o.CursorPick > 0 {
					rows := w.committed(o.M)
					if n := o.CursorPick - 1; n < len(rows) {
						o.Cursor = o.M.build(rows[n])
					}
				}
				w.exec(t, o)
			}
		})
	}
}

// lockOnce runs one lock call in its own transaction and proves afterwards
// that the transaction is still its owner's.
func (w *World) lockOnce(t *core.Task, o *Op) {
	var x *txn
	var c *Call
	epoch := 0
	res := w.inTx(t, func(tx *txn) error {
		x = tx
		tx.quiet = true
		epoch = w.E.Epoch
		c = w.lockIn(t, tx, o)
		if c.Err != nil && !errors.Is(c.Err, sql.ErrNoRows) {
			return c.Err
		}
		return nil
	})
	if res < 0 && len(c.Fails) == 0 && epoch == w.E.Epoch {
		w.viol("C05,C11", "lock/tx-unusable", "after %s its owner could not commit the transaction: %v", c, x.err)
	}
}

// build makes a record holding the given row.
func (m *Model) build(r []any) any {
	p := m.newPtr()
	for _, f := range m.Fields {
		m.setLogical(m.fv(p, f), f, r[f.n])
	}
	return p
}

// fitScenario values: stored values some Go field types cannot hold.
func badValues(f *Field, d eng.Dialect) []any {
	t := f.ft
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if f.json {
		return []any{"[[", `{"a":`, "nope"}
	}
	if f.rune || t.Kind() == reflect.Array {
		return nil
	}
	if t.PkgPath() != "" && t.Kind() == reflect.Struct {
		switch t.Name() {
		case "Point":
			return []any{"x:y", "12"}
		case "Lvl", "Addr":
			return []any{"?", "1.2.3"}
		case "NullInt32":
			return []any{int64(1) << 31, "x"}
		case "NullInt16":
			return []any{int64(1) << 15, "x"}
		case "NullByte":
			return []any{int64(256), int64(-1)}
		case "NullInt64":
			return []any{"not a number"}
		case "NullBool":
			return []any{"maybe"}
		}
		return nil
	}
	switch t.Kind() {
	case reflect.Int8:
		return []any{int64(300), int64(-129), "abc"}
	case reflect.Int16:
		return []any{int64(40000), int64(-32769), "1x"}
	case reflect.Int32:
		return []any{int64(1) << 31, int64(-1)<<31 - 1, "0.5"}
	case reflect.Int, reflect.Int64:
		return []any{"12a", "9223372036854775808"}
	case reflect.Uint8:
		return []any{int64(256), int64(-1), "abc"}
	case reflect.Uint16:
		return []any{int64(65536), int64(-1), "1x"}
	case reflect.Uint32:
		return []any{int64(1) << 32, int64(-1), "1.5"}
	case reflect.Uint, reflect.Uint64:
		return []any{int64(-1), "12a"}
	case reflect.Bool:
		// A non-zero number counts as true, as it does in MySQL and SQLite.
		return []any{"maybe", "2x"}
	case reflect.Float32, reflect.Float64:
		return []any{"1.2.3", "abc"}
	}
	return nil
}

// rawScenario stores a value the model cannot represent and reads it.
func rawScenario(w *World) {
	ms := w.models()
	m := ms[w.D.N(len(ms), "model")]
	w.ntasks = 1
	rec := m.genModel(w.D, true)
	row := m.row(rec)
	var fs []*Field
	for _, f := range m.Fields {
		if !f.Key && len(badValues(f, w.V.d)) > 0 {
			fs = append(fs, f)
		}
	}
	if len(fs) == 0 {
		mixed(w)
		return
	}
	f := fs[w.D.N(len(fs), "badfield")]
	l := badValues(f, w.V.d)
	bad := l[w.D.N(len(l), "bad")]
	for _, g := range m.Fields {
		if g.Auto {
			row[g.n] = int64(3)
		}
	}
	w.put(m, row, func(pos []any, perm []int) { pos[perm[f.n]] = bad })
	total := w.prefill(m, 3, row)
	n := 1 + w.D.N(3, "reads")
	var plan []*Op
	for i := 0; i < n; i++ {
		kind := []string{"find", "query", "query1", "page", "lock"}[w.D.N(5, "readkind")]
		o := &Op{Kind: kind, M: m, Bad: f}
		if kind == "find" || kind == "lock" {
			r := m.clone(rec)
			for _, g := range m.Fields {
				if g.Auto {
					m.setLogical(m.fv(r, g), g, int64(3))
				}
			}
			o.Recs = []any{r}
			o.Want = [][]any{m.row(m.clone(r))}
		}
		plan = append(plan, o)
	}
	w.setup = len(w.D.Trace)
	w.Sim.Go("t0", func(t *core.Task) {
		for _, o := range plan {
			w.Nontrivial = true
			if o.Kind == "lock" {
				w.lockOnce(t, o)
				continue
			}
			c := w.exec(t, o)
			if c.Err != nil || c.Panic != nil || o.Kind == "query1" && total > 1 {
				continue
			}
			var got any
			missing := ""
			switch o.Kind {
			case "find":
				got = o.Recs[0]
			case "query1":
				got = c.Out
			case "query":
				l := elems(c.Out)
				if len(l) < total {
					missing = fmt.Sprintf("%d of %d rows", len(l), total)
				}
				for _, e := range l {
					if m.sameKey(m.row(e), row) {
						got = e
					}
				}
			}
			s := "?"
			if got != nil {
				s = show(m.row(got)[f.n])
			}
			if o.Kind == "page" {
				seen := 0
				for _, p := range c.pages {
					for _, r := range p {
						seen++
						if m.sameKey(r, row) {
							s = show(r[f.n])
						}
					}
				}
				if seen < total {
					missing = fmt.Sprintf("%d of %d rows", seen, total)
				}
			}
			if missing != "" {
				w.viol("C01,C09", o.Kind+"/unrepresentable-dropped/"+f.ft.String(), "%s: column %s of one row holds %s, which does not fit %s; the call returned %s without an error", c, f.Col, show(bad), f.ft, missing)
				continue
			}
			w.viol("C07", o.Kind+"/unrepresentable/"+f.ft.String(), "%s: column %s holds %s, which does not fit %s, but it was read as %s without an error", c, f.Col, show(bad), f.ft, s)
		}
	})
}
