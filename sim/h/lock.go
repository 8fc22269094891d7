package h

import (
	"context"
	"database/sql"
	"fmt"
	"strings"

	"simws/core"
	"simws/eng"
)

type txn struct {
	tx  *sql.Tx
	eid int64
	// quiet: no faults at commit
	quiet bool
	err   error
}

// inTx opens a transaction, runs fn and commits, or rolls back when fn failed.
// It reports whether the commit was acknowledged (1), failed before (0) or is
// unknown (-1).
func (w *World) inTx(t *core.Task, fn func(tx *txn) error) int {
	ctx, cancel := context.WithCancel(w.root)
	defer cancel()
	c := &Call{Op: &Op{Kind: "tx"}, T: t, ctx: context.WithValue(ctx, tokKey{}, 0), cancel: cancel, noFault: false}
	old := t.Op
	t.Op = c
	tx, err := w.DB.BeginTx(c.ctx, nil)
	t.Op = old
	if err != nil {
		return 0
	}
	w.openTx++
	defer func() { w.openTx-- }()
	x := &txn{tx: tx}
	x.eid = c.eid
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.Op = old
				if !w.Sim.Aborting() {
					tx.Rollback()
				}
				panic(r)
			}
		}()
		err = fn(x)
	}()
	t.Op = c
	defer func() { t.Op = old }()
	if err != nil {
		tx.Rollback()
		return 0
	}
	c.noFault = c.noFault || x.quiet
	if err := tx.Commit(); err != nil {
		x.err = err
		return -1
	}
	return 1
}

// lockIn performs one lock call inside tx.
func (w *World) lockIn(t *core.Task, tx *txn, o *Op) *Call {
	o.Tx, o.EngTx = tx.tx, tx.eid
	return w.exec(t, o)
}

// lockScenario: several transactions lock, change and write back rows.
func lockScenario(w *World) {
	var ms []*Model
	for _, m := range w.models() {
		if w.counterCol(m) != nil {
			ms = append(ms, m)
		}
	}
	m := ms[w.D.N(len(ms), "model")]
	f := w.counterCol(m)
	// one to three rows
	n := 1 + w.D.N(2, "rows")
	var rows [][]any
	for i := 0; i < n; i++ {
		r := m.row(m.genModel(w.D, false))
		for _, g := range m.Fields {
			if g.Auto {
				r[g.n] = int64(i + 1)
			}
			if g == f {
				r[g.n] = toKind(f, 0)
			}
		}
		if m.conflictOf(rows, r, m.uq, -1) >= 0 {
			continue
		}
		rows = append(rows, r)
		w.put(m, r)
	}
	w.ntasks = 2 + w.D.N(max(w.P.MaxTasks-1, 1), "tasks")
	share := w.V.d != eng.SQLite && w.D.N(4, "shared") == 3
	if share {
		w.sharedScenario(m, rows[0])
		return
	}
	type step struct {
		row int
		op  *Op
	}
	plans := make([][]step, w.ntasks)
	for i := range plans {
		for j, k := 0, 1+w.D.N(w.P.MaxOps, "ops"); j < k; j++ {
			ri := w.D.N(len(rows), "row")
			o := &Op{Kind: "lock", M: m, Mode: "update"}
			if w.V.d == eng.Postgres && w.D.N(3, "nku") == 2 {
				o.Mode = "nokeyupdate"
			}
			rec := m.genModel(w.D, true) // stale content that must be replaced
			for _, k := range m.keys {
				m.setLogical(m.fv(rec, m.Fields[k]), m.Fields[k], rows[ri][k])
			}
			o.Recs = []any{rec}
			o.Want = [][]any{m.row(m.clone(rec))}
			plans[i] = append(plans[i], step{ri, o})
		}
	}
	w.setup = len(w.D.Trace)
	acked := make([]int64, len(rows))
	unknown := make([]int64, len(rows))
	left := w.ntasks
	for i := range plans {
		plan := plans[i]
		w.Sim.Go(fmt.Sprintf("t%d", i), func(t *core.Task) {
			defer func() { left-- }()
			for _, s := range plan {
				s := s
				res := w.inTx(t, func(tx *txn) error {
					c := w.lockIn(t, tx, s.op)
					if c.Err != nil {
						return c.Err
					}
					w.Sim.Yield("think")
					v := m.row(s.op.Recs[0])[f.n]
					w.locksRan++
					nv := toKind(f, toInt(v)+1)
					return w.rawUpdate(t, tx, m, f, nv, rows[s.row])
				})
				w.Sim.Logf("  %s committed: %d", t.Name, res)
				switch res {
				case 1:
					acked[s.row]++
				case -1:
					unknown[s.row]++
				}
			}
			if left == 1 { // the last one out counts
				w.Sim.Yield("count")
				for i, r := range rows {
					for _, cr := range w.committed(m) {
						if !m.sameKey(cr, r) {
							continue
						}
						got := toInt(cr[f.n])
						w.Nontrivial = w.Nontrivial || got > 1
						if got < acked[i] || got > acked[i]+unknown[i] {
							w.viol("C11", "lock/lost-update/"+modelClass(m), "%d increments of %s under the row lock were committed (%d more uncertain) but the row holds %d", acked[i], m.Name, unknown[i], got)
						}
					}
				}
			}
		})
	}
}

// sharedScenario: every transaction keeps its shared lock until all have one.
func (w *World) sharedScenario(m *Model, row []any) {
	modes := []string{"share"}
	if w.V.d == eng.Postgres {
		modes = []string{"share", "keyshare"}
	}
	w.faulty = false
	var ops []*Op
	for i := 0; i < w.ntasks; i++ {
		o := &Op{Kind: "lock", M: m, Mode: modes[w.D.N(len(modes), "mode")]}
		rec := m.genModel(w.D, true)
		for _, k := range m.keys {
			m.setLogical(m.fv(rec, m.Fields[k]), m.Fields[k], row[k])
		}
		o.Recs = []any{rec}
		o.Want = [][]any{m.row(m.clone(rec))}
		ops = append(ops, o)
	}
	w.setup = len(w.D.Trace)
	have, need := 0, w.ntasks
	for i := range ops {
		o := ops[i]
		w.Sim.Go(fmt.Sprintf("t%d", i), func(t *core.Task) {
			w.inTx(t, func(tx *txn) error {
				c := w.lockIn(t, tx, o)
				if c.Err != nil {
					need = 0
					return c.Err
				}
				have++
				w.Nontrivial = true
				w.Sim.Block("all share", func() bool { return have >= need })
				return nil
			})
		})
	}
}

// rawUpdate writes one column back inside tx with the harness's own SQL.
func (w *World) rawUpdate(t *core.Task, tx *txn, m *Model, f *Field, v any, key []any) error {
	c := &Call{Op: &Op{Kind: "writeback"}, T: t, ctx: context.WithValue(w.root, tokKey{}, 0), noFault: true}
	old := t.Op
	t.Op = c
	defer func() { t.Op = old }()
	var args []any
	ph := func(v any) string {
		args = append(args, v)
		if w.V.d == eng.Postgres {
			return fmt.Sprintf("$%d", len(args))
		}
		return "?"
	}
	q := "UPDATE " + m.sqlTable() + " SET " + f.C.SQL + " = " + ph(v)
	var l []string
	for _, k := range m.keys {
		l = append(l, m.Fields[k].C.SQL+" = "+ph(w.encode(m.Fields[k], key[k])))
	}
	_, err := tx.tx.ExecContext(c.ctx, q+" WHERE "+strings.Join(l, " AND "), args...)
	return err
}

// counterCol is a plain wide integer column to count in.
func (w *World) counterCol(m *Model) *Field {
	for _, f := range m.Fields {
		if f.Key || f.RO || f.C == nil || f.rune {
			continue
		}
		switch f.ft.Kind().String() {
		case "int64", "uint64", "uint32", "int32":
			if f.ft.Name() == f.ft.Kind().String() {
				return f
			}
		}
	}
	return nil
}

func toInt(v any) int64 {
	switch n := v.(type) {
	case int64:
		return n
	case uint64:
		return int64(n)
	}
	return -1
}

func toKind(f *Field, n int64) any {
	if f.k == eng.KUint {
		return uint64(n)
	}
	return n
}
