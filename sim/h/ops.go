package h

import (
	"context"
	"database/sql"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/si3nloong/sqlgen/sequel"
	"simws/core"
	"simws/eng"
)

// Mut is a change another client makes while the caller handles a page.
type Mut struct {
	Page int
	Kind string // del, upd, ins
	At   int    // 0 last row of the page, 1 the row after it, 2 first row of the page, 3 any
	Rec  any
	F    []*Field
}

// mutate applies a change of another client.
func (w *World) mutate(c *Call, mu Mut, page [][]any) {
	m := c.Op.M
	rec := m.row(mu.Rec)
	t := c.T
	t.Op = nil
	defer func() { t.Op = c }()
	var key []any
	rows := w.committed(m)
	switch {
	case mu.At == 0 && len(page) > 0:
		key = page[len(page)-1]
	case mu.At == 1 && len(page) > 0:
		// the next row in the requested order
		ord := append([]Ord(nil), c.Op.Ord...)
		for _, k := range m.keys {
			ord = append(ord, Ord{m.Fields[k], len(ord) == 0 || ord[len(ord)-1].Asc})
		}
		last := page[len(page)-1]
		for _, r := range rows {
			x := m.cmpRows(ord, r, last)
			if c.Op.Back {
				x = -x
			}
			if x <= 0 || c.Op.Pred.eval(m, r) != 1 {
				continue
			}
			if key != nil {
				y := m.cmpRows(ord, r, key)
				if c.Op.Back {
					y = -y
				}
				if y >= 0 {
					continue
				}
			}
			key = r
		}
	case mu.At == 2 && len(page) > 0:
		key = page[0]
	}
	if key == nil && len(rows) > 0 {
		key = rows[mu.At%len(rows)]
	}
	var q string
	var args []any
	ph := func(v any) string {
		args = append(args, v)
		if w.V.d == eng.Postgres {
			return fmt.Sprintf("$%d", len(args))
		}
		return "?"
	}
	where := func() string {
		var l []string
		for _, k := range m.keys {
			l = append(l, m.Fields[k].C.SQL+" = "+ph(w.encode(m.Fields[k], key[k])))
		}
		return strings.Join(l, " AND ")
	}
	tab := m.sqlTable()
	switch mu.Kind {
	case "del":
		if key == nil {
			return
		}
		q = "DELETE FROM " + tab + " WHERE " + where()
	case "upd":
		if key == nil {
			return
		}
		var l []string
		for i, f := range mu.F {
			if i > 0 && f == mu.F[0] {
				continue
			}
			l = append(l, f.C.SQL+" = "+ph(w.encode(f, rec[f.n])))
		}
		q = "UPDATE " + tab + " SET " + strings.Join(l, ", ") + " WHERE " + where()
	default:
		var cs, vs []string
		for _, f := range m.Fields {
			if f.RO || f.Auto {
				continue
			}
			cs = append(cs, f.C.SQL)
			vs = append(vs, ph(w.encode(f, rec[f.n])))
		}
		q = "INSERT INTO " + tab + " (" + strings.Join(cs, ", ") + ") VALUES (" + strings.Join(vs, ", ") + ")"
	}
	w.Sim.Logf("  another client: %s %s", q, showRow(args))
	if _, err := w.E.Exec(nil, q, args); err != nil {
		w.Sim.Logf("  another client failed: %v", err)
	}
}

type SetV struct {
	F  *Field
	V  any
	lv any
}

// Op is one helper call as the caller meant it.
type Op struct {
	Kind       string
	M          *Model
	Recs       []any   // *T
	Want       [][]any // logical content of Recs before the call
	Pred       *Pred
	Ord        []Ord
	Sets       []SetV
	Lim        uint16
	Off        uint64
	Up         UpsertArgs
	OmitF      []*Field
	KeyF       []*Field
	Mode       string
	Tx         *sql.Tx
	EngTx      int64
	Timeout    time.Duration
	PreCancel  bool
	Pieces     []piece
	CancelAt   int // cancel at the n-th yield in caller code
	PanicAt    int
	Cursor     any
	Back       bool
	MaxPages   int
	CursorPick int // 0 none, else the n-th row of the table when the call starts
	Muts       []Mut
	Bad        *Field // a stored value of this column does not fit the model
	yields     int
	seen       map[string]bool
}

func (o *Op) String() string {
	if o == nil {
		return "?"
	}
	s := o.Kind
	if o.M != nil {
		s += " " + o.M.Name
	}
	for i, w := range o.Want {
		if i > 3 {
			s += " ..."
			break
		}
		s += " " + showRow(w)
	}
	if o.Pred != nil {
		s += " where " + o.Pred.String()
	}
	for _, v := range o.Sets {
		s += " set " + v.F.Col + "=" + show(v.lv)
	}
	if len(o.Ord) > 0 {
		s += " order by" + showOrd(o.Ord)
	}
	if o.Lim > 0 || o.Off > 0 {
		s += fmt.Sprintf(" limit %d offset %d", o.Lim, o.Off)
	}
	if strings.HasPrefix(o.Kind, "upsert") {
		s += fmt.Sprintf(" override=%v omit=%v keys=%v", o.Up.Override, o.Up.Omit, o.Up.Keys)
	}
	if o.Mode != "" {
		s += " lock=" + o.Mode
	}
	if o.Cursor != nil {
		s += " cursor=" + showRow(o.M.row(o.Cursor))
	}
	if o.Back {
		s += " backwards"
	}
	if o.PreCancel {
		s += " [cancelled before]"
	}
	if o.Timeout > 0 {
		s += " [timeout " + o.Timeout.String() + "]"
	}
	return s
}

func (w *World) models() []*Model {
	var l []*Model
	for _, m := range w.V.Models {
		if w.P.Models == nil || w.P.Models(m) {
			l = append(l, m)
		}
	}
	return l
}

// setCols are the columns a set clause may assign.
func (m *Model) setCols() []*Field {
	var l []*Field
	for _, f := range m.Fields {
		uq := false
		for _, u := range m.uq {
			for _, k := range u {
				uq = uq || k == f.n
			}
		}
		if !uq && f.C != nil && !f.RO {
			l = append(l, f)
		}
	}
	return l
}

func (w *World) genOp(kind string, m *Model) *Op {
	d := w.D
	o := &Op{Kind: kind, M: m}
	switch kind {
	case "insert1", "updpk", "delpk", "find", "upsert1", "lock":
		o.Recs = []any{m.genModel(d, w.P.Wide)}
	case "stmt":
		o.Pieces = w.genStmt(d)
		return o
	case "insert", "upsert":
		n := d.W("batch", 5, 4, 3, 2, 1, 1)
		n = []int{1, 2, 3, 0, 5, 9}[n]
		for i := 0; i < n; i++ {
			o.Recs = append(o.Recs, m.genModel(d, w.P.Wide))
		}
	}
	if strings.HasPrefix(kind, "upsert") {
		o.Up.Override = d.N(3, "override") > 0
		var free []*Field
		for _, f := range m.Fields {
			if !f.Key && !f.RO {
				free = append(free, f)
			}
		}
		if w.V.d == eng.Postgres && len(m.uq) > 1 && (m.auto >= 0 || d.N(2, "dupkeys") == 1) {
			for _, k := range m.uq[1] {
				o.KeyF = append(o.KeyF, m.Fields[k])
				o.Up.Keys = append(o.Up.Keys, m.Fields[k].C.SQL)
			}
		}
		for _, f := range free {
			if d.P(1, 4, "omit") {
				o.OmitF = append(o.OmitF, f)
				o.Up.Omit = append(o.Up.Omit, f.C.SQL)
			}
		}
	}
	switch kind {
	case "query", "query1", "update", "delete", "page":
		if d.N(6, "where") > 0 {
			o.Pred = m.genPred(d, 2)
		}
	}
	switch kind {
	case "query", "query1":
		o.Ord = m.genOrder(d, 3, true)
		if kind == "query" {
			if d.N(2, "limit") == 1 {
				o.Lim = uint16(1 + d.N(5, "lim"))
			}
			if d.N(3, "offset") == 2 {
				o.Off = uint64(1 + d.N(4, "off"))
			}
		}
	case "update":
		fs := m.setCols()
		n := 1 + d.N(3, "nset")
		for i := 0; i < n && i < len(fs); i++ {
			f := fs[d.N(len(fs), "setcol")]
			dup := false
			for _, s := range o.Sets {
				dup = dup || s.F == f
			}
			if dup {
				continue
			}
			v := f.gen(d, w.P.Wide)
			o.Sets = append(o.Sets, SetV{f, v.Interface(), f.logical(v)})
		}
		fallthrough
	case "delete":
		if w.V.d == eng.MySQL && d.N(3, "lim") == 2 {
			o.Ord = m.genOrder(d, 2, true)
			o.Lim = uint16(1 + d.N(3, "lim"))
		}
	case "page":
		o.Ord = m.genOrder(d, 2, false)
		o.Lim = uint16([]int{1, 2, 3, 7, 0, 65535}[d.W("limit", 5, 5, 4, 2, 1, 1)])
		o.Back = d.N(3, "back") == 2
		if d.N(3, "cursor") == 2 {
			o.CursorPick = 1 + d.N(8, "pick")
		}
		if d.N(5, "break") == 4 {
			o.MaxPages = 1 + d.N(3, "maxpages")
		}
		for i, n := 0, d.N(4, "muts"); i < n; i++ {
			mu := Mut{Page: 1 + d.N(3, "page"), Kind: []string{"del", "upd", "ins"}[d.N(3, "mut")], At: d.N(4, "at")}
			mu.Rec = m.genModel(d, false)
			fs := m.setCols()
			for j := 0; j < 2; j++ {
				mu.F = append(mu.F, fs[d.N(len(fs), "mutcol")])
			}
			if len(o.Ord) > 0 && d.N(2, "mutord") == 1 { // move it in the order
				for _, f := range fs {
					if f == o.Ord[0].F {
						mu.F[0] = f
					}
				}
			}
			o.Muts = append(o.Muts, mu)
		}
	}
	if w.P.PanicPct > 0 && d.P(w.P.PanicPct, 100, "panic") {
		o.PanicAt = 1 + d.N(4, "panicat")
	}
	if kind == "lock" {
		o.Mode = "update"
		if d.N(2, "mode") == 1 {
			o.Mode = "share"
		}
		if w.V.d == eng.Postgres {
			o.Mode = []string{"update", "share", "nokeyupdate", "keyshare"}[d.N(4, "mode")]
		}
	}
	for _, r := range o.Recs {
		o.Want = append(o.Want, m.row(m.clone(r)))
	}
	if w.P.CancelPct > 0 {
		switch d.W("cancel", 100-w.P.CancelPct, w.P.CancelPct/3+1, w.P.CancelPct/3+1, w.P.CancelPct/3+1) {
		case 1:
			o.PreCancel = true
		case 2:
			o.CancelAt = 1 + d.N(3, "cancelat")
		case 3:
			o.Timeout = time.Duration(1+d.N(20, "timeout")) * 100 * time.Millisecond
		}
	}
	return o
}

// inCaller runs at every point where the helper runs caller code.
func (w *World) inCaller(c *Call) func() {
	return func() {
		w.Sim.Yield("caller")
		c.Op.yields++
		if c.Op.CancelAt > 0 && c.Op.yields == c.Op.CancelAt {
			w.Sim.Logf("  caller cancels")
			c.cancelled = true
			c.cancel()
		}
		if c.Op.PanicAt > 0 && c.Op.yields == c.Op.PanicAt {
			w.Sim.Logf("  caller panics")
			panic(errBody)
		}
	}
}

func (m *Model) slice(recs []any) any {
	s := reflect.MakeSlice(reflect.SliceOf(m.rt), 0, len(recs))
	for _, r := range recs {
		s = reflect.Append(s, reflect.ValueOf(r).Elem())
	}
	return s.Interface()
}

func elems(s any) []any {
	v := reflect.ValueOf(s)
	if !v.IsValid() || v.Kind() != reflect.Slice {
		return nil
	}
	var l []any
	for i := 0; i < v.Len(); i++ {
		l = append(l, v.Index(i).Addr().Interface())
	}
	return l
}

func val(p any) any { return reflect.ValueOf(p).Elem().Interface() }

// exec performs an operation through the generated package.
func (w *World) exec(t *core.Task, o *Op) *Call {
	return w.call(t, o, func(c *Call) { w.perform(c, o, c.ctx) })
}

func (w *World) perform(c *Call, o *Op, ctx context.Context) {
	m, ops := o.M, o.M.Ops
	y := w.inCaller(c)
	where := func() sequel.WhereClause {
		return o.Pred.clause(m, y, func(s sequel.StmtWriter) { w.diag(c, s, false) })
	}
	switch o.Kind {
	case "insert1":
		c.Res, c.Err = ops.InsertOne(ctx, w.DB, o.Recs[0])
	case "insert":
		s := m.slice(o.Recs)
		c.Out = s
		c.Res, c.Err = ops.Insert(ctx, w.DB, s)
	case "upsert1":
		c.Res, c.Err = ops.UpsertOne(ctx, w.DB, o.Recs[0], o.Up)
	case "upsert":
		s := m.slice(o.Recs)
		c.Out = s
		c.Res, c.Err = ops.Upsert(ctx, w.DB, s, o.Up)
	case "stmt":
		w.stmtOp(c, o, y)
	case "find":
		c.old(o.Recs[0])
		c.Err = ops.FindByPK(ctx, w.DB, o.Recs[0])
	case "updpk":
		c.Res, c.Err = ops.UpdateByPK(ctx, w.DB, val(o.Recs[0]))
	case "delpk":
		c.Res, c.Err = ops.DeleteByPK(ctx, w.DB, val(o.Recs[0]))
	case "lock":
		c.old(o.Recs[0])
		c.Err = ops.LockByPK(ctx, o.Tx, o.Recs[0], o.Mode)
	case "query":
		c.Out, c.Err = ops.Query(ctx, w.DB, func() QueryArgs {
			y()
			return QueryArgs{Where: where(), OrderBy: clauses(o.Ord), Offset: o.Off, Limit: o.Lim}
		})
	case "query1":
		c.Out, c.Err = ops.QueryOne(ctx, w.DB, func() QueryArgs {
			y()
			return QueryArgs{Where: where(), OrderBy: clauses(o.Ord)}
		})
	case "update":
		c.Res, c.Err = ops.Update(ctx, w.DB, func() ExecArgs {
			y()
			var sets []sequel.SetClause
			for _, s := range o.Sets {
				inner := s.F.C.Set(s.V)
				sets = append(sets, func(s sequel.StmtWriter) {
					y()
					inner(s)
					w.diag(c, s, false)
				})
			}
			return ExecArgs{Table: m.Table, Set: sets, Where: where(), OrderBy: clauses(o.Ord), Limit: o.Lim}
		})
	case "delete":
		c.Res, c.Err = ops.Delete(ctx, w.DB, func() ExecArgs {
			y()
			return ExecArgs{Table: m.Table, Where: where(), OrderBy: clauses(o.Ord), Limit: o.Lim}
		})
	case "page":
		ops.Page(ctx, w.DB, PageArgs{Where: where(), OrderBy: clauses(o.Ord), Limit: o.Lim, Cursor: o.cursorVal(), Back: o.Back}, func(page any, err error) bool {
			if err != nil {
				if c.Err == nil {
					c.Err = err
				} else {
					c.Err = fmt.Errorf("second error after %w: %v", c.Err, err)
				}
				return true
			}
			if c.Err != nil {
				c.Err = fmt.Errorf("%w; and another page followed the error", c.Err)
			}
			var rows [][]any
			for _, p := range elems(page) {
				rows = append(rows, m.row(p))
				w.keep(m, p, c)
			}
			c.pages = append(c.pages, rows)
			w.Sim.Logf("  page %d: %d rows", len(c.pages), len(rows))
			for _, mu := range o.Muts {
				if mu.Page == len(c.pages) {
					w.mutate(c, mu, rows)
				}
			}
			y()
			if o.MaxPages > 0 && len(c.pages) >= o.MaxPages {
				c.stopped = true
				return false
			}
			return true
		})
	default:
		panic("unknown op " + o.Kind)
	}
}

func (o *Op) cursorVal() any {
	if o.Cursor == nil {
		return nil
	}
	return val(o.Cursor)
}
