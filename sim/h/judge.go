package h

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"sort"
	"strings"

	"simws/eng"
)

var isWrite = map[string]bool{"insert1": true, "insert": true, "upsert1": true, "upsert": true, "updpk": true, "delpk": true, "update": true, "delete": true}

// props that a wrong result of an operation breaks.
func propsOf(kind string) string {
	switch kind {
	case "insert1", "insert", "updpk", "delpk", "update", "delete":
		return "C02"
	case "upsert1", "upsert":
		return "C13"
	case "query", "query1":
		return "C03"
	case "find":
		return "C07"
	case "lock":
		return "C11"
	case "page":
		return "C06"
	}
	return "C09"
}

func dbErr(err error) bool {
	var a *eng.DBError
	var b *eng.SyntaxError
	return errors.As(err, &a) || errors.As(err, &b)
}

// judge compares one finished call with what the reference says.
func (w *World) judge(c *Call) {
	o := c.Op
	kind := o.Kind
	sig := func(s string) string { return kind + "/" + modelClass(o.M) + "/" + s }
	w.judgeShown(c)
	if c.ctxBad != "" {
		w.viol("C10", sig("ctx"), "%s: %s", c, c.ctxBad)
	}
	if c.late > 0 {
		w.viol("C10", sig("late"), "%s issued %d statements after its context was cancelled", c, c.late)
	}
	if c.Panic != nil {
		w.viol(propsOf(kind)+",C09", sig("panic"), "%s panicked: %v\n%s", c, c.Panic, trimStack(c.Stack))
		return
	}
	ok := c.Err == nil
	if o.Bad != nil {
		return // the scenario judges it
	}

	// C09: nothing the driver reported may vanish
	var must []Failure
	for _, f := range c.Fails {
		if errors.Is(f.Err, driver.ErrBadConn) {
			continue
		}
		if f.Op == "affected" {
			continue
		}
		if f.Op == "rowsclose" {
			// database/sql reports it only for single-row reads that scanned.
			switch kind {
			case "find", "query1", "lock":
				if len(c.Fails) == 1 {
					must = append(must, f)
				}
			}
			continue
		}
		must = append(must, f)
	}
	if len(must) > 0 && ok {
		props := "C09"
		for _, f := range must {
			if f.Op == "next" {
				props = "C09,C01"
			}
			if errors.Is(f.Err, context.Canceled) || errors.Is(f.Err, context.DeadlineExceeded) {
				props = "C09,C10"
				if f.Op == "next" {
					props = "C09,C10,C01"
				}
			}
			if o.Kind == "page" {
				props += ",C06"
			}
		}
		w.viol(props, sig("swallowed"), "%s: the driver reported %q at %s but the call returned success", c, must[0].Err, must[0].Op)
		return
	}
	if c.cancelled && ok && w.mustFailCancelled(c) {
		w.viol("C10", sig("ignored-cancel"), "%s returned success although its context was cancelled before its statement was issued", c)
	}
	if !ok && !c.cancelled && c.Err != errBody {
		known := false
		for _, f := range c.Fails {
			if errors.Is(c.Err, f.Err) || errors.Is(f.Err, driver.ErrBadConn) && errors.Is(c.Err, driver.ErrBadConn) || errors.Is(f.Err, driver.ErrBadConn) && errors.Is(c.Err, sql.ErrConnDone) {
				known = true
			}
		}
		if o.Tx != nil && (errors.Is(c.Err, sql.ErrTxDone) || errors.Is(c.Err, driver.ErrBadConn)) {
			known = true
		}
		if len(must) > 0 && !known {
			// database/sql keeps the first of several failures
			w.viol("C09", sig("unrelated"), "%s: the driver reported %q but the call returned the unrelated error %q", c, must[0].Err, c.Err)
			return
		}
		if !known && !(errors.Is(c.Err, sql.ErrNoRows) && w.noRowOK(c)) {
			w.viol(propsOf(kind)+",C09", sig("spurious-error"), "%s failed with %q although nothing failed", c, c.Err)
			return
		}
	}
	if isWrite[kind] {
		w.judgeWrite(c, sig)
		return
	}
	switch kind {
	case "find", "lock":
		w.judgeFind(c, sig)
	case "query", "query1":
		w.judgeQuery(c, sig)
	case "page":
		w.judgePage(c, sig)
	}
}

// noRowOK: the call may report that there is no row.
func (w *World) noRowOK(c *Call) bool {
	switch c.Op.Kind {
	case "find", "lock", "query1":
		return true
	case "page":
		return c.Op.Cursor != nil
	case "upsert1":
		// nothing was written, so nothing came back
		done, _ := c.applied()
		return w.V.d == eng.Postgres && len(done) == 1 && done[0].Res != nil && len(done[0].Res.Rows) == 0
	}
	return false
}

// mustFailCancelled: cancelled before the database saw anything.
func (w *World) mustFailCancelled(c *Call) bool {
	if c.Op.PreCancel {
		return !(len(c.Op.Recs) == 0 && (c.Op.Kind == "insert" || c.Op.Kind == "upsert"))
	}
	if c.Op.CancelAt > 0 && c.Op.yields >= c.Op.CancelAt {
		return c.Op.Kind != "page" // judged there
	}
	return false
}

func modelClass(m *Model) string {
	if m == nil {
		return "-"
	}
	if strings.HasPrefix(m.Name, "Rand") {
		k := "pk"
		if m.auto >= 0 {
			k = "auto"
		} else if len(m.keys) > 1 {
			k = "composite"
		}
		return "Rand-" + k
	}
	return m.Name
}

func trimStack(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if strings.Contains(x, "simws/db/") || strings.Contains(x, "/sequel") || strings.Contains(x, "generated.go") {
			x = strings.TrimSpace(x)
			if i := strings.LastIndex(x, "("); i > 0 && !strings.Contains(x, ".go:") {
				x = x[:i]
			}
			if i := strings.Index(x, " +0x"); i > 0 {
				x = x[:i]
			}
			l = append(l, x)
		}
		if len(l) > 6 {
			break
		}
	}
	return strings.Join(l, "\n")
}

// applied lists the events of the call that took effect.
func (c *Call) applied() (ok []*eng.Event, rejected []*eng.Event) {
	for _, e := range c.Events {
		if e.Err == nil {
			ok = append(ok, e)
		} else {
			rejected = append(rejected, e)
		}
	}
	return
}

// conflictOf finds a row of rows that shares unique key u with r.
func (m *Model) conflictOf(rows [][]any, r []any, us [][]int, skip int) int {
	for i, o := range rows {
		if i == skip {
			continue
		}
		for _, u := range us {
			eq := true
			for _, k := range u {
				if k == m.auto && r[k] == nil || r[k] == nil || o[k] == nil || !m.Fields[k].same(o[k], r[k]) {
					eq = false
					break
				}
			}
			if eq {
				return i
			}
		}
	}
	return -1
}

type refResult struct {
	post    [][]any
	fail    bool  // the database must reject it
	mayFail bool  // the database may reject it
	hit     []int // per record: row index in post it wrote, -1 none
	existed []bool
}

// refInsert is the reference for inserts and upserts.
func (w *World) refInsert(o *Op, pre [][]any) refResult {
	m := o.M
	res := refResult{post: clone2(pre)}
	upsert := strings.HasPrefix(o.Kind, "upsert")
	touched := map[int]bool{}
	for _, want := range o.Want {
		r := append([]any(nil), want...)
		for _, f := range m.Fields {
			if f.RO {
				r[f.n] = f.Default
			}
			if f.Auto {
				r[f.n] = nil // wildcard
			}
		}
		target := m.uq
		if upsert && w.V.d == eng.Postgres {
			target = [][]int{m.keys}
			if len(o.KeyF) > 0 {
				target = [][]int{nil}
				for _, f := range o.KeyF {
					target[0] = append(target[0], f.n)
				}
			}
		}
		ci := m.conflictOf(res.post, r, target, -1)
		if !upsert {
			if m.conflictOf(res.post, r, m.uq, -1) >= 0 {
				res.fail = true
				return res
			}
		} else if ci < 0 && m.conflictOf(res.post, r, m.uq, -1) >= 0 {
			res.fail = true
			return res
		}
		if ci < 0 {
			res.post = append(res.post, r)
			touched[len(res.post)-1] = true
			res.hit = append(res.hit, len(res.post)-1)
			res.existed = append(res.existed, false)
			continue
		}
		res.existed = append(res.existed, true)
		if !o.Up.Override {
			res.hit = append(res.hit, -1)
			continue
		}
		if touched[ci] && w.V.d == eng.Postgres {
			res.fail = true // ON CONFLICT DO UPDATE cannot touch a row twice
			return res
		}
		touched[ci] = true
		row := append([]any(nil), res.post[ci]...)
		any := false
		for _, f := range m.Fields {
			if f.Key || f.RO {
				continue
			}
			om := false
			for _, x := range o.OmitF {
				om = om || x == f
			}
			if om {
				continue
			}
			any = true
			row[f.n] = r[f.n]
		}
		res.post[ci] = row
		if m.conflictOf(res.post, row, m.uq, ci) >= 0 {
			res.fail = true
			return res
		}
		if any {
			res.hit = append(res.hit, ci)
		} else {
			res.hit = append(res.hit, -2) // nothing to change; a row may or may not come back
		}
	}
	return res
}

func clone2(in [][]any) [][]any {
	out := make([][]any, len(in))
	for i := range in {
		out[i] = append([]any(nil), in[i]...)
	}
	return out
}

// matchTables compares tables; rows keep their place, generated keys (nil in
// want) match any fresh value. It returns a description of the difference.
func (m *Model) matchTables(want, got [][]any) string {
	if len(want) != len(got) {
		return fmt.Sprintf("the table has %d rows instead of %d", len(got), len(want))
	}
	used := make([]bool, len(got))
	seen := map[string]bool{}
	for i, wr := range want {
		found := -1
		why := ""
		for j, gr := range got {
			if used[j] {
				continue
			}
			bad := ""
			for _, f := range m.Fields {
				if f.Auto && wr[f.n] == nil {
					if gr[f.n] == nil {
						bad = "generated key is NULL"
					}
					continue
				}
				if !f.same(wr[f.n], gr[f.n]) {
					bad = fmt.Sprintf("column %s is %s instead of %s", f.Col, show(gr[f.n]), show(wr[f.n]))
					break
				}
			}
			if bad == "" {
				found = j
				break
			}
			if i == j {
				why = bad
			}
		}
		if found < 0 {
			return fmt.Sprintf("expected row %s is missing (%s)", showRow(wr), why)
		}
		used[found] = true
		k := m.key(got[found])
		if seen[k] {
			return "two rows share the key " + k
		}
		seen[k] = true
	}
	return ""
}

// refTop picks the first limit rows in order; ambiguous says ties make the
// choice free.
func (m *Model) refTop(rows [][]any, idx []int, ord []Ord, limit int) (pick []int, ambiguous bool) {
	sort.SliceStable(idx, func(a, b int) bool { return m.cmpRows(ord, rows[idx[a]], rows[idx[b]]) < 0 })
	if limit == 0 || limit >= len(idx) {
		return idx, false
	}
	return idx[:limit], len(ord) == 0 || m.cmpRows(ord, rows[idx[limit-1]], rows[idx[limit]]) == 0
}

func (w *World) judgeWrite(c *Call, sig func(string) string) {
	o, m := c.Op, c.Op.M
	props := propsOf(o.Kind)
	done, rejected := c.applied()
	ok := c.Err == nil
	empty := (o.Kind == "insert" || o.Kind == "upsert") && len(o.Recs) == 0
	if empty {
		if c.nops > 0 || len(c.Events) > 0 {
			w.viol("C14,C02", sig("empty"), "%s: an empty batch reached the database", c)
		}
		if !ok && !c.cancelled {
			w.viol("C14,C02", sig("empty-err"), "%s: an empty batch failed with %v", c, c.Err)
		}
		return
	}
	if len(done) > 1 {
		w.viol("C14", sig("twice"), "%s: the database executed %d statements for it, the last %q", c, len(done), done[len(done)-1].Query)
		return
	}
	if ok && len(done) == 0 {
		w.viol("C14,C09,"+props, sig("no-effect"), "%s returned success but the database executed nothing for it", c)
		return
	}
	for _, e := range rejected {
		if lock(e.Err) {
			continue
		}
		pre := e.Pre
		if pre == nil {
			pre = w.Tab[m].t.Committed()
		}
		if w.ntasks == 1 || e.Pre != nil {
			if !w.mayReject(o, w.mrows(m, pre)) {
				w.viol(props+",C09", sig("rejected"), "%s: the database rejected the statement: %v\n  %s\n  args %v", c, e.Err, e.Query, e.Args)
				return
			}
		} else if !constraint(e.Err) {
			w.viol(props+",C09", sig("rejected"), "%s: the database rejected the statement: %v\n  %s\n  args %v", c, e.Err, e.Query, e.Args)
			return
		}
	}
	if len(done) == 0 {
		w.unchanged(c, sig)
		return
	}
	e := done[0]
	pre, post := w.mrows(m, e.Pre), w.mrows(m, e.Post)
	if e.Table != m.Table {
		w.viol(props, sig("table"), "%s: the statement went to table %s\n  %s", c, e.Table, e.Query)
		return
	}
	bad := func(what string) {
		w.viol(props+",C21", sig("effect"), "%s: %s\n  %s\n  args %v", c, what, e.Query, showRow(e.Args))
	}
	switch o.Kind {
	case "insert1", "insert", "upsert1", "upsert":
		ref := w.refInsert(o, pre)
		if ref.fail {
			bad("the database accepted a statement that must have violated a unique key")
			return
		}
		if d := m.matchTables(ref.post, post); d != "" {
			if o.Kind[0] == 'i' {
				w.viol(props+",C07,C14,C21", sig("effect"), "%s: %s\n  %s\n  args %v", c, d, e.Query, showRow(e.Args))
			} else {
				w.viol(props+",C14,C21", sig("effect"), "%s: %s\n  %s\n  args %v", c, d, e.Query, showRow(e.Args))
			}
			return
		}
		if ok {
			w.judgeKeys(c, sig, ref, pre, post, e)
		} else {
			w.unchanged(c, sig)
		}
	case "updpk":
		want := clone2(pre)
		for i, r := range want {
			if m.sameKey(r, o.Want[0]) {
				for _, f := range m.Fields {
					if !f.Key && !f.RO {
						want[i][f.n] = o.Want[0][f.n]
					}
				}
			}
		}
		if d := m.matchTables(want, post); d != "" {
			bad(d)
			return
		}
	case "delpk":
		var want [][]any
		for _, r := range pre {
			if !m.sameKey(r, o.Want[0]) {
				want = append(want, r)
			}
		}
		if d := m.matchTables(want, post); d != "" {
			bad(d)
			return
		}
	case "update", "delete":
		var idx []int
		for i, r := range pre {
			if o.Pred.eval(m, r) == 1 {
				idx = append(idx, i)
			}
		}
		pick, amb := m.refTop(pre, idx, o.Ord, int(o.Lim))
		if amb {
			// any choice among the tied rows: check the count and that only
			// matching rows changed
			if o.Kind == "delete" && len(pre)-len(post) != len(pick) {
				bad(fmt.Sprintf("%d rows disappeared instead of %d", len(pre)-len(post), len(pick)))
			}
			break
		}
		sel := map[int]bool{}
		for _, i := range pick {
			sel[i] = true
		}
		var want [][]any
		for i, r := range pre {
			if !sel[i] {
				want = append(want, r)
				continue
			}
			if o.Kind == "update" {
				r = append([]any(nil), r...)
				for _, s := range o.Sets {
					r[s.F.n] = s.lv
				}
				want = append(want, r)
			}
		}
		if d := m.matchTables(want, post); d != "" {
			w.viol(props+",C03,C21", sig("effect"), "%s: %s\n  %s\n  args %v", c, d, e.Query, showRow(e.Args))
			return
		}
	}
	if ok && c.Res != nil {
		w.Sim.Logf("  check affected")
		c.noFault = true
		n, err := c.Res.RowsAffected()
		if err != nil || n != e.Res.Affected {
			w.viol(props, sig("affected"), "%s reports %d affected rows (%v) but the database reported %d", c, n, err, e.Res.Affected)
		}
	} else if ok && w.V.d != eng.Postgres {
		w.viol(props, sig("nil-result"), "%s returned a nil result with a nil error", c)
	}
	if len(e.Pre) != len(e.Post) || w.changed(pre, post) {
		w.Nontrivial = true
	}
	if ok && o.Tx == nil && !e.Committed {
		w.viol("C14", sig("uncommitted"), "%s reported success but its statement is not committed", c)
	}
}

func (w *World) changed(a, b [][]any) bool {
	for i := range a {
		if i < len(b) && showRow(a[i]) != showRow(b[i]) {
			return true
		}
	}
	return false
}

func lock(err error) bool {
	var d *eng.DBError
	return errors.As(err, &d) && (d.Code == "40P01" || d.Code == "25000" || d.Code == "25P02" || d.Code == "55P03")
}

func constraint(err error) bool {
	var d *eng.DBError
	return errors.As(err, &d) && (d.Code == "23505" || d.Code == "21000")
}

// mayReject: the request itself violates a constraint.
func (w *World) mayReject(o *Op, pre [][]any) bool {
	switch o.Kind {
	case "insert1", "insert", "upsert1", "upsert":
		return w.refInsert(o, pre).fail
	case "updpk":
		m := o.M
		for i, r := range pre {
			if m.sameKey(r, o.Want[0]) {
				n := append([]any(nil), o.Want[0]...)
				return m.conflictOf(pre, n, m.uq, i) >= 0
			}
		}
	}
	return false
}

// unchanged: a failed write leaves the caller's records alone.
func (w *World) unchanged(c *Call, sig func(string) string) {
	o, m := c.Op, c.Op.M
	if c.Err == nil || m.auto < 0 {
		return
	}
	if o.Kind == "insert1" || o.Kind == "upsert1" {
		got := m.row(o.Recs[0])
		if !m.Fields[m.auto].same(got[m.auto], o.Want[0][m.auto]) {
			done, _ := c.applied()
			if len(done) == 0 {
				w.viol("C12", sig("key-on-failure"), "%s failed (%v) but changed the record's key to %s", c, c.Err, show(got[m.auto]))
			}
		}
	}
}

// judgeKeys checks what a successful insert or upsert left on the records.
func (w *World) judgeKeys(c *Call, sig func(string) string, ref refResult, pre, post [][]any, e *eng.Event) {
	o, m := c.Op, c.Op.M
	recs := o.Recs
	if c.Out != nil {
		recs = elems(c.Out)
	}
	// the table row each record ended in
	used := map[int]bool{}
	find := func(want []any) int {
		for i, r := range post {
			if used[i] {
				continue
			}
			eq := true
			for _, f := range m.Fields {
				if f.Auto && want[f.n] == nil {
					for _, p := range pre {
						if f.same(p[f.n], r[f.n]) {
							eq = false
						}
					}
					continue
				}
				if !f.same(want[f.n], r[f.n]) {
					eq = false
					break
				}
			}
			if eq {
				return i
			}
		}
		return -1
	}
	returns := w.V.d == eng.Postgres
	// New rows are appended in record order, so the i-th new record owns the
	// i-th new row.
	for i, rec := range recs {
		got := m.row(rec)
		switch h := ref.hit[i]; {
		case h >= 0:
			var row []any
			if ref.post[h][max(m.auto, 0)] == nil && m.auto >= 0 {
				j := find(ref.post[h])
				if j < 0 {
					continue
				}
				used[j] = true
				row = post[j]
			} else {
				row = ref.post[h]
			}
			// a later record of the batch may have overwritten this row
			if last := lastHit(ref.hit, h); last != i && !returns {
				continue
			}
			if returns {
				if d := m.diff(row, got); d != "" {
					w.viol("C12", sig("returned"), "%s: record %d carries %s but its row is %s (%s)", c, i, showRow(got), showRow(row), d)
				}
			} else if (o.Kind == "insert1" || o.Kind == "upsert1") && m.auto >= 0 {
				if !m.Fields[m.auto].same(row[m.auto], got[m.auto]) {
					w.viol("C12", sig("key"), "%s: the record carries key %s but its row has key %s", c, show(got[m.auto]), show(row[m.auto]))
				}
			}
		default:
			// nothing was written for this record: it keeps its content or
			// carries its own row
			if d := m.diff(o.Want[i], got); d != "" {
				okRow := false
				for _, r := range post {
					if m.diff(r, got) == "" && m.conflictOf([][]any{r}, nokey(m, o.Want[i]), m.uq, -1) >= 0 {
						okRow = true
					}
				}
				auto := m.auto >= 0 && !returns && func() bool { // only the key was filled in
					x := append([]any(nil), o.Want[i]...)
					x[m.auto] = got[m.auto]
					if m.diff(x, got) != "" {
						return false
					}
					for _, r := range post {
						if m.Fields[m.auto].same(r[m.auto], got[m.auto]) && m.conflictOf([][]any{r}, nokey(m, o.Want[i]), m.uq, -1) >= 0 {
							return true
						}
					}
					return false
				}()
				if !okRow && !auto {
					w.viol("C12,C13", sig("skipped-record"), "%s: record %d produced no row, but the call changed it to %s (%s)", c, i, showRow(got), d)
				}
			}
		}
		if !returns {
			// apart from the key the record is the caller's
			x := append([]any(nil), got...)
			if m.auto >= 0 {
				x[m.auto] = o.Want[i][m.auto]
			}
			if d := m.diff(o.Want[i], x); d != "" {
				w.viol("C12", sig("record"), "%s changed record %d: %s", c, i, d)
			}
		}
	}
	if returns {
		for _, rec := range recs {
			w.keep(m, rec, c)
		}
	}
}

func nokey(m *Model, r []any) []any {
	if m.auto < 0 {
		return r
	}
	r = append([]any(nil), r...)
	r[m.auto] = nil
	return r
}

func lastHit(l []int, h int) int {
	last := -1
	for i, x := range l {
		if x == h {
			last = i
		}
	}
	return last
}

func (w *World) readRejected(c *Call, sig func(string) string) bool {
	_, rejected := c.applied()
	for _, e := range rejected {
		if !lock(e.Err) {
			w.viol(propsOf(c.Op.Kind)+",C09", sig("rejected"), "%s: the database rejected the statement: %v\n  %s\n  args %v", c, e.Err, e.Query, showRow(e.Args))
			return true
		}
	}
	return false
}

func (w *World) judgeFind(c *Call, sig func(string) string) {
	o, m := c.Op, c.Op.M
	if w.readRejected(c, sig) {
		return
	}
	done, _ := c.applied()
	if c.Err == nil && len(done) == 0 {
		w.viol(propsOf(o.Kind)+",C09", sig("no-effect"), "%s returned success without asking the database", c)
		return
	}
	if len(done) == 0 {
		return
	}
	e := done[len(done)-1]
	if w.changed2(e) {
		w.viol(propsOf(o.Kind)+",C02", sig("modifies"), "%s modified the table\n  %s", c, e.Query)
	}
	var row []any
	for _, r := range w.mrows(m, e.Pre) {
		if m.sameKey(r, o.Want[0]) {
			row = r
		}
	}
	switch {
	case c.Err == nil && row == nil:
		w.viol(propsOf(o.Kind)+",C09", sig("phantom"), "%s returned success but no row has that key", c)
	case errors.Is(c.Err, sql.ErrNoRows) && row != nil && len(c.Fails) == 0:
		w.viol(propsOf(o.Kind)+",C09", sig("norow"), "%s reported no row but %s exists\n  %s %v", c, showRow(row), e.Query, showRow(e.Args))
	case c.Err == nil:
		w.Nontrivial = true
		got := m.row(o.Recs[0])
		if d := m.diff(row, got); d != "" {
			p := propsOf(o.Kind) + ",C07,C08,C21"
			w.viol(p, sig("value"), "%s read %s but the row is %s (%s)", c, showRow(got), showRow(row), d)
			return
		}
		w.keep(m, o.Recs[0], c)
	}
	if o.Kind == "lock" {
		w.judgeLock(c, sig, e, row)
	}
}

func (w *World) changed2(e *eng.Event) bool {
	if len(e.Pre) != len(e.Post) {
		return true
	}
	return w.changed(e.Pre, e.Post)
}

func (w *World) judgeLock(c *Call, sig func(string) string, e *eng.Event, row []any) {
	o, m := c.Op, c.Op.M
	if e.Stmt == nil || c.Err != nil || row == nil {
		return
	}
	if w.V.d != eng.SQLite && e.Stmt.Lock != o.Mode {
		w.viol("C11", sig("mode"), "%s took lock %q\n  %s", c, e.Stmt.Lock, e.Query)
	}
	if e.Auto || e.Tx != o.EngTx {
		w.viol("C11", sig("tx"), "%s did not run in the given transaction\n  %s", c, e.Query)
	}
	if w.V.d != eng.SQLite {
		locked := w.E.LockedRows(e.Tx, m.Table)
		hit := false
		for _, r := range locked {
			k := w.mrows(m, [][]any{r})[0]
			if m.sameKey(k, row) {
				hit = true
			} else if o.seen == nil || !o.seen[m.key(k)] {
				w.viol("C11", sig("extra"), "%s locked row %s as well", c, showRow(k))
			}
		}
		if !hit && w.E.Alive(e.Tx) {
			w.viol("C11", sig("unlocked"), "%s did not lock the row", c)
		}
	}
}

func (w *World) judgeQuery(c *Call, sig func(string) string) {
	o, m := c.Op, c.Op.M
	if w.readRejected(c, sig) {
		return
	}
	done, _ := c.applied()
	if c.Err == nil && len(done) == 0 {
		w.viol("C03,C09", sig("no-effect"), "%s returned success without asking the database", c)
		return
	}
	if len(done) == 0 {
		return
	}
	e := done[len(done)-1]
	if w.changed2(e) {
		w.viol("C03,C02", sig("modifies"), "%s modified the table\n  %s", c, e.Query)
	}
	if e.Table != m.Table {
		w.viol("C03", sig("table"), "%s read table %s\n  %s", c, e.Table, e.Query)
		return
	}
	pre := w.mrows(m, e.Pre)
	var idx []int
	for i, r := range pre {
		if o.Pred.eval(m, r) == 1 {
			idx = append(idx, i)
		}
	}
	if o.Kind == "query1" {
		switch {
		case c.Err == nil:
			if c.Out == nil {
				w.viol("C03,C09", sig("nil"), "%s returned neither a row nor an error", c)
				return
			}
			got := m.row(c.Out)
			if len(idx) == 0 {
				w.viol("C03,C09", sig("phantom"), "%s returned %s but no row matches\n  %s %v", c, showRow(got), e.Query, showRow(e.Args))
				return
			}
			w.Nontrivial = true
			best := idx[0]
			for _, i := range idx {
				if m.cmpRows(o.Ord, pre[i], pre[best]) < 0 {
					best = i
				}
			}
			for _, i := range idx {
				if m.cmpRows(o.Ord, pre[i], pre[best]) == 0 && m.sameKey(pre[i], got) {
					if d := m.diff(pre[i], got); d != "" {
						w.viol("C07,C08", sig("value"), "%s returned %s but the row is %s (%s)", c, showRow(got), showRow(pre[i]), d)
					}
					w.keep(m, c.Out, c)
					return
				}
			}
			w.viol("C03", sig("first"), "%s returned %s, which is not a first matching row such as %s\n  %s %v", c, showRow(got), showRow(pre[best]), e.Query, showRow(e.Args))
		case errors.Is(c.Err, sql.ErrNoRows):
			if len(idx) > 0 && len(c.Fails) == 0 {
				w.viol("C03,C09", sig("norow"), "%s reported no row but %s matches\n  %s %v", c, showRow(pre[idx[0]]), e.Query, showRow(e.Args))
			}
			if c.Out != nil {
				w.viol("C03", sig("row-and-error"), "%s returned a row and %v", c, c.Err)
			}
		}
		return
	}
	if c.Err != nil {
		return
	}
	var got [][]any
	for _, p := range elems(c.Out) {
		got = append(got, m.row(p))
	}
	if len(got) != len(e.Res.Rows) {
		w.viol("C01,C03", sig("incomplete"), "%s: the database produced %d rows but the call returned %d without an error", c, len(e.Res.Rows), len(got))
		return
	}
	n := len(idx) - int(min(o.Off, uint64(len(idx))))
	if o.Lim > 0 && n > int(o.Lim) {
		n = int(o.Lim)
	}
	ctx := fmt.Sprintf("\n  %s %v", e.Query, showRow(e.Args))
	if len(got) != n {
		w.viol("C03", sig("count"), "%s returned %d rows, expected %d of %d matching%s", c, len(got), n, len(idx), ctx)
		return
	}
	if n > 0 {
		w.Nontrivial = true
	}
	sort.SliceStable(idx, func(a, b int) bool { return m.cmpRows(o.Ord, pre[idx[a]], pre[idx[b]]) < 0 })
	used := map[int]bool{}
	for k, g := range got {
		ref := pre[idx[int(o.Off)+k]]
		hit := -1
		for _, i := range idx {
			if !used[i] && m.sameKey(pre[i], g) {
				hit = i
			}
		}
		if hit < 0 {
			w.viol("C03,C01", sig("row"), "%s: row %d is %s, which does not match or was returned before%s", c, k, showRow(g), ctx)
			return
		}
		used[hit] = true
		if m.cmpRows(o.Ord, ref, pre[hit]) != 0 {
			w.viol("C03", sig("order"), "%s: row %d is %s where one ordered like %s belongs%s", c, k, showRow(g), showRow(ref), ctx)
			return
		}
		if d := m.diff(pre[hit], g); d != "" {
			w.viol("C07,C08", sig("value"), "%s: row %d is %s but was stored as %s (%s)", c, k, showRow(g), showRow(pre[hit]), d)
			return
		}
	}
	for _, p := range elems(c.Out) {
		w.keep(m, p, c)
	}
	w.aliasing(c, m, elems(c.Out), sig)
}
