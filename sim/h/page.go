package h

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"reflect"
	"sort"
)

// judgePage checks a pager iteration against the table it walked over.
func (w *World) judgePage(c *Call, sig func(string) string) {
	o, m := c.Op, c.Op.M
	if w.readRejected(c, sig) {
		return
	}
	done, _ := c.applied()
	if len(done) == 0 {
		if c.Err == nil {
			w.viol("C06,C09", sig("no-effect"), "%s ended without asking the database", c)
		}
		return
	}
	for _, e := range done {
		if w.changed2(e) {
			w.viol("C06,C02", sig("modifies"), "%s modified the table\n  %s", c, e.Query)
			return
		}
	}
	lim := int(o.Lim)
	total := 0
	for i, p := range c.pages {
		if lim > 0 && len(p) > lim {
			w.viol("C06", sig("page-size"), "%s: page %d holds %d rows, more than %d", c, i+1, len(p), lim)
			return
		}
		total += len(p)
		if len(p) == 0 && (len(c.pages) > 1) {
			w.viol("C06", sig("empty-page"), "%s: page %d of %d is empty", c, i+1, len(c.pages))
			return
		}
	}
	// Rows nobody touched while the iteration ran.
	first := done[0]
	snap := w.mrows(m, first.Pre)
	from := 0
	for i, e := range w.events {
		if e == first {
			from = i
		}
	}
	touched := map[string]bool{}
	for _, e := range w.events[from:] {
		if e.Table != m.Table || e.Err != nil {
			continue
		}
		pre, post := map[string]string{}, map[string]string{}
		for _, r := range w.mrows(m, e.Pre) {
			pre[m.key(r)] = showRow(r)
		}
		for _, r := range w.mrows(m, e.Post) {
			post[m.key(r)] = showRow(r)
		}
		for k, v := range pre {
			if post[k] != v {
				touched[k] = true
			}
		}
		for k, v := range post {
			if pre[k] != v {
				touched[k] = true
			}
		}
	}
	var cur []any
	if o.Cursor != nil {
		want := m.row(o.Cursor)
		for _, r := range snap {
			if m.sameKey(r, want) {
				cur = r
			}
		}
		if cur == nil {
			if c.Err == nil {
				w.viol("C06,C09", sig("lost-cursor"), "%s: the cursor row does not exist but the iteration reported no error", c)
			}
			return
		}
	}
	if errors.Is(c.Err, sql.ErrNoRows) && len(c.Fails) == 0 {
		w.viol("C06,C09", sig("norow"), "%s ended with %v although nothing failed", c, c.Err)
		return
	}
	var got [][]any
	for _, p := range c.pages {
		for _, r := range p {
			if !touched[m.key(r)] {
				got = append(got, r)
			}
		}
	}
	brokeOff := c.Err != nil || c.stopped
	why := ""
	for _, pkAsc := range []bool{true, false} {
		ord := append([]Ord(nil), o.Ord...)
		for _, k := range m.keys {
			ord = append(ord, Ord{m.Fields[k], pkAsc})
		}
		if len(o.Ord) == 0 && !pkAsc {
			break
		}
		cmp := func(a, b []any) int {
			x := m.cmpRows(ord, a, b)
			if o.Back {
				return -x
			}
			return x
		}
		var want [][]any
		for _, r := range snap {
			if o.Pred.eval(m, r) == 1 && !touched[m.key(r)] && (cur == nil || cmp(r, cur) >= 0) {
				want = append(want, r)
			}
		}
		sort.SliceStable(want, func(i, j int) bool { return cmp(want[i], want[j]) < 0 })
		d := func() string {
			for i, g := range got {
				if i >= len(want) {
					return fmt.Sprintf("yielded %s although it does not belong, or came twice", showRow(g))
				}
				if !m.sameKey(g, want[i]) {
					return fmt.Sprintf("untouched row %d is %s where %s belongs", i+1, showRow(g), showRow(want[i]))
				}
			}
			if len(got) < len(want) && !brokeOff {
				return fmt.Sprintf("ended without an error after %d untouched rows, before %s", len(got), showRow(want[len(got)]))
			}
			return ""
		}()
		if d == "" {
			for i, g := range got {
				if x := m.diff(want[i], g); x != "" {
					w.viol("C07,C08,C06", sig("value"), "%s: %s came back as %s (%s)", c, showRow(want[i]), showRow(g), x)
				}
			}
			if total > 0 {
				w.Nontrivial = true
			}
			if len(c.pages) > 1 {
				w.Sim.Mark("multi-page")
				w.multi++
			}
			return
		}
		if why == "" {
			why = d
		}
	}
	q := ""
	for i, e := range done {
		if i < 4 {
			q += "\n  " + e.Query + " " + showRow(e.Args)
		}
	}
	props := "C06"
	if len(c.Fails) > 0 || len(got) > 0 && !brokeOff && false {
		props = "C06,C01"
	}
	if c.cancelled && c.Err == nil {
		props += ",C10"
	}
	w.viol(props, sig("sequence"), "%s: %s%s", c, why, q)
}

type span struct {
	lo, hi uintptr
	row    int
	what   string
}

// spans lists the memory a value can be changed through.
func spans(v reflect.Value, row int, what string, out []span) []span {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && v.Type().Elem().Size() > 0 {
			out = append(out, span{v.Pointer(), v.Pointer() + v.Type().Elem().Size(), row, what})
			out = spans(v.Elem(), row, what, out)
		}
	case reflect.Slice:
		if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
			out = append(out, span{v.Pointer(), v.Pointer() + uintptr(v.Cap())*v.Type().Elem().Size(), row, what})
			for i := 0; i < v.Len(); i++ {
				out = spans(v.Index(i), row, what, out)
			}
		}
	case reflect.Struct:
		if v.Type().PkgPath() == "time" {
			return out
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				out = spans(v.Field(i), row, what, out)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out = spans(v.Index(i), row, what, out)
		}
	case reflect.Map:
		if !v.IsNil() {
			out = append(out, span{v.Pointer(), v.Pointer() + 1, row, what})
		}
	}
	return out
}

// aliasing checks that the rows of one result share no memory.
func (w *World) aliasing(c *Call, m *Model, rows []any, sig func(string) string) {
	var l []span
	for i, p := range rows {
		for _, f := range m.Fields {
			l = spans(m.fv(p, f), i, f.Col, l)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].lo < l[j].lo })
	for i := 1; i < len(l); i++ {
		if l[i].lo < l[i-1].hi && l[i].row != l[i-1].row {
			w.viol("C08", sig("shared"), "%s: row %d column %s and row %d column %s share memory", c, l[i-1].row, l[i-1].what, l[i].row, l[i].what)
			return
		}
	}
}

var _ = context.Canceled
