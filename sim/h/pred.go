package h

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/si3nloong/sqlgen/sequel"
	"simws/core"
	"simws/eng"
)

// Pred is a filter as the caller asked for it.
type Pred struct {
	Op   string // and, or, or a leaf operator
	L    []*Pred
	F    *Field
	Vals []any // Go values of the column type
	lv   []any // their logical values
}

func (p *Pred) String() string {
	if p == nil {
		return "<all>"
	}
	if p.Op == "and" || p.Op == "or" {
		var l []string
		for _, c := range p.L {
			l = append(l, c.String())
		}
		return "(" + strings.Join(l, " "+p.Op+" ") + ")"
	}
	return fmt.Sprintf("%s %s %s", p.F.Col, p.Op, showRow(p.lv))
}

func (m *Model) genPred(d *core.Decider, depth int) *Pred {
	if depth > 0 && d.N(3, "logic") > 0 {
		p := &Pred{Op: []string{"and", "or"}[d.N(2, "andor")]}
		n := 1 + d.N(3, "nary")
		for i := 0; i < n; i++ {
			p.L = append(p.L, m.genPred(d, depth-1))
		}
		return p
	}
	var fs []*Field
	for _, f := range m.Fields {
		if f.C != nil && f.C.Cmp && !f.json && !f.odd && f.Kind != "bytes" && f.ft.Name() != "Point" && !(f.ft.Kind() == reflect.Pointer && f.ft.Elem().Name() == "Point") && f.ft.Kind() != reflect.Float32 {
			fs = append(fs, f)
		}
	}
	f := fs[d.N(len(fs), "col")]
	ops := []string{"=", "<>", ">", ">=", "<", "<=", "between", "notbetween", "in", "notin", "isnull", "notnull"}
	if f.Kind == "bool" {
		ops = []string{"=", "<>", "in", "notin", "isnull", "notnull"}
	}
	if f.ft.Kind() == reflect.String && f.ft.Name() == "string" {
		ops = append(ops, "like", "notlike")
	}
	p := &Pred{Op: ops[d.N(len(ops), "op")], F: f}
	n := 1
	switch p.Op {
	case "between", "notbetween":
		n = 2
	case "in", "notin":
		n = d.N(4, "inlen")
	case "isnull", "notnull":
		n = 0
	}
	for i := 0; i < n; i++ {
		v := f.gen(d, false)
		if strings.HasSuffix(p.Op, "like") {
			v = reflect.ValueOf([]string{"%", "a%", "%b", "_b", "a_c", "", "ab", "%a%"}[d.N(8, "pat")])
		}
		p.Vals = append(p.Vals, v.Interface())
		p.lv = append(p.lv, f.logical(v))
	}
	return p
}

// clause builds the library's clause, yielding to the scheduler inside it.
func (p *Pred) clause(m *Model, yield func(), after func(sequel.StmtWriter)) sequel.WhereClause {
	if p == nil {
		return nil
	}
	var c sequel.WhereClause
	if p.Op == "and" || p.Op == "or" {
		var l []sequel.WhereClause
		for _, x := range p.L {
			l = append(l, x.clause(m, yield, after))
		}
		c = m.Ops.Logic(p.Op, l)
	} else {
		c = p.F.C.Where(p.Op, p.Vals)
	}
	if yield == nil {
		return c
	}
	return func(w sequel.StmtWriter) {
		yield()
		c(w)
		after(w)
	}
}

type tri int // -1 unknown

func not(t tri) tri {
	switch t {
	case 0:
		return 1
	case 1:
		return 0
	}
	return -1
}

// eval is SQL three-valued logic over logical values.
func (p *Pred) eval(m *Model, row []any) tri {
	switch {
	case p == nil:
		return 1
	case p.Op == "and":
		r := tri(1)
		for _, c := range p.L {
			switch c.eval(m, row) {
			case 0:
				r = 0
			case -1:
				if r == 1 {
					r = -1
				}
			}
		}
		return r
	case p.Op == "or":
		r := tri(0)
		for _, c := range p.L {
			switch c.eval(m, row) {
			case 1:
				r = 1
			case -1:
				if r == 0 {
					r = -1
				}
			}
		}
		return r
	}
	x := row[p.F.n]
	cmp := func(op string, y any) tri {
		if x == nil || y == nil {
			return -1
		}
		c, err := eng.Compare(m.v.d, x, y)
		if err != nil {
			panic(err)
		}
		var ok bool
		switch op {
		case "=":
			ok = c == 0
		case "<>":
			ok = c != 0
		case ">":
			ok = c > 0
		case ">=":
			ok = c >= 0
		case "<":
			ok = c < 0
		case "<=":
			ok = c <= 0
		}
		if ok {
			return 1
		}
		return 0
	}
	switch p.Op {
	case "isnull":
		if x == nil {
			return 1
		}
		return 0
	case "notnull":
		if x == nil {
			return 0
		}
		return 1
	case "between", "notbetween":
		a, b := cmp(">=", p.lv[0]), cmp("<=", p.lv[1])
		r := tri(1)
		if a == 0 || b == 0 {
			r = 0
		} else if a == -1 || b == -1 {
			r = -1
		}
		if p.Op == "notbetween" {
			return not(r)
		}
		return r
	case "in", "notin":
		r := tri(0)
		for _, y := range p.lv {
			switch cmp("=", y) {
			case 1:
				r = 1
			case -1:
				if r == 0 {
					r = -1
				}
			}
		}
		if p.Op == "notin" {
			return not(r)
		}
		return r
	case "like", "notlike":
		if x == nil || p.lv[0] == nil {
			return -1
		}
		r := tri(0)
		if likeMatch([]rune(x.(string)), []rune(p.lv[0].(string))) {
			r = 1
		}
		if p.Op == "notlike" {
			return not(r)
		}
		return r
	}
	return cmp(p.Op, p.lv[0])
}

func likeMatch(s, p []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch p[0] {
	case '%':
		for i := 0; i <= len(s); i++ {
			if likeMatch(s[i:], p[1:]) {
				return true
			}
		}
		return false
	case '_':
		return len(s) > 0 && likeMatch(s[1:], p[1:])
	case '\\':
		if len(p) > 1 {
			return len(s) > 0 && s[0] == p[1] && likeMatch(s[1:], p[2:])
		}
	}
	return len(s) > 0 && s[0] == p[0] && likeMatch(s[1:], p[1:])
}

// Ord is one requested ordering term.
type Ord struct {
	F   *Field
	Asc bool
}

func (m *Model) genOrder(d *core.Decider, max int, ro bool) []Ord {
	var out []Ord
	n := d.N(max+1, "norder")
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		f := m.Fields[d.N(len(m.Fields), "ordcol")]
		if used[f.n] || f.json || f.odd || f.Kind == "bytes" || f.C == nil || f.ft.Kind() == reflect.Float32 || f.RO && !ro || f.Kind == "bool" && m.v.d == eng.Postgres && false {
			continue
		}
		used[f.n] = true
		out = append(out, Ord{f, d.N(2, "desc") == 0})
	}
	return out
}

func clauses(o []Ord) []sequel.OrderByClause {
	var l []sequel.OrderByClause
	for _, t := range o {
		l = append(l, t.F.C.Order(t.Asc))
	}
	return l
}

// cmpRows orders two rows the way the dialect does.
func (m *Model) cmpRows(o []Ord, a, b []any) int {
	for _, t := range o {
		x, y := a[t.F.n], b[t.F.n]
		if x == nil && y == nil {
			continue
		}
		if x == nil || y == nil {
			c := -1 // null first
			if m.v.d == eng.Postgres {
				c = 1
			}
			if y == nil {
				c = -c
			}
			if !t.Asc {
				c = -c
			}
			return c
		}
		c, err := eng.Compare(m.v.d, x, y)
		if err != nil {
			panic(err)
		}
		if !t.Asc {
			c = -c
		}
		if c != 0 {
			return c
		}
	}
	return 0
}

func showOrd(o []Ord) string {
	s := ""
	for _, t := range o {
		s += " " + t.F.Col
		if !t.Asc {
			s += " desc"
		}
	}
	return s
}
