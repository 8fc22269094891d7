// Package eng is an in-memory SQL engine and database/sql driver with the
// syntax rules and wire behaviour of three dialects and a fault plan.
package eng

import (
	"fmt"
	"strconv"
	"strings"
)

type Dialect int

const (
	MySQL Dialect = iota
	Postgres
	SQLite
)

func (d Dialect) String() string { return [...]string{"mysql", "postgres", "sqlite"}[d] }

type tokKind int

const (
	tEOF tokKind = iota
	tIdent
	tQIdent
	tNum
	tStr
	tParam
	tOp
)

type token struct {
	k   tokKind
	s   string
	pos int
}

type SyntaxError struct{ Msg, Query string }

func (e *SyntaxError) Error() string { return "SQL syntax error: " + e.Msg + " in: " + e.Query }

func lex(d Dialect, q string) ([]token, error) {
	var out []token
	i := 0
	bad := func(m string) error { return &SyntaxError{m, q} }
	for i < len(q) {
		c := q[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '-' && i+1 < len(q) && q[i+1] == '-':
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case c == '\'' || (c == '"' && d == MySQL):
			j := i + 1
			var b strings.Builder
			for {
				if j >= len(q) {
					return nil, bad("unterminated string")
				}
				if q[j] == c {
					if j+1 < len(q) && q[j+1] == c {
						b.WriteByte(c)
						j += 2
						continue
					}
					break
				}
				if d == MySQL && q[j] == '\\' && j+1 < len(q) {
					j++
				}
				b.WriteByte(q[j])
				j++
			}
			out = append(out, token{tStr, b.String(), i})
			i = j + 1
		case c == '"' || c == '`':
			if c == '`' && d == Postgres {
				return nil, bad("unexpected '`'")
			}
			j := i + 1
			var b strings.Builder
			for {
				if j >= len(q) {
					return nil, bad("unterminated identifier")
				}
				if q[j] == c {
					if j+1 < len(q) && q[j+1] == c {
						b.WriteByte(c)
						j += 2
						continue
					}
					break
				}
				b.WriteByte(q[j])
				j++
			}
			out = append(out, token{tQIdent, b.String(), i})
			i = j + 1
		case c == '?':
			if d == Postgres {
				return nil, bad("unexpected '?'")
			}
			j := i + 1
			if d == SQLite {
				for j < len(q) && q[j] >= '0' && q[j] <= '9' {
					j++
				}
			}
			out = append(out, token{tParam, q[i+1 : j], i})
			i = j
		case c == '$':
			if d == MySQL {
				return nil, bad("unexpected '$'")
			}
			j := i + 1
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			if j == i+1 {
				return nil, bad("bad parameter")
			}
			out = append(out, token{tParam, q[i+1 : j], i})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(q) && (q[j] >= '0' && q[j] <= '9' || q[j] == '.' || q[j] == 'e' || q[j] == 'E') {
				j++
			}
			out = append(out, token{tNum, q[i:j], i})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i
			for j < len(q) && (q[j] == '_' || q[j] >= '0' && q[j] <= '9' || q[j] >= 'a' && q[j] <= 'z' || q[j] >= 'A' && q[j] <= 'Z' || q[j] >= 0x80) {
				j++
			}
			out = append(out, token{tIdent, q[i:j], i})
			i = j
		default:
			for _, op := range []string{"<=>", "<>", "!=", "<=", ">=", "::", "||"} {
				if strings.HasPrefix(q[i:], op) {
					out = append(out, token{tOp, op, i})
					i += len(op)
					goto next
				}
			}
			if strings.IndexByte("(),.=<>;*+-/", c) < 0 {
				return nil, bad(fmt.Sprintf("unexpected character %q", c))
			}
			out = append(out, token{tOp, string(c), i})
			i++
		next:
		}
	}
	out = append(out, token{tEOF, "", len(q)})
	return out, nil
}

// Expressions.
type expr interface{}
type (
	eCol   struct{ Name string }
	eLit   struct{ V any }
	eParam struct{ N int } // 1-based
	eTuple struct{ L []expr }
	eBin   struct {
		Op   string
		A, B expr
	}
	eNot    struct{ A expr }
	eIsNull struct {
		A   expr
		Not bool
	}
	eIn struct {
		A   expr
		L   []expr
		Not bool
	}
	eBetw struct {
		A, Lo, Hi expr
		Not       bool
	}
	eFunc struct {
		Name string
		Args []expr
		Star bool
	}
	eExcl struct{ Name string } // EXCLUDED.c or VALUES(c)
)

type assign struct {
	Col string
	E   expr
}
type orderTerm struct {
	E    expr
	Desc bool
	Null int // 0 default, 1 first, 2 last
}
type selItem struct {
	E    expr
	Star bool
	As   string
}

// Stmt is one parsed statement.
type Stmt struct {
	Kind      string // insert select update delete
	Table     string
	Cols      []string
	Rows      [][]expr
	Ignore    bool
	HasConf   bool
	ConfCols  []string
	DoNothing bool
	Updates   []assign // on conflict
	Set       []assign
	Returning []selItem
	Sel       []selItem
	Where     expr
	GroupBy   []expr
	OrderBy   []orderTerm
	Limit     expr
	Offset    expr
	Lock      string
	NParams   int
}

type parser struct {
	d    Dialect
	q    string
	t    []token
	i    int
	qpos int // next ? number
	max  int
	used map[int]bool
}

var reserved = map[Dialect]map[string]bool{}

func init() {
	common := strings.Fields("select from where insert into values update set delete order group by limit and or not in is null like between table on as distinct create drop primary references unique default check having union exists case when then else end all constraint foreign to for with join left right inner outer natural using desc asc")
	for _, d := range []Dialect{MySQL, Postgres, SQLite} {
		m := map[string]bool{}
		for _, w := range common {
			m[w] = true
		}
		reserved[d] = m
	}
	for _, w := range strings.Fields("key keys index rank groups range read write condition interval lock match option schema show usage rows system trigger") {
		reserved[MySQL][w] = true
	}
	for _, w := range strings.Fields("user end analyse array both cast collate column current_user do only placing returning some offset fetch") {
		reserved[Postgres][w] = true
	}
	for _, w := range strings.Fields("index transaction if isnull notnull add alter autoincrement commit") {
		reserved[SQLite][w] = true
	}
	delete(reserved[MySQL], "offset")
}

func (p *parser) err(m string) error {
	t := p.t[p.i]
	return &SyntaxError{fmt.Sprintf("%s near %q (at %d)", m, t.s, t.pos), p.q}
}
func (p *parser) peek() token { return p.t[p.i] }
func (p *parser) isKw(w string) bool {
	t := p.t[p.i]
	return t.k == tIdent && strings.EqualFold(t.s, w)
}
func (p *parser) isKwAt(n int, w string) bool {
	if p.i+n >= len(p.t) {
		return false
	}
	t := p.t[p.i+n]
	return t.k == tIdent && strings.EqualFold(t.s, w)
}
func (p *parser) kw(w string) bool {
	if p.isKw(w) {
		p.i++
		return true
	}
	return false
}
func (p *parser) kws(ws ...string) bool {
	for n, w := range ws {
		if !p.isKwAt(n, w) {
			return false
		}
	}
	p.i += len(ws)
	return true
}
func (p *parser) isOp(o string) bool { return p.t[p.i].k == tOp && p.t[p.i].s == o }
func (p *parser) op(o string) bool {
	if p.isOp(o) {
		p.i++
		return true
	}
	return false
}
func (p *parser) need(o string) error {
	if !p.op(o) {
		return p.err("expected " + o)
	}
	return nil
}
func (p *parser) needKw(w string) error {
	if !p.kw(w) {
		return p.err("expected " + w)
	}
	return nil
}

func (p *parser) ident() (string, error) {
	t := p.t[p.i]
	switch t.k {
	case tQIdent:
		p.i++
		return t.s, nil
	case tIdent:
		if reserved[p.d][strings.ToLower(t.s)] {
			return "", p.err("reserved word used as identifier")
		}
		p.i++
		if p.d == Postgres {
			return strings.ToLower(t.s), nil
		}
		return t.s, nil
	}
	return "", p.err("expected identifier")
}

func (p *parser) table() (string, error) {
	n, err := p.ident()
	if err != nil {
		return "", err
	}
	if p.op(".") {
		m, err := p.ident()
		if err != nil {
			return "", err
		}
		return n + "." + m, nil
	}
	return n, nil
}

func (p *parser) column() (string, error) {
	n, err := p.ident()
	if err != nil {
		return "", err
	}
	for p.op(".") {
		if n, err = p.ident(); err != nil {
			return "", err
		}
	}
	return n, nil
}

func (p *parser) columns() ([]string, error) {
	if err := p.need("("); err != nil {
		return nil, err
	}
	var out []string
	for {
		c, err := p.column()
		if err != nil {
			return nil, err
		}
		out = append(out, c)
		if p.op(",") {
			continue
		}
		break
	}
	return out, p.need(")")
}

// Parse parses one statement.
func Parse(d Dialect, q string) (*Stmt, error) {
	toks, err := lex(d, q)
	if err != nil {
		return nil, err
	}
	p := &parser{d: d, q: q, t: toks, used: map[int]bool{}}
	s, err := p.stmt()
	if err != nil {
		return nil, err
	}
	p.op(";")
	if p.peek().k != tEOF {
		return nil, p.err("unexpected input")
	}
	s.NParams = p.max
	if d == Postgres {
		for i := 1; i <= p.max; i++ {
			if !p.used[i] {
				return nil, &SyntaxError{fmt.Sprintf("could not determine data type of parameter $%d", i), q}
			}
		}
	}
	return s, nil
}

func (p *parser) stmt() (*Stmt, error) {
	switch {
	case p.kw("insert"):
		return p.insert()
	case p.kw("select"):
		return p.sel()
	case p.kw("update"):
		return p.update()
	case p.kw("delete"):
		return p.del()
	}
	return nil, p.err("unknown statement")
}

func (p *parser) insert() (*Stmt, error) {
	s := &Stmt{Kind: "insert"}
	if p.isKw("ignore") {
		if p.d != MySQL {
			return nil, p.err("IGNORE not supported")
		}
		p.i++
		s.Ignore = true
	} else if p.isKw("or") {
		if p.d != SQLite {
			return nil, p.err("OR not supported")
		}
		p.i++
		if !p.kw("ignore") {
			return nil, p.err("expected IGNORE")
		}
		s.Ignore = true
	}
	if err := p.needKw("into"); err != nil {
		return nil, err
	}
	var err error
	if s.Table, err = p.table(); err != nil {
		return nil, err
	}
	if p.kws("default", "values") {
		if p.d == MySQL {
			return nil, p.err("DEFAULT VALUES")
		}
		s.Rows = [][]expr{{}}
	} else {
		if p.d == MySQL && p.isOp("(") && p.t[p.i+1].k == tOp && p.t[p.i+1].s == ")" {
			p.i += 2
		} else if p.isOp("(") {
			if s.Cols, err = p.columns(); err != nil {
				return nil, err
			}
		}
		if err := p.needKw("values"); err != nil {
			return nil, err
		}
		for {
			if err := p.need("("); err != nil {
				return nil, err
			}
			row := []expr{}
			if !p.isOp(")") {
				for {
					if p.kw("default") {
						row = append(row, eFunc{Name: "default"})
					} else {
						e, err := p.expr()
						if err != nil {
							return nil, err
						}
						row = append(row, e)
					}
					if p.op(",") {
						continue
					}
					break
				}
			}
			if err := p.need(")"); err != nil {
				return nil, err
			}
			s.Rows = append(s.Rows, row)
			if p.op(",") {
				continue
			}
			break
		}
	}
	alias := ""
	if p.d == MySQL && p.kw("as") {
		if alias, err = p.ident(); err != nil {
			return nil, err
		}
		_ = alias
	}
	if p.isKw("on") {
		p.i++
		if p.kw("duplicate") {
			if p.d != MySQL {
				return nil, p.err("ON DUPLICATE KEY not supported")
			}
			if !p.kws("key", "update") {
				return nil, p.err("expected KEY UPDATE")
			}
			s.HasConf = true
			if s.Updates, err = p.assigns(); err != nil {
				return nil, err
			}
		} else if p.kw("conflict") {
			if p.d == MySQL {
				return nil, p.err("ON CONFLICT not supported")
			}
			s.HasConf = true
			if p.isOp("(") {
				if s.ConfCols, err = p.columns(); err != nil {
					return nil, err
				}
			}
			if err := p.needKw("do"); err != nil {
				return nil, err
			}
			if p.kw("nothing") {
				s.DoNothing = true
			} else {
				if !p.kws("update", "set") {
					return nil, p.err("expected UPDATE SET")
				}
				if s.ConfCols == nil && p.d == Postgres {
					return nil, p.err("ON CONFLICT DO UPDATE requires inference specification")
				}
				if s.Updates, err = p.assigns(); err != nil {
					return nil, err
				}
			}
		} else {
			return nil, p.err("bad ON clause")
		}
	}
	if s.Returning, err = p.returning(); err != nil {
		return nil, err
	}
	return s, nil
}

func (p *parser) returning() ([]selItem, error) {
	if !p.isKw("returning") {
		return nil, nil
	}
	if p.d == MySQL {
		return nil, p.err("RETURNING not supported")
	}
	p.i++
	return p.selItems()
}

func (p *parser) assigns() ([]assign, error) {
	var out []assign
	for {
		if p.isOp("(") { // (a,b) = (x,y)
			cols, err := p.columns()
			if err != nil {
				return nil, err
			}
			if p.d == MySQL {
				return nil, p.err("row assignment")
			}
			if err := p.need("="); err != nil {
				return nil, err
			}
			p.kw("row")
			if err := p.need("("); err != nil {
				return nil, err
			}
			for i := range cols {
				if i > 0 {
					if err := p.need(","); err != nil {
						return nil, err
					}
				}
				e, err := p.expr()
				if err != nil {
					return nil, err
				}
				out = append(out, assign{cols[i], e})
			}
			if err := p.need(")"); err != nil {
				return nil, err
			}
		} else {
			c, err := p.column()
			if err != nil {
				return nil, err
			}
			if err := p.need("="); err != nil {
				return nil, err
			}
			e, err := p.addExpr()
			if err != nil {
				return nil, err
			}
			out = append(out, assign{c, e})
		}
		if p.op(",") {
			continue
		}
		return out, nil
	}
}

func (p *parser) selItems() ([]selItem, error) {
	var out []selItem
	for {
		if p.op("*") {
			out = append(out, selItem{Star: true})
		} else {
			e, err := p.expr()
			if err != nil {
				return nil, err
			}
			it := selItem{E: e}
			if p.kw("as") {
				if it.As, err = p.ident(); err != nil {
					return nil, err
				}
			}
			out = append(out, it)
		}
		if p.op(",") {
			continue
		}
		return out, nil
	}
}

func (p *parser) sel() (*Stmt, error) {
	s := &Stmt{Kind: "select"}
	var err error
	if s.Sel, err = p.selItems(); err != nil {
		return nil, err
	}
	if err := p.needKw("from"); err != nil {
		return nil, err
	}
	if s.Table, err = p.table(); err != nil {
		return nil, err
	}
	if p.kw("where") {
		if s.Where, err = p.expr(); err != nil {
			return nil, err
		}
	}
	if p.kws("group", "by") {
		for {
			e, err := p.addExpr()
			if err != nil {
				return nil, err
			}
			s.GroupBy = append(s.GroupBy, e)
			if !p.op(",") {
				break
			}
		}
	}
	if err := p.tail(s, true); err != nil {
		return nil, err
	}
	if p.kw("for") {
		if p.d == SQLite {
			return nil, p.err("FOR not supported")
		}
		switch {
		case p.kw("update"):
			s.Lock = "update"
		case p.kws("no", "key", "update") && p.d == Postgres:
			s.Lock = "nokeyupdate"
		case p.kw("share"):
			s.Lock = "share"
		case p.kws("key", "share") && p.d == Postgres:
			s.Lock = "keyshare"
		default:
			return nil, p.err("bad lock clause")
		}
	} else if p.isKw("lock") && p.d == MySQL {
		if !p.kws("lock", "in", "share", "mode") {
			return nil, p.err("bad lock clause")
		}
		s.Lock = "share"
	}
	return s, nil
}

func (p *parser) tail(s *Stmt, isSelect bool) error {
	var err error
	if p.isKw("order") {
		if p.d == Postgres && !isSelect {
			return p.err("ORDER BY not supported here")
		}
		p.i++
		if err := p.needKw("by"); err != nil {
			return err
		}
		for {
			e, err := p.addExpr()
			if err != nil {
				return err
			}
			if t, ok := e.(eTuple); ok && len(t.L) > 1 && p.d != Postgres {
				return &SyntaxError{"row value used in ORDER BY", p.q}
			}
			ot := orderTerm{E: e}
			if p.kw("desc") {
				ot.Desc = true
			} else {
				p.kw("asc")
			}
			if p.d != MySQL && p.kw("nulls") {
				if p.kw("first") {
					ot.Null = 1
				} else if p.kw("last") {
					ot.Null = 2
				} else {
					return p.err("bad NULLS")
				}
			}
			s.OrderBy = append(s.OrderBy, ot)
			if !p.op(",") {
				break
			}
		}
	}
	if p.isKw("limit") {
		if p.d == Postgres && !isSelect {
			return p.err("LIMIT not supported here")
		}
		p.i++
		neg := p.op("-")
		if neg && p.d != SQLite {
			return p.err("negative LIMIT")
		}
		if p.d == Postgres && p.kw("all") {
			s.Limit = eLit{int64(-1)}
		} else if s.Limit, err = p.addExpr(); err != nil {
			return err
		}
		if neg {
			s.Limit = eLit{int64(-1)}
		}
		if isSelect && p.d != Postgres && p.op(",") {
			s.Offset = s.Limit
			if s.Limit, err = p.addExpr(); err != nil {
				return err
			}
		}
	}
	if isSelect && p.isKw("offset") {
		if p.d != Postgres && s.Limit == nil {
			return p.err("OFFSET without LIMIT")
		}
		p.i++
		if s.Offset, err = p.addExpr(); err != nil {
			return err
		}
		if p.d == Postgres && s.Limit == nil && p.kw("limit") {
			if s.Limit, err = p.addExpr(); err != nil {
				return err
			}
		}
	}
	return nil
}

func (p *parser) update() (*Stmt, error) {
	s := &Stmt{Kind: "update"}
	var err error
	if s.Table, err = p.table(); err != nil {
		return nil, err
	}
	if err := p.needKw("set"); err != nil {
		return nil, err
	}
	if s.Set, err = p.assigns(); err != nil {
		return nil, err
	}
	if p.kw("where") {
		if s.Where, err = p.expr(); err != nil {
			return nil, err
		}
	}
	if err := p.tail(s, false); err != nil {
		return nil, err
	}
	s.Returning, err = p.returning()
	return s, err
}

func (p *parser) del() (*Stmt, error) {
	s := &Stmt{Kind: "delete"}
	if err := p.needKw("from"); err != nil {
		return nil, err
	}
	var err error
	if s.Table, err = p.table(); err != nil {
		return nil, err
	}
	if p.kw("where") {
		if s.Where, err = p.expr(); err != nil {
			return nil, err
		}
	}
	if err := p.tail(s, false); err != nil {
		return nil, err
	}
	s.Returning, err = p.returning()
	return s, err
}

func (p *parser) expr() (expr, error) {
	a, err := p.andExpr()
	if err != nil {
		return nil, err
	}
	for p.kw("or") {
		b, err := p.andExpr()
		if err != nil {
			return nil, err
		}
		a = eBin{"or", a, b}
	}
	return a, nil
}

func (p *parser) andExpr() (expr, error) {
	a, err := p.notExpr()
	if err != nil {
		return nil, err
	}
	for p.kw("and") {
		b, err := p.notExpr()
		if err != nil {
			return nil, err
		}
		a = eBin{"and", a, b}
	}
	return a, nil
}

func (p *parser) notExpr() (expr, error) {
	if p.kw("not") {
		a, err := p.notExpr()
		if err != nil {
			return nil, err
		}
		return eNot{a}, nil
	}
	return p.cmpExpr()
}

func (p *parser) cmpExpr() (expr, error) {
	a, err := p.addExpr()
	if err != nil {
		return nil, err
	}
	for {
		t := p.peek()
		if t.k == tOp {
			switch t.s {
			case "=", "<>", "!=", "<", "<=", ">", ">=":
				p.i++
				b, err := p.addExpr()
				if err != nil {
					return nil, err
				}
				op := t.s
				if op == "!=" {
					op = "<>"
				}
				a = eBin{op, a, b}
				continue
			case "<=>":
				if p.d != MySQL {
					return nil, p.err("bad operator")
				}
				p.i++
				b, err := p.addExpr()
				if err != nil {
					return nil, err
				}
				a = eBin{"<=>", a, b}
				continue
			}
			return a, nil
		}
		if p.kw("is") {
			not := p.kw("not")
			switch {
			case p.kw("null"):
				a = eIsNull{a, not}
			case p.kw("true"):
				a = eFunc{Name: "istrue", Args: []expr{a}}
				if not {
					a = eNot{a}
				}
			case p.kw("false"):
				a = eFunc{Name: "isfalse", Args: []expr{a}}
				if not {
					a = eNot{a}
				}
			default:
				return nil, p.err("bad IS")
			}
			continue
		}
		not := false
		if p.isKw("not") && (p.isKwAt(1, "in") || p.isKwAt(1, "like") || p.isKwAt(1, "between")) {
			not = true
			p.i++
		}
		switch {
		case p.kw("in"):
			if err := p.need("("); err != nil {
				return nil, err
			}
			var l []expr
			if p.isOp(")") {
				if p.d != SQLite {
					return nil, p.err("empty IN list")
				}
			} else {
				for {
					e, err := p.expr()
					if err != nil {
						return nil, err
					}
					l = append(l, e)
					if p.op(",") {
						continue
					}
					break
				}
			}
			if err := p.need(")"); err != nil {
				return nil, err
			}
			a = eIn{a, l, not}
		case p.kw("like"):
			b, err := p.addExpr()
			if err != nil {
				return nil, err
			}
			a = eBin{"like", a, b}
			if not {
				a = eNot{a}
			}
		case p.kw("between"):
			lo, err := p.addExpr()
			if err != nil {
				return nil, err
			}
			if err := p.needKw("and"); err != nil {
				return nil, err
			}
			hi, err := p.addExpr()
			if err != nil {
				return nil, err
			}
			a = eBetw{a, lo, hi, not}
		default:
			return a, nil
		}
	}
}

func (p *parser) addExpr() (expr, error) {
	a, err := p.primary()
	if err != nil {
		return nil, err
	}
	for {
		t := p.peek()
		if t.k == tOp && (t.s == "+" || t.s == "-" || t.s == "*" || t.s == "/") {
			p.i++
			b, err := p.primary()
			if err != nil {
				return nil, err
			}
			a = eBin{t.s, a, b}
			continue
		}
		if t.k == tOp && t.s == "::" && p.d == Postgres {
			p.i++
			if _, err := p.typeName(); err != nil {
				return nil, err
			}
			continue
		}
		return a, nil
	}
}

func (p *parser) typeName() (string, error) {
	t := p.peek()
	if t.k != tIdent && t.k != tQIdent {
		return "", p.err("expected type")
	}
	p.i++
	if p.op("(") {
		for !p.op(")") {
			if p.peek().k == tEOF {
				return "", p.err("bad type")
			}
			p.i++
		}
	}
	return t.s, nil
}

func (p *parser) primary() (expr, error) {
	t := p.peek()
	switch t.k {
	case tNum:
		p.i++
		if strings.ContainsAny(t.s, ".eE") {
			f, err := strconv.ParseFloat(t.s, 64)
			if err != nil {
				return nil, p.err("bad number")
			}
			return eLit{f}, nil
		}
		n, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			u, err := strconv.ParseUint(t.s, 10, 64)
			if err != nil {
				return nil, p.err("bad number")
			}
			return eLit{u}, nil
		}
		return eLit{n}, nil
	case tStr:
		p.i++
		return eLit{t.s}, nil
	case tParam:
		p.i++
		n := 0
		if t.s == "" {
			p.qpos++
			n = p.qpos
		} else {
			v, err := strconv.Atoi(t.s)
			if err != nil || v < 1 || v > 65535 {
				return nil, p.err("bad parameter number")
			}
			n = v
		}
		if n > p.max {
			p.max = n
		}
		p.used[n] = true
		return eParam{n}, nil
	case tOp:
		if t.s == "(" {
			p.i++
			e, err := p.expr()
			if err != nil {
				return nil, err
			}
			if p.op(",") {
				l := []expr{e}
				for {
					x, err := p.expr()
					if err != nil {
						return nil, err
					}
					l = append(l, x)
					if !p.op(",") {
						break
					}
				}
				return eTuple{l}, p.need(")")
			}
			return e, p.need(")")
		}
		if t.s == "-" {
			p.i++
			e, err := p.primary()
			if err != nil {
				return nil, err
			}
			return eBin{"-", eLit{int64(0)}, e}, nil
		}
		return nil, p.err("unexpected token")
	case tIdent:
		switch strings.ToLower(t.s) {
		case "null":
			p.i++
			return eLit{nil}, nil
		case "true":
			p.i++
			return eLit{true}, nil
		case "false":
			p.i++
			return eLit{false}, nil
		case "row":
			if p.t[p.i+1].k == tOp && p.t[p.i+1].s == "(" {
				p.i++
				return p.primary()
			}
		case "values":
			if p.d == MySQL && p.t[p.i+1].k == tOp && p.t[p.i+1].s == "(" {
				p.i += 2
				c, err := p.column()
				if err != nil {
					return nil, err
				}
				return eExcl{c}, p.need(")")
			}
		case "excluded":
			if p.d != MySQL && p.t[p.i+1].k == tOp && p.t[p.i+1].s == "." {
				p.i += 2
				c, err := p.ident()
				if err != nil {
					return nil, err
				}
				return eExcl{c}, nil
			}
		case "cast":
			if p.t[p.i+1].k == tOp && p.t[p.i+1].s == "(" {
				p.i += 2
				e, err := p.expr()
				if err != nil {
					return nil, err
				}
				if err := p.needKw("as"); err != nil {
					return nil, err
				}
				if _, err := p.typeName(); err != nil {
					return nil, err
				}
				return e, p.need(")")
			}
		}
		if p.t[p.i+1].k == tOp && p.t[p.i+1].s == "(" {
			name := strings.ToLower(t.s)
			p.i += 2
			f := eFunc{Name: name}
			if p.op("*") {
				f.Star = true
			} else if !p.isOp(")") {
				for {
					e, err := p.expr()
					if err != nil {
						return nil, err
					}
					f.Args = append(f.Args, e)
					if p.op(",") {
						continue
					}
					break
				}
			}
			return f, p.need(")")
		}
		fallthrough
	case tQIdent:
		c, err := p.column()
		if err != nil {
			return nil, err
		}
		return eCol{c}, nil
	}
	return nil, p.err("unexpected end")
}
