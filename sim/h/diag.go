package h

import (
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/si3nloong/sqlgen/sequel"
	"simws/core"
	"simws/eng"
)

// piece is one step of a caller who writes a statement by hand.
type piece struct {
	kind string // text, byte, var, vars, late, again, show, reset
	text string
	vals []any
	ends string
}

type diagKind string

type diagCode int16

type diagValuer struct{ s string }

func (v diagValuer) Value() (driver.Value, error) { return v.s + "!", nil }

func diagArg(d *core.Decider) any {
	switch d.N(22, "arg") {
	case 0:
		return nil
	case 1:
		return int64(d.N(2000, "n") - 1000)
	case 2:
		return []string{"", "it's", `say "x"`, "a\\b", "line\nbreak", "what?", "$1", "é世", "\x00\x7f"}[d.N(9, "str")]
	case 3:
		return []byte([]string{"", "b'y", "?\"$2", "plain"}[d.N(4, "bytes")])
	case 4:
		return d.N(2, "bool") == 1
	case 5:
		return []float64{0, .1, -2.5, 1e-13, 123456789.123456789, 1e21, 1.5e300}[d.N(7, "float")]
	case 6:
		return float32([]float64{.1, 3, 1e-9, 16777216}[d.N(4, "f32")])
	case 7:
		return time.Date(2024, 2, 29, 23, 59, 58, []int{0, 1000, 120000000, 999999000}[d.N(4, "ns")], []*time.Location{time.UTC, time.FixedZone("", 5*3600+1800), time.FixedZone("", -3600)}[d.N(3, "zone")])
	case 8:
		return diagKind([]string{"red", "gr'en", "?"}[d.N(3, "kind")])
	case 9:
		return diagCode(d.N(60000, "code") - 30000)
	case 10:
		return uint64(math.MaxUint64) - uint64(d.N(3, "u64"))
	case 11:
		return uint8(d.N(256, "u8"))
	case 12:
		return sql.NullString{String: "null'able", Valid: d.N(2, "valid") == 1}
	case 13:
		return sql.NullInt64{Int64: 77, Valid: d.N(2, "valid") == 1}
	case 14:
		return diagValuer{"v?"}
	case 15:
		s := "pointed"
		return []*string{&s, nil}[d.N(2, "nil")]
	case 16:
		n := int64(41)
		return []*int64{&n, nil}[d.N(2, "nil")]
	case 17:
		return json.RawMessage(`{"a":"?"}`)
	case 18:
		return int8(-128 + d.N(256, "i8"))
	case 19:
		return []*diagValuer{{"p"}, nil}[d.N(2, "nil")]
	case 20:
		return sql.NullTime{Time: time.Date(2001, 9, 9, 1, 46, 40, 250000000, time.UTC), Valid: true}
	}
	return d.N(100000, "int")
}

func (w *World) genStmt(d *core.Decider) []piece {
	var l []piece
	n := 1 + d.N(14, "pieces")
	pg := w.V.d == eng.Postgres
	texts := []string{"SELECT a FROM t WHERE x = ", " AND y > ", " /* no */ ", ", ", "(", ") ", " name <> 'why?' OR z = ", ` "q?d" = `, " `b?` = ", " note = 'it''s $1 ?' OR k IN ", " é = "}
	for i := 0; i < n; i++ {
		k := []string{"text", "var", "var", "var", "vars", "show", "byte", "late"}[d.N(8, "piece")]
		p := piece{kind: k}
		switch k {
		case "text":
			p.text = texts[d.N(len(texts), "text")]
			if pg && strings.Contains(p.text, "`") || w.V.d == eng.MySQL && strings.Contains(p.text, `"`) {
				p.text = " q = "
			}
		case "byte":
			p.text = []string{" ", ";", "=", ","}[d.N(4, "byte")]
		case "var":
			p.vals = []any{diagArg(d)}
			p.ends = []string{" ", " AND b = ", ",", ") "}[d.N(4, "ends")]
		case "vars":
			for j := 1 + d.N(5, "vars"); j > 0; j-- {
				p.vals = append(p.vals, diagArg(d))
			}
		case "late":
			if !pg {
				p.kind, p.text = "text", " AND "
				break
			}
			// Numbered placeholders may be written in another order, or twice
			p.vals = []any{diagArg(d), diagArg(d)}
			p.ends = []string{"", "again"}[d.N(2, "again")]
		}
		l = append(l, p)
	}
	return l
}

// stmtOp is a caller who takes a statement from the package and writes it.
func (w *World) stmtOp(c *Call, o *Op, y func()) {
	s := o.M.Ops.Acquire()
	defer o.M.Ops.Release(s)
	text := ""
	var args []any
	hold := func() string {
		if w.V.d == eng.Postgres {
			return "$" + strconv.Itoa(len(args))
		}
		return "?"
	}
	bad := func(what string) {
		w.viol("C22,C04", "stmt/"+what, "%s: the caller wrote %q with %s, the statement has %q with %s", c, text, showAny(args), s.Query(), showAny(s.Args()))
	}
	for _, p := range o.Pieces {
		switch p.kind {
		case "text":
			s.WriteString(p.text)
			text += p.text
		case "byte":
			s.WriteByte(p.text[0])
			text += p.text
		case "var":
			h := s.Var(p.vals[0])
			args = append(args, p.vals[0])
			if h != hold() {
				bad("placeholder")
				return
			}
			y()
			fmt.Fprintf(s, "%s%s", h, p.ends)
			text += h + p.ends
		case "vars":
			h := s.Vars(p.vals)
			var want []string
			for _, v := range p.vals {
				args = append(args, v)
				want = append(want, hold())
			}
			if h != "("+strings.Join(want, ",")+")" {
				bad("placeholders")
				return
			}
			y()
			s.WriteString(h)
			text += h
		case "late":
			a := s.Var(p.vals[0])
			args = append(args, p.vals[0])
			b := s.Var(p.vals[1])
			args = append(args, p.vals[1])
			t := " " + b + " <> " + a
			if p.ends != "" {
				t += " OR " + b
			}
			t += " "
			s.Write([]byte(t))
			text += t
		case "show":
			y()
			w.diag(c, s, true)
		}
		if s.Query() != text || !sameArgs(s.Args(), args) {
			bad("content")
			return
		}
	}
	w.diag(c, s, true)
	if s.Query() != text || !sameArgs(s.Args(), args) {
		bad("content")
	}
	w.Nontrivial = true
}

func showAny(l []any) string {
	var o []string
	for _, v := range l {
		o = append(o, fmt.Sprintf("%T(%v)", v, v))
	}
	return "[" + strings.Join(o, ", ") + "]"
}

func sameArgs(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !reflect.DeepEqual(a[i], b[i]) {
			return false
		}
	}
	return true
}

// diag formats a statement as a logger would, at any time while it is written.
func (w *World) diag(c *Call, sw sequel.StmtWriter, always bool) {
	if w.P.Diag == 0 || !always && !w.D.P(w.P.Diag, 100, "diag") {
		return
	}
	s, ok := sw.(sequel.Stmt)
	if !ok {
		return
	}
	verb := []string{"%s", "%v", "%+v", "%+v", "%#v"}[w.D.N(5, "verb")]
	q, args := s.Query(), append([]any(nil), s.Args()...)
	out := fmt.Sprintf(verb, s)
	if s.Query() != q || !sameArgs(s.Args(), args) {
		w.viol("C22", "format/changes", "%s: formatting with %s changed the statement from %q %s to %q %s", c, verb, q, showAny(args), s.Query(), showAny(s.Args()))
		return
	}
	c.shown = append(c.shown, shown{q, len(args)})
	w.OpsRun["format "+verb]++
	w.Nontrivial = true
	if verb == "%s" || verb == "%v" {
		if out != q {
			w.viol("C22", "format/plain", "%s: %s of %q is %q", c, verb, q, out)
		}
		return
	}
	if d := w.rendered(q, args, out); d != "" {
		w.viol("C22", "format/args", "%s: %s of %q with %s is %q: %s", c, verb, q, showAny(args), out, d)
	}
}

// rendered compares a rendering with the statement: the text is the same and
// each placeholder is replaced by its own argument.
func (w *World) rendered(q string, args []any, out string) string {
	pg := w.V.d == eng.Postgres
	next := 0
	var quote byte
	for i := 0; i < len(q); {
		ch := q[i]
		n := 0
		arg := -1
		switch {
		case quote != 0:
			if ch == quote {
				quote = 0
			}
		case ch == '\'' || ch == '"' || ch == '`':
			quote = ch
		case !pg && ch == '?':
			arg, n = next, 1
			next++
		case pg && ch == '$':
			j := i + 1
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			if j > i+1 {
				k, _ := strconv.Atoi(q[i+1 : j])
				arg, n = k-1, j-i
			}
		}
		if arg >= len(args) {
			arg = -1
			n = 0
		}
		if arg < 0 {
			if !strings.HasPrefix(out, q[i:i+1]) {
				return fmt.Sprintf("text %q where %q belongs", cut(out), cut(q[i:]))
			}
			out = out[1:]
			i++
			continue
		}
		k := literal(out, args[arg])
		if k < 0 {
			return fmt.Sprintf("%q where argument %d, %T(%v), belongs", cut(out), arg+1, args[arg], args[arg])
		}
		out = out[k:]
		i += n
	}
	if out != "" {
		return fmt.Sprintf("%q after the end", cut(out))
	}
	return ""
}

func cut(s string) string {
	if len(s) > 40 {
		return s[:40] + "…"
	}
	return s
}

// literal says how many bytes at the start of s denote v, or -1.
func literal(s string, v any) int {
	if rv := reflect.ValueOf(v); v == nil || rv.Kind() == reflect.Pointer && rv.IsNil() {
		return word(s, "NULL")
	}
	switch x := v.(type) {
	case time.Time:
		t, n := unquote(s)
		if n < 0 {
			return -1
		}
		for _, f := range []string{time.RFC3339Nano, "2006-01-02 15:04:05.999999999Z07:00", "2006-01-02 15:04:05.999999999-07", "2006-01-02 15:04:05.999999999"} {
			if g, err := time.Parse(f, t); err == nil && g.Equal(x) {
				return n
			}
		}
		return -1
	case driver.Valuer:
		u, err := x.Value()
		if err != nil {
			return -1
		}
		return literal(s, u)
	case []byte:
		return text(s, string(x))
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Pointer:
		return literal(s, rv.Elem().Interface())
	case reflect.String:
		return text(s, rv.String())
	case reflect.Slice, reflect.Array:
		if rv.Type().Elem().Kind() == reflect.Uint8 && rv.Kind() == reflect.Slice {
			return text(s, string(rv.Bytes()))
		}
		return -1
	case reflect.Bool:
		if n := word(s, strconv.FormatBool(rv.Bool())); n >= 0 {
			return n
		}
		if rv.Bool() {
			return word(s, "1")
		}
		return word(s, "0")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return number(s, func(t string) bool { n, err := strconv.ParseInt(t, 10, 64); return err == nil && n == rv.Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return number(s, func(t string) bool { n, err := strconv.ParseUint(t, 10, 64); return err == nil && n == rv.Uint() })
	case reflect.Float32:
		return number(s, func(t string) bool {
			f, err := strconv.ParseFloat(t, 32)
			return err == nil && float32(f) == float32(rv.Float())
		})
	case reflect.Float64:
		return number(s, func(t string) bool { f, err := strconv.ParseFloat(t, 64); return err == nil && f == rv.Float() })
	}
	return -1
}

func word(s, w string) int {
	if len(s) >= len(w) && strings.EqualFold(s[:len(w)], w) {
		return len(w)
	}
	return -1
}

func number(s string, ok func(string) bool) int {
	n := 0
	for n < len(s) && (s[n] >= '0' && s[n] <= '9' || strings.IndexByte("+-.eE", s[n]) >= 0) {
		n++
	}
	for ; n > 0; n-- { // the text may go on with a digit or a sign
		if ok(s[:n]) {
			return n
		}
	}
	return -1
}

func text(s, want string) int {
	if t, n := unquote(s); n > 0 && t == want {
		return n
	}
	return -1
}

// unquote reads a quoted literal: Go's, SQL's or PostgreSQL's E'…'.
func unquote(s string) (string, int) {
	if strings.HasPrefix(s, `"`) {
		q, err := strconv.QuotedPrefix(s)
		if err != nil {
			return "", -1
		}
		t, err := strconv.Unquote(q)
		if err != nil {
			return "", -1
		}
		return t, len(q)
	}
	esc := strings.HasPrefix(s, "E'")
	i := 0
	if esc {
		i = 1
	}
	if !strings.HasPrefix(s[i:], "'") {
		return "", -1
	}
	var b []byte
	for i++; i < len(s); i++ {
		switch {
		case s[i] == '\'' && i+1 < len(s) && s[i+1] == '\'':
			b = append(b, '\'')
			i++
		case s[i] == '\'':
			return string(b), i + 1
		case esc && s[i] == '\\' && i+1 < len(s):
			i++
			if k := strings.IndexByte("bfnrt", s[i]); k >= 0 {
				b = append(b, "\b\f\n\r\t"[k])
			} else {
				b = append(b, s[i])
			}
		default:
			b = append(b, s[i])
		}
	}
	return "", -1
}

// shown is what a statement had when it was formatted.
type shown struct {
	q string
	n int
}

// judgeShown: what was formatted is what was sent, as far as it went.
func (w *World) judgeShown(c *Call) {
	switch c.Op.Kind {
	case "query", "query1", "update", "delete":
	default:
		return
	}
	for _, e := range c.Events {
		for _, x := range c.shown {
			if !strings.HasPrefix(e.Query, x.q) || len(e.Args) < x.n {
				w.viol("C22", "format/sent", "%s: formatted was %q with %d arguments, sent was %q %s", c, x.q, x.n, e.Query, showRow(e.Args))
			}
		}
	}
}
