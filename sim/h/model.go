// Package h is the harness: model registry, value codec, reference model,
// simulated worlds, workload generator, oracles and scenarios.
package h

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding"
	"encoding/json"
	"fmt"
	"math"
	"net/netip"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/si3nloong/sqlgen/sequel"
	"simws/core"
	"simws/eng"
)

type Variant struct {
	Name, Dialect string
	Quoted        bool
	Models        []*Model
	d             eng.Dialect
}

type Model struct {
	Name, Table, DB string
	Hand            bool
	Zero            any
	Ops             *Ops
	Uniques         [][]string
	Fields          []*Field

	v    *Variant
	rt   reflect.Type
	keys []int // field numbers of the primary key, in declaration order
	auto int   // field number of the generated key or -1
	uq   [][]int
}

type Field struct {
	Go, Col, Kind       string
	Null, Key, Auto, RO bool
	Default             any
	Path                []string
	C                   *Col

	idx  []int
	ft   reflect.Type
	k    eng.Kind
	json bool
	arr  bool // stored as a Postgres array
	rune bool // one character, stored as text
	odd  bool // kept out of predicates and orders
	n    int
}

// base is the type of the field without pointer.
func (f *Field) base() reflect.Type {
	if f.ft.Kind() == reflect.Pointer {
		return f.ft.Elem()
	}
	return f.ft
}

type Col struct {
	Name, SQL string
	Cmp       bool
	Where     func(op string, vals []any) sequel.WhereClause
	Set       func(v any) sequel.SetClause
	Order     func(asc bool) sequel.OrderByClause
}

type QueryArgs struct {
	Select  []string
	From    string
	Where   sequel.WhereClause
	OrderBy []sequel.OrderByClause
	GroupBy []string
	Offset  uint64
	Limit   uint16
}
type ExecArgs struct {
	Table   string
	Set     []sequel.SetClause
	Where   sequel.WhereClause
	OrderBy []sequel.OrderByClause
	Limit   uint16
}
type PageArgs struct {
	Where   sequel.WhereClause
	OrderBy []sequel.OrderByClause
	Limit   uint16
	Cursor  any
	Back    bool
}
type UpsertArgs struct {
	Override   bool
	Omit, Keys []string
}

type Ops struct {
	New        func() any
	InsertOne  func(context.Context, *sql.DB, any) (sql.Result, error)
	Insert     func(context.Context, *sql.DB, any) (sql.Result, error)
	UpsertOne  func(context.Context, *sql.DB, any, UpsertArgs) (sql.Result, error)
	Upsert     func(context.Context, *sql.DB, any, UpsertArgs) (sql.Result, error)
	FindByPK   func(context.Context, *sql.DB, any) error
	UpdateByPK func(context.Context, *sql.DB, any) (sql.Result, error)
	DeleteByPK func(context.Context, *sql.DB, any) (sql.Result, error)
	LockByPK   func(context.Context, *sql.Tx, any, string) error
	Query      func(context.Context, *sql.DB, func() QueryArgs) (any, error)
	QueryOne   func(context.Context, *sql.DB, func() QueryArgs) (any, error)
	Update     func(context.Context, *sql.DB, func() ExecArgs) (sql.Result, error)
	Delete     func(context.Context, *sql.DB, func() ExecArgs) (sql.Result, error)
	Page       func(context.Context, *sql.DB, PageArgs, func(any, error) bool)
	PageIter   func(PageArgs) func(context.Context, *sql.DB, func(any, error) bool)
	Acquire    func() sequel.Stmt
	Release    func(sequel.Stmt)
	Logic      func(string, []sequel.WhereClause) sequel.WhereClause
}

var Variants []*Variant

func Register(v *Variant) {
	v.d = map[string]eng.Dialect{"mysql": eng.MySQL, "postgres": eng.Postgres, "sqlite": eng.SQLite}[v.Dialect]
	for _, m := range v.Models {
		m.v = v
		m.rt = reflect.TypeOf(m.Zero)
		m.auto = -1
		for i, f := range m.Fields {
			f.n = i
			t := m.rt
			for _, p := range f.Path {
				if m.Hand && p != f.Go {
					continue
				}
				sf, ok := t.FieldByName(p)
				if !ok {
					panic("no field " + p + " in " + m.Name)
				}
				f.idx = append(f.idx, sf.Index...)
				t = sf.Type
			}
			f.ft = t
			f.json = f.Kind == "json"
			switch f.Kind {
			case "int":
				f.k = eng.KInt
			case "uint":
				f.k = eng.KInt
				if v.d == eng.MySQL {
					f.k = eng.KUint
				}
			case "float":
				f.k = eng.KFloat
			case "bool":
				f.k = eng.KBool
			case "text":
				f.k = eng.KText
			case "bytes":
				f.k = eng.KBytes
			case "time":
				f.k = eng.KTime
			case "json":
				f.k = eng.KJSON
				if b := f.base(); v.d == eng.Postgres && (b.Kind() == reflect.Slice || b.Kind() == reflect.Array && b.Elem().Kind() == reflect.String) {
					switch b.Elem().Kind() {
					case reflect.Struct, reflect.Slice, reflect.Map, reflect.Pointer, reflect.Interface, reflect.Array:
					default:
						f.k, f.arr = eng.KArray, true
					}
				}
			}
			b := f.base()
			f.rune = f.Kind == "text" && b.Kind() == reflect.Int32
			f.odd = f.rune || b.Kind() == reflect.Array || b.Kind() == reflect.Float32 || b.Name() == "Lvl" || b.Name() == "Addr"
			if f.Key {
				m.keys = append(m.keys, i)
			}
			if f.Auto {
				m.auto = i
			}
		}
		if m.Hand && len(m.keys) > 1 { // as its CompositeKey has them
			m.keys = append(m.keys[1:], m.keys[0])
		}
		m.uq = [][]int{m.keys}
		for _, u := range m.Uniques {
			var l []int
			for _, c := range u {
				l = append(l, m.field(c).n)
			}
			m.uq = append(m.uq, l)
		}
	}
	Variants = append(Variants, v)
	sort.Slice(Variants, func(i, j int) bool { return Variants[i].Name < Variants[j].Name })
}

func (m *Model) field(col string) *Field {
	for _, f := range m.Fields {
		if f.Col == col {
			return f
		}
	}
	panic("no column " + col)
}

func (m *Model) fv(p any, f *Field) reflect.Value {
	v := reflect.ValueOf(p)
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	return v.FieldByIndex(f.idx)
}

func (m *Model) newPtr() any { return reflect.New(m.rt).Interface() }

// clone copies a model deeply.
func (m *Model) clone(p any) any {
	q := reflect.New(m.rt)
	src := reflect.ValueOf(p)
	if src.Kind() == reflect.Pointer {
		src = src.Elem()
	}
	q.Elem().Set(src)
	for _, f := range m.Fields {
		fv := q.Elem().FieldByIndex(f.idx)
		fv.Set(deepCopy(fv))
	}
	return q.Interface()
}

func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deepCopy(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
		return n
	case reflect.String:
		n := reflect.New(v.Type()).Elem()
		n.SetString(strings.Clone(v.String()))
		return n
	case reflect.Array:
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(deepCopy(k), deepCopy(v.MapIndex(k)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return n
	}
	return v
}

// logical is the database value a Go field stands for.
func (f *Field) logical(v reflect.Value) any {
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	if f.json {
		b, err := json.Marshal(v.Interface())
		if err != nil {
			return "unmarshalable: " + err.Error()
		}
		return string(b)
	}
	if t, ok := v.Interface().(time.Time); ok {
		return t.UTC()
	}
	if vr, ok := v.Interface().(driver.Valuer); ok {
		x, err := vr.Value()
		if err != nil {
			return "invalid: " + err.Error()
		}
		if t, ok := x.(time.Time); ok {
			return t.UTC()
		}
		return x
	}
	if tm, ok := v.Interface().(encoding.TextMarshaler); ok {
		b, err := tm.MarshalText()
		if err != nil {
			return "invalid: " + err.Error()
		}
		return string(b)
	}
	if f.rune {
		return string(rune(v.Int()))
	}
	switch v.Kind() {
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Int32 {
			var b strings.Builder
			for i := 0; i < v.Len(); i++ {
				b.WriteRune(rune(v.Index(i).Int()))
			}
			return b.String()
		}
		b := make([]byte, v.Len())
		reflect.Copy(reflect.ValueOf(b), v)
		return b
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.Uint() > math.MaxInt64 || f.k == eng.KUint {
			return v.Uint()
		}
		return int64(v.Uint())
	case reflect.Float32, reflect.Float64:
		return v.Float()
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return strings.Clone(v.String())
	case reflect.Slice:
		return append([]byte{}, v.Bytes()...)
	}
	panic("logical: " + v.Type().String())
}

// row is a model value as logical column values.
func (m *Model) row(p any) []any {
	out := make([]any, len(m.Fields))
	for i, f := range m.Fields {
		out[i] = f.logical(m.fv(p, f))
	}
	return out
}

func jsonAny(s string) (any, bool) {
	var v any
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		return nil, false
	}
	return canonNum(v), true
}

func canonNum(v any) any {
	switch n := v.(type) {
	case json.Number:
		f, err := strconv.ParseFloat(string(n), 64)
		if err != nil {
			return string(n)
		}
		if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
			return f
		}
		if i, err := strconv.ParseInt(string(n), 10, 64); err == nil {
			return i
		}
		if u, err := strconv.ParseUint(string(n), 10, 64); err == nil {
			return u
		}
		return f
	case []any:
		for i := range n {
			n[i] = canonNum(n[i])
		}
	case map[string]any:
		for k := range n {
			n[k] = canonNum(n[k])
		}
	}
	return v
}

// pgArray parses a one-dimensional Postgres array literal.
func pgArray(s string, el reflect.Kind) (any, bool) {
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return nil, false
	}
	s = s[1 : len(s)-1]
	out := []any{}
	for len(s) > 0 {
		var item string
		quoted := false
		if s[0] == '"' {
			quoted = true
			i := 1
			var b strings.Builder
			for i < len(s) && s[i] != '"' {
				if s[i] == '\\' && i+1 < len(s) {
					i++
				}
				b.WriteByte(s[i])
				i++
			}
			if i >= len(s) {
				return nil, false
			}
			item, s = b.String(), s[i+1:]
		} else if i := strings.IndexByte(s, ','); i >= 0 {
			item, s = s[:i], s[i:]
		} else {
			item, s = s, ""
		}
		if len(s) > 0 {
			if s[0] != ',' {
				return nil, false
			}
			s = s[1:]
		}
		switch el {
		case reflect.Bool:
			b, err := strconv.ParseBool(item)
			if err != nil {
				return nil, false
			}
			out = append(out, b)
		case reflect.String:
			if !quoted && strings.EqualFold(item, "null") {
				out = append(out, nil)
			} else {
				out = append(out, item)
			}
		default:
			out = append(out, canonNum(json.Number(item)))
		}
	}
	return out, true
}

// canonJSON brings stored or logical structured values to one comparable form;
// nil, empty and SQL NULL collections are one value.
func (f *Field) canonJSON(v any) (any, bool) {
	var s string
	switch x := v.(type) {
	case nil:
		s = "null"
	case string:
		s = x
	case []byte:
		s = string(x)
	default:
		return v, false
	}
	t := f.ft
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if f.arr && strings.HasPrefix(strings.TrimSpace(s), "{") {
		a, ok := pgArray(s, t.Elem().Kind())
		if l, is := a.([]any); is && len(l) == 0 {
			return nil, ok
		}
		return a, ok
	}
	a, ok := jsonAny(s)
	if l, is := a.([]any); is && len(l) == 0 {
		a = nil
	}
	if l, is := a.(map[string]any); is && len(l) == 0 {
		a = nil
	}
	return dropNullLists(a), ok
}

func dropNullLists(a any) any {
	if m, ok := a.(map[string]any); ok {
		for k, v := range m {
			if l, is := v.([]any); is && len(l) == 0 {
				m[k] = nil
			}
		}
	}
	return a
}

var curVariant *Variant

func (f *Field) v() *Variant { return curVariant }

// same compares two logical/stored values of one column.
func (f *Field) same(a, b any) bool {
	if f.json {
		x, ok1 := f.canonJSON(a)
		y, ok2 := f.canonJSON(b)
		return ok1 && ok2 && reflect.DeepEqual(x, y)
	}
	if f.Kind == "bytes" {
		if a == nil {
			a = []byte{}
		}
		if b == nil {
			b = []byte{}
		}
	}
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if f.base().Kind() == reflect.Float32 {
		x, ok1 := a.(float64)
		y, ok2 := b.(float64)
		return ok1 && ok2 && float32(x) == float32(y)
	}
	switch x := a.(type) {
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case []byte:
		switch y := b.(type) {
		case []byte:
			return bytes.Equal(x, y)
		case string:
			return string(x) == y
		}
		return false
	case string:
		switch y := b.(type) {
		case []byte:
			return x == string(y)
		case string:
			return x == y
		}
		return false
	case int64:
		switch y := b.(type) {
		case int64:
			return x == y
		case uint64:
			return x >= 0 && uint64(x) == y
		}
		return false
	case uint64:
		switch y := b.(type) {
		case uint64:
			return x == y
		case int64:
			return y >= 0 && uint64(y) == x
		}
		return false
	}
	return reflect.DeepEqual(a, b)
}

func (m *Model) sameRow(a, b []any) bool { return m.diff(a, b) == "" }

func (m *Model) diff(a, b []any) string {
	for i, f := range m.Fields {
		if !f.same(a[i], b[i]) {
			return fmt.Sprintf("column %s: %s vs %s", f.Col, show(a[i]), show(b[i]))
		}
	}
	return ""
}

func show(v any) string {
	switch x := v.(type) {
	case nil:
		return "NULL"
	case []byte:
		return fmt.Sprintf("b%q", x)
	case string:
		return strconv.Quote(x)
	case time.Time:
		return x.Format(time.RFC3339Nano)
	}
	return fmt.Sprintf("%v", v)
}

func showRow(r []any) string {
	var l []string
	for _, v := range r {
		l = append(l, show(v))
	}
	return "(" + strings.Join(l, ", ") + ")"
}

func (m *Model) key(r []any) string {
	s := ""
	for _, k := range m.keys {
		s += show(r[k]) + "|"
	}
	return s
}

func (m *Model) sameKey(a, b []any) bool {
	for _, k := range m.keys {
		if !m.Fields[k].same(a[k], b[k]) {
			return false
		}
	}
	return true
}

// ---- value generation ----

var strPool = []string{"a", "b", "", "ab", "abc", "b%", "_b", "it's", "x?y", "$1", "q\"z", "back\\slash", "naïve", "漢字", "null", "a,b", "{x}", "`t`", "; --", "zz", "tab\tnl\ncr\r", "\x01\x7f", "\u2028😀", strings.Repeat("long ", 60), "<&>", " pad ", "NULL", "0", "\\\"\\"}
var tBase = time.Date(2024, 2, 3, 4, 5, 6, 0, time.UTC)

func genScalar(d *core.Decider, t reflect.Type, key, wide bool) reflect.Value {
	v := reflect.New(t).Elem()
	switch v.Interface().(type) {
	case time.Time:
		l := []time.Time{tBase, tBase.Add(time.Second), tBase.Add(time.Hour * 30), tBase.Add(1500 * time.Microsecond), time.Date(1999, 12, 31, 23, 59, 59, 0, time.UTC),
			tBase.Add(123456 * time.Microsecond).In(time.FixedZone("", 19800)), tBase.Add(7 * time.Microsecond), time.Date(2024, 2, 29, 0, 0, 0, 0, time.UTC), tBase.Add(400 * time.Millisecond), time.Date(1969, 12, 31, 23, 59, 58, 999999000, time.UTC), time.Date(9999, 12, 31, 1, 2, 3, 0, time.UTC)}
		v.Set(reflect.ValueOf(l[d.N(len(l), "time")]))
		return v
	case sql.NullString:
		if d.N(3, "null") > 0 {
			v.Set(reflect.ValueOf(sql.NullString{String: strPool[d.N(8, "str")], Valid: true}))
		}
		return v
	case sql.NullInt64:
		if d.N(3, "null") > 0 {
			v.Set(reflect.ValueOf(sql.NullInt64{Int64: int64(d.N(5, "int")), Valid: true}))
		}
		return v
	case sql.NullBool:
		if d.N(3, "null") > 0 {
			v.Set(reflect.ValueOf(sql.NullBool{Bool: d.N(2, "bool") == 1, Valid: true}))
		}
		return v
	case sql.NullInt32:
		if d.N(3, "null") > 0 {
			v.Set(reflect.ValueOf(sql.NullInt32{Int32: []int32{0, 1, -5, math.MaxInt32, math.MinInt32}[d.N(5, "int")], Valid: true}))
		}
		return v
	case sql.NullInt16:
		if d.N(3, "null") > 0 {
			v.Set(reflect.ValueOf(sql.NullInt16{Int16: []int16{0, 1, -5, math.MaxInt16, math.MinInt16}[d.N(5, "int")], Valid: true}))
		}
		return v
	case sql.NullByte:
		if d.N(3, "null") > 0 {
			v.Set(reflect.ValueOf(sql.NullByte{Byte: []byte{0, 1, 255}[d.N(3, "int")], Valid: true}))
		}
		return v
	case sql.Null[string]:
		if d.N(3, "null") > 0 {
			v.Set(reflect.ValueOf(sql.Null[string]{V: strPool[d.N(len(strPool), "str")], Valid: true}))
		}
		return v
	case netip.Addr:
		v.Set(reflect.ValueOf([]netip.Addr{{}, netip.MustParseAddr("10.0.0.1"), netip.MustParseAddr("fe80::1%eth0"), netip.MustParseAddr("::ffff:1.2.3.4")}[d.N(4, "addr")]))
		return v
	case sql.NullFloat64:
		if d.N(3, "null") > 0 {
			v.Set(reflect.ValueOf(sql.NullFloat64{Float64: float64(d.N(4, "f")) / 2, Valid: true}))
		}
		return v
	case sql.NullTime:
		if d.N(3, "null") > 0 {
			v.Set(reflect.ValueOf(sql.NullTime{Time: tBase.Add(time.Duration(d.N(4, "t")) * time.Minute), Valid: true}))
		}
		return v
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if key {
			v.SetInt(int64(1 + d.N(6, "key")))
			return v
		}
		n := d.N(10, "int")
		bits := t.Bits()
		switch {
		case n == 9 && bits == 64:
			v.SetInt(1<<53 + 1)
		case n < 5:
			v.SetInt(int64(n))
		case n == 5:
			v.SetInt(-1)
		case n == 6:
			v.SetInt(100 + int64(d.N(20, "int")))
		case n == 7:
			v.SetInt(int64(1)<<(bits-1) - 1)
		default:
			v.SetInt(-(int64(1) << (bits - 1)))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if key {
			v.SetUint(uint64(1 + d.N(6, "key")))
			return v
		}
		n := d.N(8, "uint")
		bits := t.Bits()
		if bits == 64 {
			bits = 63
		}
		switch {
		case n < 5:
			v.SetUint(uint64(n))
		case n == 5:
			v.SetUint(100 + uint64(d.N(20, "int")))
		case n == 6:
			v.SetUint(uint64(1)<<bits - 1)
		default:
			v.SetUint(uint64(1) << (bits - 1))
		}
	case reflect.Float32, reflect.Float64:
		l := []float64{0, 1, 1.5, -2.25, 0.1, 1e10, 3, 2, -1e-7, 1.0 / 3, 16777215}
		if t.Bits() == 64 {
			l = append(l, 1e300, 5e-324, 16777217, -math.MaxFloat64)
		}
		v.SetFloat(l[d.N(len(l), "float")])
	case reflect.Bool:
		v.SetBool(d.N(2, "bool") == 1)
	case reflect.String:
		if t.Name() == "Color" {
			v.SetString([]string{"red", "green", "blue", ""}[d.N(4, "enum")])
			if key && v.String() == "" {
				v.SetString("mauve")
			}
			return v
		}
		if key {
			v.SetString([]string{"k1", "k2", "k3", "k'4", "k?5", "K6"}[d.N(6, "key")])
			return v
		}
		n := len(strPool) + 1
		if !wide {
			n = 8
		}
		i := d.N(n, "str")
		if i == len(strPool) {
			v.SetString("c" + string(rune(1+d.N(0x24, "control"))))
			break
		}
		v.SetString(strPool[i])
	case reflect.Slice:
		n := d.N(4, "len")
		if n > 0 || d.N(2, "nilslice") == 1 {
			s := reflect.MakeSlice(t, n, n)
			for i := 0; i < n; i++ {
				if t.Elem().Kind() == reflect.Uint8 {
					s.Index(i).SetUint(uint64([]byte{'a', 0, 0xff, '\\', '"'}[d.N(5, "byte")]))
				} else {
					s.Index(i).Set(genScalar(d, t.Elem(), false, true))
				}
			}
			v.Set(s)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			v.Field(i).Set(genScalar(d, t.Field(i).Type, false, wide))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		for i := d.N(3, "len"); i > 0; i-- {
			v.SetMapIndex(reflect.ValueOf(strPool[d.N(len(strPool), "str")]), genScalar(d, t.Elem(), false, true))
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			switch t.Elem().Kind() {
			case reflect.Uint8:
				v.Index(i).SetUint(uint64([]byte{'a', 0, 0xff, '\\', '"'}[d.N(5, "byte")]))
			case reflect.Int32:
				v.Index(i).SetInt(int64([]rune{'a', 'é', '漢', '😀', '"', ' '}[d.N(6, "rune")]))
			default:
				v.Index(i).Set(genScalar(d, t.Elem(), false, true))
			}
		}
	default:
		panic("gen: " + t.String())
	}
	return v
}

func (f *Field) gen(d *core.Decider, wide bool) reflect.Value {
	t := f.ft
	if t.Kind() == reflect.Pointer {
		if d.N(3, "nil") == 0 {
			return reflect.Zero(t)
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(genScalar(d, t.Elem(), f.Key, wide))
		return p
	}
	if f.rune {
		return reflect.ValueOf([]rune{'a', 'é', '漢', '😀', '"', ' '}[d.N(6, "rune")]).Convert(t)
	}
	return genScalar(d, t, f.Key, wide)
}

// genModel makes a random record.
func (m *Model) genModel(d *core.Decider, wide bool) any {
	p := m.newPtr()
	for _, f := range m.Fields {
		m.fv(p, f).Set(f.gen(d, wide))
	}
	return p
}

// table is the database table of a model; perm maps model fields to columns.
func (m *Model) table(d *core.Decider) (*eng.Table, []int) {
	n := len(m.Fields)
	perm := make([]int, n) // perm[field] = column position
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	if d.P(1, 2, "colorder") {
		for i := n - 1; i > 0; i-- {
			j := d.N(i+1, "perm")
			order[i], order[j] = order[j], order[i]
		}
	}
	t := &eng.Table{Name: m.Table}
	for pos, fi := range order {
		f := m.Fields[fi]
		perm[fi] = pos
		name := f.Col
		if m.v.d == eng.Postgres && !m.v.Quoted {
			name = strings.ToLower(name) // what the server makes of a bare name
		}
		c := eng.Column{Name: name, Kind: f.k, Nullable: f.Null || f.json || f.Kind == "bytes", AutoInc: f.Auto}
		if f.RO {
			c.HasDef, c.Default = true, f.Default
		}
		t.Cols = append(t.Cols, c)
	}
	for _, u := range m.uq {
		var l []int
		for _, fi := range u {
			l = append(l, perm[fi])
		}
		t.Uniques = append(t.Uniques, l)
	}
	return t, perm
}

// sqlTable is the table as other clients write it.
func (m *Model) sqlTable() string {
	if m.v.d == eng.MySQL {
		return "`" + m.Table + "`"
	}
	return `"` + m.Table + `"`
}

// setLogical stores a logical value into a Go field.
func (m *Model) setLogical(v reflect.Value, f *Field, x any) {
	if v.Kind() == reflect.Pointer {
		if x == nil {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		p := reflect.New(v.Type().Elem())
		m.setLogical(p.Elem(), f, x)
		v.Set(p)
		return
	}
	if f.json {
		v.Set(reflect.Zero(v.Type()))
		if x == nil {
			return
		}
		a, ok := f.canonJSON(x)
		if !ok {
			panic("setLogical: " + show(x))
		}
		b, _ := json.Marshal(a)
		if err := json.Unmarshal(b, v.Addr().Interface()); err != nil {
			panic(err)
		}
		return
	}
	if t, ok := x.(time.Time); ok && v.Type() == reflect.TypeOf(t) {
		v.Set(reflect.ValueOf(t))
		return
	}
	if f.rune {
		for _, r := range fmt.Sprintf("%s", x) {
			v.SetInt(int64(r))
			break
		}
		return
	}
	if u, ok := v.Addr().Interface().(encoding.TextUnmarshaler); ok {
		if err := u.UnmarshalText([]byte(fmt.Sprintf("%s", x))); err != nil {
			panic(err)
		}
		return
	}
	if s, ok := v.Addr().Interface().(sql.Scanner); ok {
		if err := s.Scan(x); err != nil {
			panic(err)
		}
		return
	}
	switch v.Kind() {
	case reflect.Array:
		v.Set(reflect.Zero(v.Type()))
		i := 0
		if v.Type().Elem().Kind() == reflect.Int32 {
			for _, r := range fmt.Sprintf("%s", x) {
				v.Index(i).SetInt(int64(r))
				i++
			}
			return
		}
		for _, b := range []byte(fmt.Sprintf("%s", x)) {
			v.Index(i).SetUint(uint64(b))
			i++
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(toInt(x))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		switch n := x.(type) {
		case int64:
			v.SetUint(uint64(n))
		case uint64:
			v.SetUint(n)
		}
	case reflect.Float32, reflect.Float64:
		v.SetFloat(x.(float64))
	case reflect.Bool:
		v.SetBool(x.(bool))
	case reflect.String:
		switch s := x.(type) {
		case string:
			v.SetString(s)
		case []byte:
			v.SetString(string(s))
		}
	case reflect.Slice:
		switch s := x.(type) {
		case nil:
			v.Set(reflect.Zero(v.Type()))
		case []byte:
			v.SetBytes(append([]byte(nil), s...))
		case string:
			v.SetBytes([]byte(s))
		}
	default:
		panic("setLogical: " + v.Type().String())
	}
}
