"""Model specifications: the Go structs the simulator feeds to the generator.

A field is dict(go=GoName, t=GoType, col=column, k=engine kind, null=bool,
key=bool, auto=bool, ro=bool, default=literal or None, path=reflect path).
"""
import random, re

KINDS = {
    'int64': 'int', 'int': 'int', 'int32': 'int', 'int16': 'int', 'int8': 'int',
    'uint64': 'uint', 'uint': 'uint', 'uint32': 'uint', 'uint16': 'uint', 'uint8': 'uint',
    'float64': 'float', 'float32': 'float', 'bool': 'bool', 'string': 'text',
    '[]byte': 'bytes', 'time.Time': 'time',
    'Color': 'text', 'Grade': 'int', 'Meta': 'json', '[]string': 'json', '[]int64': 'json',
    '[]float64': 'json', '[]bool': 'json', 'map[string]int': 'json',
    'sql.NullString': 'text', 'sql.NullInt64': 'int', 'sql.NullBool': 'bool', 'sql.NullTime': 'time',
    'Point': 'text', 'sql.NullFloat64': 'float',
    'Strs': 'json', '[]Color': 'json', '[]NI': 'json', '[]NB': 'json', '[]Meta': 'json', '[]float32': 'json',
    '[4]byte': 'bytes', 'UID': 'bytes', '[3]rune': 'text', '[2]string': 'json', '[2]Color': 'json', '[3]int': 'json',
    'Lvl': 'text', 'netip.Addr': 'text', 'struct{ A, B int }': 'json', 'time.Duration': 'int', 'Named': 'int', 'NI': 'int',
    'NU': 'uint', 'NF': 'float', 'NB': 'bool', 'rune': 'text', 'byte': 'uint', 'sql.NullInt32': 'int', 'sql.NullInt16': 'int',
    'sql.NullByte': 'uint', 'sql.Null[string]': 'text', '[][]string': 'json', 'Bytes': 'bytes',
}
for _t in ('int', 'int8', 'int16', 'int32', 'uint', 'uint16', 'uint32', 'uint64'):
    KINDS['[]' + _t] = 'json'
LOCAL = re.compile(r'(?<![.\w])(Color|Grade|Meta|Point|Strs|NI|NB|NF|NU|Named|UID|Lvl|Bytes)\b')
NULLTYPES = {'sql.NullString', 'sql.NullInt64', 'sql.NullBool', 'sql.NullTime', 'sql.NullFloat64',
             'sql.NullInt32', 'sql.NullInt16', 'sql.NullByte', 'sql.Null[string]'}


def F(go, t, col, key=False, auto=False, ro=False, default=None, path=None, tag=None):
    base = t[1:] if t.startswith('*') else t
    return dict(go=go, t=t, col=col, k=KINDS[base], null=t.startswith('*') or base in NULLTYPES,
                key=key or auto, auto=auto, ro=ro, default=default, path=path or [go], tag=tag)


def M(name, table, fields, uniques=(), hand=None, embeds=(), db=None):
    return dict(name=name, table=table, fields=fields, uniques=[list(u) for u in uniques], hand=hand,
                embeds=list(embeds), db=db)


def fixed(q=False):
    """The fixed models. With q, identifiers need quoting."""
    c = (lambda n: {'name': 'order', 'title': 'select', 'role': 'group', 'val': 'key', 'action': 'Where',
                    'email': 'EMail', 'sku': 'primary', 'user_id': 'User_ID'}.get(n, n)) if q else (lambda n: n)
    t = (lambda n: {'users': 'table', 'members': 'Group'}.get(n, n)) if q else (lambda n: n)
    l = []
    l.append(M('User', t('users'), [
        F('ID', 'int64', 'id', auto=True), F('Name', 'string', c('name')), F('Email', 'string', c('email')),
        F('Age', '*int32', 'age'), F('Score', 'float64', 'score'), F('Active', 'bool', 'active'),
        F('Bio', '*string', 'bio'), F('CreatedAt', 'time.Time', 'created_at'), F('UpdatedAt', '*time.Time', 'updated_at'),
        F('Level', 'uint8', 'level'), F('Balance', 'uint64', 'balance'), F('Ok', '*bool', 'ok'),
    ], uniques=[[c('email')]]))
    l.append(M('Item', 'items', [
        F('Title', 'string', c('title')), F('Qty', 'int16', 'qty'), F('SKU', 'string', c('sku'), key=True),
        F('Color', 'Color', 'color'), F('Grade', 'Grade', 'grade'), F('Meta', 'Meta', 'meta'),
        F('Tags', '[]string', 'tags'), F('Nums', '[]int64', 'nums'), F('Data', '[]byte', 'data'),
        F('Rate', 'float32', 'rate'), F('Alt', 'sql.NullString', 'alt'), F('Seq', 'sql.NullInt64', 'seq'),
        F('Ratio', '*float64', 'ratio'), F('Hue', '*Color', 'hue'), F('Pos', 'Point', 'pos'),
    ]))
    l.append(M('Member', t('members'), [
        F('GroupID', 'int64', 'group_id', key=True), F('Role', 'string', c('role')),
        F('UserID', 'string', c('user_id'), key=True), F('Note', '*string', 'note'),
        F('Version', 'int64', 'version', ro=True, default=7), F('Weight', 'uint32', 'weight'),
    ]))
    l.append(M('Counter', 'counters', [
        F('ID', 'uint64', 'id', key=True), F('Val', 'int64', c('val')), F('Note', 'string', 'note')]))
    l.append(M('Audit', 'audits', [
        F('CreatedBy', 'string', 'created_by', path=['Base', 'CreatedBy']),
        F('Seen', '*bool', 'seen', path=['Base', 'Seen']),
        F('Action', 'string', c('action')), F('Ver', 'int64', 'ver', ro=True, default=3),
        F('ID', 'int64', 'id', auto=True), F('Amount', 'int64', 'amount'),
    ], uniques=[['created_by', c('action')]], embeds=['Base']))
    l.append(M('Bag', 'bags', [
        F('ID', 'int64', 'id', key=True), F('Strs', '[]string', 'strs'), F('Ints', '[]int64', 'ints'), F('Smalls', '[]int32', 'smalls'),
        F('Units', '[]uint16', 'units'), F('Flags', '[]bool', 'flags'), F('Reals', '[]float64', 'reals'), F('Raw', '[]byte', 'raw'),
        F('Opt', '*[]string', 'opt'), F('Attrs', 'map[string]int', 'attrs'), F('Sub', '*Meta', 'sub'), F('Fix', '[4]byte', 'fix'),
        F('When', '*time.Time', 'when_at'), F('Pair', '[2]string', 'pair'), F('Metas', '[]Meta', 'metas')]))
    l.append(M('Misc', 'miscs', [
        F('Rate', 'NF', 'rate4'), F('ID', 'Named', 'id', key=True), F('Dur', 'time.Duration', 'dur'), F('Ch', 'rune', 'ch'),
        F('UID', 'UID', 'uid'), F('Lvl', 'Lvl', 'lvl'), F('Seen', '*time.Time', 'seen_at'), F('Num', 'uint', 'num'), F('Cnt', '*int', 'cnt'),
        F('On', 'NB', 'on_off'), F('N32', 'sql.NullInt32', 'n32'), F('NS', 'sql.Null[string]', 'ns'), F('Runes', '[3]rune', 'runes'),
        F('B', 'byte', 'b1'), F('Anon', 'struct{ A, B int }', 'anon'), F('Half', '*float32', 'half')]))
    l.append(M('Plain', 'plains', [
        F('A', 'string', 'a'), F('ID', 'int64', 'id', key=True), F('B', '*int64', 'b'), F('C', 'bool', 'c')], hand='pk'))
    l.append(M('PlainPair', 'pairs', [
        F('X', 'string', 'x'), F('K1', 'int64', 'k1', key=True), F('Y', 'int64', 'y'), F('K2', 'string', 'k2', key=True),
        F('Z', '*string', 'z')], hand='composite', db='main'))
    return l


RT = ['int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint32', 'uint64', 'float64', 'float32', 'bool',
      'string', 'string', 'time.Time', '[]byte', '*int64', '*string', '*bool', '*float64', '*time.Time', '*uint16',
      'Color', 'Grade', '*Color', '*Grade', '[]string', '[]int64', '[]float64', 'Meta', 'sql.NullString', 'sql.NullInt64',
      'sql.NullBool', 'sql.NullTime', 'Point', '[]bool']
# The less common ones
RT2 = ['int', 'uint', 'Named', 'NI', 'NU', 'NF', 'NB', '*Named', '*NF', '*NB', '*int', '*uint8', '*uint64', '*float32', '*int16',
       '[]int', '[]int8', '[]int16', '[]int32', '[]uint', '[]uint16', '[]uint32', '[]uint64', '[]float32', '[]Color', '[]NI',
       '[]NB', 'Strs', '*[]string', '*[]byte', '[4]byte', '[3]rune', '[2]string', '[2]Color', '[3]int', 'UID', '*UID', 'Lvl', '*Lvl',
       'netip.Addr', '*netip.Addr', 'map[string]int', '*Meta', '[]Meta', 'struct{ A, B int }', 'time.Duration', '*time.Duration',
       'sql.NullInt32', 'sql.NullInt16', 'sql.NullByte', 'sql.Null[string]', '*sql.NullString', 'rune', 'byte', '[][]string', 'Bytes',
       '*[]int64', '*map[string]int', '*Strs', 'sql.NullFloat64', '*Point']
KEYT = ['int64', 'int32', 'uint32', 'uint64', 'string', 'Color', 'Grade', 'int16', 'uint8']


# Go names of untagged fields, with the column each convention makes of them
WORDS = ['Alpha', 'BravoOne', 'CharlieTwoThree', 'Delta', 'EchoFoxtrot', 'Golf', 'HotelIndia', 'JulietKiloLima', 'Mike', 'NovemberOscar', 'Papa', 'QuebecRomeo', 'Sierra', 'TangoUniform']


def naming(conv, n):
    if conv == 'snake_case':
        return re.sub(r'(?<=[a-z])([A-Z])', r'_\1', n).lower()
    return n[0].lower() + n[1:] if conv == 'camelCase' else n


def rand_model(rng, i, q=False, conv='snake_case'):
    n = rng.randint(3, 9)
    keyk = rng.choice(['auto', 'pk', 'composite', 'composite', 'auto', 'pk'])
    fields = []
    nk = {'auto': 1, 'pk': 1, 'composite': rng.randint(2, 3)}[keyk]
    kinds = ['k'] * nk + ['f'] * n
    rng.shuffle(kinds)
    embed = rng.random() < 0.3
    nro = 0
    for j, kk in enumerate(kinds):
        go, col = 'F%d%s' % (j, rng.choice(['', 'Name', 'ID', 'X'])), rng.choice(['c%d', 'col_%d', 'Z%d' if q else 'z%d', 'f%d_x']) % j
        if q and rng.random() < .4:
            col = ['select', 'from', 'where', 'order', 'group', 'limit', 'index', 'values', 'set', 'table', 'key', 'desc', 'user', 'and'][j]
        named = rng.random() < .75
        if not named:
            go = WORDS[j]
            col = naming(conv, go)
        if kk == 'k':
            t = rng.choice(['int64', 'int64', 'int32', 'uint32', 'uint64']) if keyk == 'auto' else rng.choice(KEYT)
            fields.append(F(go, t, col, key=True, auto=keyk == 'auto'))
        else:
            t = rng.choice(RT if rng.random() < .6 else RT2)
            ro = False
            default = None
            if t in ('int64', 'int32', 'string') and rng.random() < .35 and nro < 2 and n - nro > 2:
                ro, default = True, (rng.randint(1, 90) if t != 'string' else 'dflt')
                nro += 1
            elif (t.startswith('*') or t in ('sql.NullString', 'sql.NullInt64', 'sql.NullTime', '[]byte')) and rng.random() < .25 and nro < 2 and n - nro > 2:
                ro, default = True, rng.choice([None, {'*int64': 5, '*string': 'dflt', 'sql.NullString': 'dflt', 'sql.NullInt64': 6}.get(t)])
                nro += 1
            fields.append(F(go, t, col, ro=ro, default=default))
        fields[-1]['named'] = named
    name = 'Rand%d' % i
    embeds = []
    if embed and len(fields) > 3:
        k = rng.randint(1, 2)
        en = 'Emb%d' % i
        for f in fields[:k]:
            f['path'] = [en, f['go']]
        embeds = [en]
    m = M(name, 'rand%d' % i, fields, embeds=embeds)
    if rng.random() < .3:
        m['name'] = 'Rand' + chr(65 + i)
        m['table'], m['named'] = naming(conv, m['name']), False
    return m


def tag(f):
    o = [f['col'] if f.get('named', True) else '']
    if f['auto']:
        o.append('auto_increment')
    elif f['key']:
        o.append('primary_key')
    if f['ro']:
        o.append('readonly')
    return '`sql:"%s"`' % ','.join(o) if o != [''] else ''


PRELUDE = '''
type Color string

const (
	Red   Color = "red"
	Green Color = "green"
)

type Grade int32

type Meta struct {
	K string
	N int
	L []int
}

type (
	Strs  []string
	Bytes []byte
	NI    int64
	NB    bool
	NF    float32
	NU    uint
	Named int
	UID   [16]byte
)

// Lvl is text in the database.
type Lvl struct{ N int }

func (l Lvl) MarshalText() ([]byte, error) { return []byte("L" + strconv.Itoa(l.N)), nil }

func (l *Lvl) UnmarshalText(b []byte) error {
	if len(b) < 2 || b[0] != 'L' {
		return errors.New("lvl: malformed")
	}
	n, err := strconv.Atoi(string(b[1:]))
	if err != nil {
		return err
	}
	l.N = n
	return nil
}

// Point stores itself as text.
type Point struct{ X, Y int }

func (p Point) Value() (driver.Value, error) { return strconv.Itoa(p.X) + ":" + strconv.Itoa(p.Y), nil }

func (p *Point) Scan(src any) error {
	var s string
	switch v := src.(type) {
	case string:
		s = v
	case []byte:
		s = string(v)
	default:
		return errors.New("point: unsupported source")
	}
	i := strings.IndexByte(s, ':')
	if i < 0 {
		return errors.New("point: malformed")
	}
	x, err := strconv.Atoi(s[:i])
	if err != nil {
		return err
	}
	y, err := strconv.Atoi(s[i+1:])
	if err != nil {
		return err
	}
	p.X, p.Y = x, y
	return nil
}

var (
	_ time.Time
	_ sql.NullString
	_ netip.Addr
)
'''


def emit_models(models, pkg='m'):
    o = ['package %s\n\nimport (\n\t"database/sql"\n\t"database/sql/driver"\n\t"errors"\n\t"net/netip"\n\t"strconv"\n\t"strings"\n\t"time"\n\n\t"github.com/si3nloong/sqlgen/sequel"\n)\n' % pkg, PRELUDE]
    for m in models:
        if m['hand']:
            continue
        embs = {}
        body = []
        for f in m['fields']:
            line = '\t%s %s %s' % (f['go'], f['t'], tag(f))
            if len(f['path']) > 1:
                e = f['path'][0]
                if e not in embs:
                    embs[e] = []
                    body.append('\t' + e)
                embs[e].append(line)
            else:
                body.append(line)
        o.append('type %s struct {\n%s%s\n}\n' % (m['name'], '\t_ sequel.TableName `sql:"%s"`\n' % m['table'] if m.get('named', True) else '', '\n'.join(body)))
        for e, ls in embs.items():
            # embedded parts are unexported fields' carriers: no table of their own
            o.append('// +sql:ignore\ntype %s struct {\n%s\n}\n' % (e, '\n'.join(ls)))
    return '\n'.join(o)


def emit_hand(models, dialect, pkg='m'):
    """Hand-written models: only the minimal methods."""
    o = ['package %s\n\nimport "strconv"\n\nvar _ = strconv.Itoa\n' % pkg]
    for m in models:
        if not m['hand']:
            continue
        n = m['name']
        o.append('type %s struct {\n%s\n}\n' % (n, '\n'.join('\t%s %s' % (f['go'], f['t']) for f in m['fields'])))
        o.append('func (%s) TableName() string { return "%s" }\nfunc (%s) HasPK() {}\n' % (n, m['table'], n))
        if m['db']:
            o.append('func (%s) DatabaseName() string { return "%s" }\n' % (n, m['db']))
        o.append('func (%s) Columns() []string { return []string{%s} }\n' % (n, ', '.join('"%s"' % f['col'] for f in m['fields'])))
        o.append('func (v %s) Values() []any { return []any{%s} }\n' % (n, ', '.join(
            ('ptrVal(v.%s)' if f['t'].startswith('*') else 'v.%s') % f['go'] for f in m['fields'])))
        o.append('func (v *%s) Addrs() []any { return []any{%s} }\n' % (n, ', '.join('&v.%s' % f['go'] for f in m['fields'])))
        keys = [(i, f) for i, f in enumerate(m['fields']) if f['key']]
        if m['hand'] == 'pk':
            i, f = keys[0]
            o.append('func (v %s) PK() (string, int, any) { return "%s", %d, v.%s }\n' % (n, f['col'], i, f['go']))
        else:
            # The parts of a key have no order to keep
            keys = keys[1:] + keys[:1]
            o.append('func (v %s) CompositeKey() ([]string, []int, []any) { return []string{%s}, []int{%s}, []any{%s} }\n' % (
                n, ', '.join('"%s"' % f['col'] for _, f in keys), ', '.join(str(i) for i, _ in keys), ', '.join('v.' + f['go'] for _, f in keys)))
        nf = len(m['fields'])
        if dialect == 'postgres':
            o.append('func (%s) InsertPlaceholders(row int) string {\n\ts := "("\n\tfor i := 1; i <= %d; i++ {\n\t\tif i > 1 {\n\t\t\ts += ","\n\t\t}\n\t\ts += "$" + strconv.Itoa(row*%d+i)\n\t}\n\treturn s + ")"\n}\n' % (n, nf, nf))
        else:
            o.append('func (%s) InsertPlaceholders(int) string { return "(%s)" }\n' % (n, ','.join('?' * nf)))
    o.append('func ptrVal[T any](p *T) any {\n\tif p == nil {\n\t\treturn nil\n\t}\n\treturn *p\n}\n')
    return '\n'.join(o)
