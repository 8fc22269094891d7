"""Builds simulation workspaces: sources -> /repo's generator -> test binary."""
import json, os, random, shutil, subprocess, sys, tempfile, time
import spec

REPO = os.environ.get('SIM_REPO') or '/repo'
GO24 = '/opt/veriftools/go1.24.13/bin/go'
GO25 = '/opt/veriftools/go1.25.14/bin/go'
SIM = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def env(**kw):
    e = dict(os.environ)
    e.pop('GOROOT', None)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-buildvcs=false -mod=mod', GONOSUMDB='*', GOFLAGS_EXTRA='', GOWORK='off')
    e.setdefault('HOME', '/root')
    e.update(kw)
    return e


def run(cmd, cwd=None, env=None, timeout=600, check=True, inp=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    if check and p.returncode != 0:
        raise RuntimeError('%s failed (%d) in %s\n%s\n%s' % (' '.join(cmd), p.returncode, cwd, p.stdout[-4000:], p.stderr[-8000:]))
    return p


def build_cli(out):
    run([GO24, 'build', '-o', out, '.'], cwd=REPO + '/cmd/sqlgen', env=env(GOWORK=REPO + '/go.work', GOFLAGS='-buildvcs=false'))


CFG = '''src:
  - ./%(dir)s
driver: %(driver)s
naming_convention: %(conv)s
struct_tag: %(tag)s
quote_identifier: %(quote)s
strict: true
exec:
  skip_empty: false
  filename: %(out)s
getter:
  prefix: %(getter)s
database:
  package: db%(v)s
  dir: db/%(v)s
  filename: %(dbfile)s
  operator:
    package: %(oppkg)s
    dir: %(opdir)s
    filename: %(opfile)s
source_map: false
skip_header: false
skip_mod_tidy: true
'''

VARIANTS = {'my': ('mysql', False), 'pg': ('postgres', False), 'sl': ('sqlite', False),
            'myq': ('mysql', True), 'pgq': ('postgres', True), 'slq': ('sqlite', True)}


def config_for(v, seed):
    """The part of the configuration that varies."""
    r = random.Random('config %s/%s' % (seed, v))
    c = dict(tag=r.choice(['sql', 'sql', 'db', 'orm']), getter=r.choice(['Column', 'Column', 'Get', 'Col']),
             conv=r.choice(['snake_case', 'camelCase', 'PascalCase']), out=r.choice(['generated.go', 'zz_gen.go', 'a_models.go']),
             dbfile=r.choice(['db.go', 'query.go']), opfile=r.choice(['operator.go', 'expr.go']),
             oppkg='db' + v, opdir='db/' + v)
    if not VARIANTS[v][1]:
        c['conv'] = 'snake_case'  # unquoted names are in lower case
    if r.random() < .5:
        c['oppkg'], c['opdir'] = r.choice([('op', 'op/' + v), ('expr', 'internal/expr/' + v)])
    return c


def models_for(v, seed, nrand):
    dialect, q = VARIANTS[v]
    conv = config_for(v, seed)['conv']
    ms = spec.fixed(q)
    rng = random.Random('%s/%s/%d' % (seed, v, 0))
    for i in range(nrand):
        ms.append(spec.rand_model(rng, i, q, conv))
    return ms


def gen_variant(root, cli, v, models, seed):
    dialect, q = VARIANTS[v]
    c = config_for(v, seed)
    d = os.path.join(root, 'm' + v)
    os.makedirs(d, exist_ok=True)
    open(d + '/models.go', 'w').write(spec.emit_models(models, 'm').replace('`sql:"', '`%s:"' % c['tag']))
    hd = os.path.join(root, 'hand' + v)
    os.makedirs(hd, exist_ok=True)
    open(hd + '/hand.go', 'w').write(spec.emit_hand(models, dialect, 'hand'))
    cfg = os.path.join(root, 'cfg_%s.yml' % v)
    open(cfg, 'w').write(CFG % dict(dir='m' + v, driver=dialect, quote='true' if q else 'false', v=v, **c))
    return run([cli, '-c', os.path.basename(cfg)], cwd=root, env=env(PATH=os.path.dirname(GO24) + ':' + os.environ['PATH']), check=False)


def goq(s):
    return json.dumps(s)


def reg(v, models, seed):
    dialect, q = VARIANTS[v]
    getter = config_for(v, seed)['getter']
    o = ['package glue_%s\n\nimport (\n\t"database/sql"\n\t"net/netip"\n\t"time"\n\n\t"github.com/si3nloong/sqlgen/sequel"\n\tm "simws/m%s"\n\thm "simws/hand%s"\n\t"simws/h"\n)\n' % (v, v, v),
         'var (\n\t_ time.Time\n\t_ sql.NullString\n\t_ netip.Addr\n\t_ sequel.TableName\n)\n',
         'func init() {\n\th.Register(&h.Variant{Name: %s, Dialect: %s, Quoted: %s, Models: []*h.Model{' % (goq(v), goq(dialect), 'true' if q else 'false')]
    for m in models:
        pk = 'hm' if m['hand'] else 'm'
        o.append('\t\t{Name: %s, Table: %s, DB: %s, Hand: %s, Zero: %s.%s{}, Ops: mkOps[%s.%s, *%s.%s](), Uniques: [][]string{%s}, Fields: []*h.Field{' % (
            goq(m['name']), goq(m['table']), goq(m['db'] or ''), 'true' if m['hand'] else 'false', pk, m['name'], pk, m['name'], pk, m['name'],
            ', '.join('{' + ', '.join(goq(c) for c in u) + '}' for u in m['uniques'])))
        for f in m['fields']:
            base = f['t'].lstrip('*')
            t = spec.LOCAL.sub(r'm.\1', f['t'])
            if m['hand']:
                conv = 'func(v %s) any { if v == nil { return nil }; return *v }' % t if t.startswith('*') else 'func(v %s) any { return v }' % t
                col = 'sequel.Column(%s, *new(%s), %s)' % (goq(f['col']), t, conv)
            else:
                col = 'm.%s{}.%s%s()' % (m['name'], getter, f['go'])
            mk = 'mkCol' if not base.startswith(('[', 'map', 'struct')) and base not in ('Meta', 'rune', 'Strs', 'Bytes', 'UID', 'Lvl', 'netip.Addr') else 'mkColAny'
            o.append('\t\t\t{Go: %s, Col: %s, Kind: %s, Null: %s, Key: %s, Auto: %s, RO: %s, Default: %s, Path: []string{%s}, C: %s[%s](%s, %s)},' % (
                goq(f['go']), goq(f['col']), goq(f['k']), str(f['null']).lower(), str(f['key']).lower(), str(f['auto']).lower(),
                str(f['ro']).lower(), ('nil' if f['default'] is None else ('int64(%d)' % f['default'] if isinstance(f['default'], int) else goq(f['default']))),
                ', '.join(goq(p) for p in f['path']), mk, t, goq(f['col']), col))
        o.append('\t\t}},')
    o.append('\t}})\n}\n')
    return '\n'.join(o)


def write_mod(root, gover='1.24.0'):
    open(root + '/go.mod', 'w').write('module simws\n\ngo %s\n\nrequire github.com/si3nloong/sqlgen v0.0.0\n\nreplace github.com/si3nloong/sqlgen => %s\n' % (gover, REPO))
    shutil.copy(REPO + '/go.sum', root + '/go.sum')
