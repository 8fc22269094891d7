"""Project trees for the generator simulation: sources in several versions, the
configuration, the files of others, and what the output has to contain."""
import random, re
import ws

GOMOD = 'module scr\n\ngo 1.24.0\n\nrequire github.com/si3nloong/sqlgen v0.0.0\n\nreplace github.com/si3nloong/sqlgen => %s\n' % ws.REPO
NAMES = ['Name', 'Age', 'Email', 'Price', 'Active', 'Created', 'Updated', 'FirstName', 'LastName', 'Note', 'Score', 'Photo', 'Level', 'City', 'Country', 'Rank', 'Flags', 'Total', 'OwnerRef', 'ZipCode']
TYPES = ['string', 'int64', 'bool', 'float64', '[]byte', 'time.Time', '*string', '*int64', '*time.Time', 'uint8', 'int', 'float32', 'Kind', '*Kind', 'uint64', '*bool']
STRUCTS = ['User', 'Account', 'Order', 'Item', 'Invoice', 'Ticket', 'Event', 'Session', 'Device', 'Region', 'Zone', 'Batch']
DIRS = ['model', 'entity', 'internal/user', 'a/b/c', 'store-front', 'pkg/domain', 'zeta', 'b', 'x1']


def naming(conv, n):
    if conv == 'snake_case':
        return re.sub(r'(?<=[a-z0-9])([A-Z])', r'_\1', n).lower()
    if conv == 'camelCase':
        return n[0].lower() + n[1:]
    return n


class Tree:
    """One project. files(v) are the sources of version v, expect(v) what each
    generated model file has to declare."""

    def __init__(self, tid):
        r = random.Random('tree %s' % tid)
        self.id = tid
        self.r = r
        # Without imports a run takes a tenth of the time: more histories, more packages
        self.light = int(tid.split('.')[0]) // 8 % 2 == 1
        self.types = [x for x in TYPES if not self.light or 'time.' not in x]
        self.driver = r.choice(['mysql', 'postgres', 'sqlite'])
        self.conv = r.choice(['snake_case', 'snake_case', 'camelCase', 'PascalCase'])
        self.tag = r.choice(['sql', 'sql', 'sql', 'db'])
        self.out = r.choice(['generated.go', 'generated.go', 'generated.go', 'zz_models.go', 'sqlgen.gen.go'])
        self.quote = r.random() < .3
        self.tidy = r.random() < .2
        self.skip_empty = r.random() < .15
        self.dbdir = r.choice(['db', 'db', 'internal/store', 'out/db/v1'])
        self.dbfile = r.choice(['db.go', 'db.go', 'query.go'])
        self.opdir = r.choice([self.dbdir, self.dbdir, 'op', 'internal/expr'])
        self.opfile = 'operator.go'
        self.getter = r.choice(['Column', 'Column', 'Get'])
        n = r.choice([1, 2, 3, 4, 5] if self.light else [1, 2, 2, 3, 3])
        self.dirs = r.sample(DIRS, n)
        if r.random() < .2:
            self.dirs[0] = '.'
        self.base = n > 1 and r.random() < .6
        v0 = [self.package(i, d) for i, d in enumerate(self.dirs)]
        if self.base:
            # The first package embeds a struct of the last one
            src, dst = v0[-1], v0[0]
            emb = src['structs'][0]
            if dst is not src and emb['name'] != dst['structs'][0]['name'] and src['dir'] != '.':
                dst['structs'][0]['embed'] = (src['dir'], src['name'], emb['name'])
        self.v = [v0]
        self.v.append(self.evolve(v0, True))
        self.v.append(self.evolve(self.v[1], False))
        self.sources()
        self.bystand()

    # -- sources --
    def struct(self, name, pk=True):
        r = self.r
        f = []
        if pk:
            k = r.random()
            f.append(['ID', 'int64', 'id', 'pk,auto_increment' if k < .6 else 'pk'])
            if k > .85:
                f.append(['Tenant', 'string', 'tenant', 'pk'])
        for n in r.sample(NAMES, r.randint(2, 5)):
            f.append([n, r.choice(self.types), r.choice(['', '', n.lower() + '_c']), r.choice(['', '', '', 'readonly']) if pk else ''])
        return dict(name=name, fields=f, embed=None, file=0, kind=r.choice(['plain'] * 8 + ['group', 'annot']))

    def package(self, i, d):
        r = self.r
        nm = r.sample(STRUCTS, r.randint(1, 3))
        st = [self.struct(x, r.random() < .85) for x in nm]
        nf = r.randint(1, 3)
        for s in st:
            s['file'] = r.randrange(nf)
        if st[0]['kind'] == 'annot':
            st[0]['kind'] = 'plain'
        if len(st) > 1 and r.random() < .3:
            # An embedded struct of the same package
            st[1]['local'] = 'common'
        return dict(dir=d, name='root' if d == '.' else re.sub('[^a-z0-9]', '', d.split('/')[-1]), structs=st, files=['types.go', 'user_model.go', 'more.go'][:nf] if nf > 1 else ['model.go'],
                    noise=r.random() < (0 if self.light else .5), empty=False)

    def evolve(self, pkgs, grow):
        r = self.r
        out = []
        for p in pkgs:
            q = dict(p, structs=[dict(s, fields=[list(f) for f in s['fields']]) for s in p['structs']], files=list(p['files']))
            s = q['structs'][0]
            if grow:
                free = [n for n in NAMES if n not in [f[0] for f in s['fields']]]
                s['fields'].insert(r.randint(1, len(s['fields'])), [r.choice(free), r.choice(self.types), '', ''])
                free = [n for n in STRUCTS if n not in [x['name'] for x in q['structs']]]
                if r.random() < .7:
                    x = self.struct(r.choice(free))
                    x['kind'] = 'plain'
                    if r.random() < .5:
                        q['files'].append('added.go')
                        x['file'] = len(q['files']) - 1
                    q['structs'].append(x)
            else:
                k = r.random()
                if k < .35 and len(q['structs']) > 1:
                    q['structs'].pop()
                elif k < .55 and p is not pkgs[-1]:
                    q['empty'] = True
                else:
                    f = s['fields'][-1]
                    f[2] = 'renamed_c'
            out.append(q)
        return out

    def tagof(self, f):
        t = f[2] + (',' + f[3] if f[3] else '')
        return ' `%s:"%s"`' % (self.tag, t) if t else ''

    def render(self, p):
        """{rel path: text} of a package."""
        files = {}
        d = '' if p['dir'] == '.' else p['dir'] + '/'
        if p['empty']:
            files[d + p['files'][0]] = 'package %s\n\n// Nothing but constants.\nconst Version = 3\n\nfunc Twice(n int) int { return 2 * n }\n' % p['name']
            return files
        for i, fn in enumerate(p['files']):
            body = []
            imps = set()
            for s in p['structs']:
                if s['file'] != i:
                    continue
                lines = []
                if s['embed']:
                    ed, en, es = s['embed']
                    imps.add('"scr/%s"' % ed if ed.split('/')[-1] == en else '%s "scr/%s"' % (en, ed))
                    lines.append('\t%s.%s' % (en, es))
                if s.get('local'):
                    lines.append('\tcommon')
                for f in s['fields']:
                    if 'time.' in f[1]:
                        imps.add('"time"')
                    lines.append('\t%s %s%s' % (f[0], f[1], self.tagof(f)))
                lines.append('\thidden int')
                if s['kind'] == 'group':
                    body.append('type (\n\t// %s is a model.\n\t%s struct {\n%s\n\t}\n)\n' % (s['name'], s['name'], '\n'.join(lines)))
                else:
                    doc = '// %s is a model.\n' % s['name']
                    if s['kind'] == 'annot':
                        doc = '// +sql:ignore\n'
                    body.append('%stype %s struct {\n%s\n}\n' % (doc, s['name'], '\n'.join(lines)))
            if i == 0:
                body.append('// Kind is a named type.\ntype Kind int32\n\ntype shape interface{ Area() int }\n\ntype Pair[T any] struct{ A, B T }\n')
                if any(s.get('local') for s in p['structs']):
                    body.append('type common struct {\n\tOrigin string\n\tSerial int64 `%s:"serial_c"`\n}\n' % self.tag)
            t = 'package %s\n\n' % p['name']
            if imps:
                t += 'import (\n%s\n)\n\n' % '\n'.join('\t' + x for x in sorted(imps))
            files[d + fn] = t + '\n'.join(body)
        if p['noise']:
            files[d + 'helper.go'] = 'package %s\n\nimport "strings"\n\n// Clean is no model.\nfunc Clean(s string) string { return strings.TrimSpace(s) }\n' % p['name']
        return files

    def files(self, v):
        out = {}
        for p in self.v[v]:
            out.update(self.render(p))
        return out

    # -- the configuration --
    def sources(self):
        r = self.r
        k = r.random()
        self.skipped = []
        first = self.v[0][0]
        if k < .55:
            self.src = ['./**/*']
        elif k < .75:
            self.src = ['./' + d if d != '.' else '.' for d in self.dirs]
            if len(self.dirs) > 1 and r.random() < .5:
                self.src.pop()
                self.skipped.append(self.dirs[-1])
        elif k < .85:
            self.src = [('./%s/*.go' % d).replace('/./', '/') for d in self.dirs]
        elif k < .93:
            # Single files: one of each folder, some folders with several
            self.src = []
            for p in self.v[0]:
                fs = p['files'][:1] if r.random() < .4 else p['files'][:]
                if r.random() < .5:
                    fs.reverse()
                self.src += [('./%s/%s' % (p['dir'], f)).replace('/./', '/') for f in fs]
            if r.random() < .5:
                r.shuffle(self.src)
        elif k < .97:
            # Sources which have folders in common
            self.src = ['./**/*']
            for p in self.v[0]:
                self.src.insert(r.randrange(len(self.src) + 1), ('./%s/%s' % (p['dir'], r.choice([p['files'][0], '*.go', p['files'][-1]]))).replace('/./', '/'))
        else:
            self.src = ['./**/*.go']
        self.byfile = {}
        for s in self.src:
            if s.endswith('.go') and '*' not in s and not any('*' in x for x in self.src):
                d, f = s[2:].rsplit('/', 1) if '/' in s[2:] else ('.', s[2:])
                self.byfile.setdefault(d, set()).add(f)

    def config(self, **over):
        c = dict(driver=self.driver, dbdir=self.dbdir, dbfile=self.dbfile, src=self.src)
        c.update(over)
        t = 'src:\n%s\ndriver: %s\nnaming_convention: %s\nstruct_tag: %s\nquote_identifier: %s\nstrict: true\n' % ('\n'.join('  - "%s"' % s for s in c['src']), c['driver'], self.conv, self.tag, str(self.quote).lower())
        t += 'exec:\n  skip_empty: %s\n  filename: %s\ngetter:\n  prefix: %s\n' % (str(self.skip_empty).lower(), self.out, self.getter)
        t += 'database:\n  package: db\n  dir: %s\n  filename: %s\n  operator:\n    package: %s\n    dir: %s\n    filename: %s\n' % (c['dbdir'], c['dbfile'], 'db' if self.opdir == self.dbdir else 'op', self.opdir, self.opfile)
        t += 'skip_mod_tidy: %s\n' % str(not self.tidy).lower()
        return t + c.get('extra', '')

    def alt(self):
        """The same project for another database."""
        return self.config(driver={'mysql': 'postgres', 'postgres': 'sqlite', 'sqlite': 'mysql'}[self.driver])

    def outs(self):
        o = [(d + '/' + self.out).removeprefix('./') for d in self.dirs if d not in self.skipped]
        return o + [self.dbdir + '/' + self.dbfile, self.opdir + '/' + self.opfile]

    def expect(self, v):
        """{model file: {struct: columns}}; None means that there must not be one."""
        e = {}
        for p in self.v[v]:
            if p['dir'] in self.skipped:
                continue
            path = (p['dir'] + '/' + self.out).removeprefix('./')
            e[path] = None if p['empty'] else {}
            if p['empty']:
                continue
            for s in p['structs']:
                if p['dir'] in self.byfile and p['files'][s['file']] not in self.byfile[p['dir']]:
                    continue
                if s['kind'] == 'annot':
                    continue
                e[path][s['name']] = self.columns(v, p, s)
            if not any(True for s in p['structs'] if not (p['dir'] in self.byfile and p['files'][s['file']] not in self.byfile[p['dir']])):
                e[path] = 'any'
            elif not e[path]:
                e[path] = 'any'
        return e

    def columns(self, v, p, s):
        c = []
        if s['embed']:
            ed, _, es = s['embed']
            q = [q for q in self.v[v] if q['dir'] == ed][0]
            c += self.columns(v, q, [x for x in q['structs'] if x['name'] == es][0])
        if s.get('local'):
            c += [naming(self.conv, 'Origin'), 'serial_c']
        own = [f[2] or naming(self.conv, f[0]) for f in s['fields']]
        return c + own

    def valid(self):
        """Whether no struct has two columns of one name."""
        for v in range(len(self.v)):
            for p in self.v[v]:
                if p['empty']:
                    continue
                for s in p['structs']:
                    c = self.columns(v, p, s)
                    if len(set(c)) != len(c):
                        return False
                    if s['embed']:
                        q = [q for q in self.v[v] if q['dir'] == s['embed'][0]]
                        if not q or q[0]['empty'] or s['embed'][2] not in [x['name'] for x in q[0]['structs']]:
                            return False
                        # Two keys of which one is counted by the database
                        if sum('auto_increment' in f[3] for f in s['fields']) and any('pk' in f[3] for x in q[0]['structs'] if x['name'] == s['embed'][2] for f in x['fields']):
                            return False
                        if s['embed'][2] in [x['name'] for x in q[0]['structs'] if x['embed']]:
                            return False
        return True

    # -- the files of others --
    def bystand(self):
        r = self.r
        d = self.dirs[0]
        pre = '' if d == '.' else d + '/'
        pn = self.v[0][0]['name']
        self.other = {
            'go.mod': (GOMOD, 0o644),
            'README.md': ('# a project\n', 0o644),
            '.env': ('SECRET=1\n', 0o600),
            'Makefile': ('gen:\n\tsqlgen\n', 0o644),
            pre + 'notes.txt': ('remember\n', 0o444),
            pre + 'zz_test.go': ('package %s\n\ntype Fixture struct {\n\tID int64\n}\n' % pn, 0o644),
            pre + 'proto.pb.go': ('// Code generated by protoc-gen-go. DO NOT EDIT.\n\npackage %s\n\ntype Message struct {\n\tBody string\n}\n' % pn, 0o644),
            pre + self.out + '.bak': ('// Code generated by sqlgen. DO NOT EDIT.\nold\n', 0o644),
            pre + '.' + self.out + '.swp': ('swap\n', 0o600),
            'util/util.go': ('package util\n\n// Add adds.\nfunc Add(a, b int) int { return a + b }\n', 0o644),
            'util/' + self.out: ('package util\n\n// Written by hand, not by sqlgen, a file of its own.\nconst Hand = 1\n', 0o644),
            'docs/' + self.out: ('package docs\n\n// Model was written by hand, not by sqlgen.\ntype Model struct{ ID int }\n', 0o644),
            self.dbdir + '/extra.go': ('package db\n\n// Limit is ours.\nconst Limit = 10\n', 0o640),
            'assets/empty': ('', 0o644),
            '.git/config': ('[core]\n', 0o644),
            '.git/hooks/pre-commit': ('#!/bin/sh\n', 0o755),
        }
        if not any('**' in x for x in self.src):
            self.other['legacy/legacy.go'] = ('package legacy\n\ntype Old struct {\n\tID int64\n}\n', 0o644)
            self.other['legacy/' + self.out] = ('// Code generated by sqlgen. DO NOT EDIT.\n\npackage legacy\n\n// stale\n', 0o644)
        self.links = {pre + 'link.txt': '../' * (pre.count('/') + 1) + 'outer/precious.txt', 'linked': '../outer/pkg'}
        self.outer = {'precious.txt': 'precious\n', 'pkg/model.go': 'package pkg\n\ntype Thing struct {\n\tID int64\n}\n', 'pkg/' + self.out: '// Code generated by sqlgen. DO NOT EDIT.\n\npackage pkg\n',
                      'shared.go': '// Code generated by sqlgen. DO NOT EDIT.\n\npackage shared\n'}


_trees = {}


def tree(n):
    """The n-th valid tree."""
    if n not in _trees:
        k = 0
        while True:
            t = Tree('%d.%d' % (n, k))
            if t.valid():
                break
            k += 1
        _trees[n] = t
    return _trees[n]


COLS = re.compile(r'func \((?:\w+\s+)?\*?(\w+)\) Columns\(\) \[\]string \{\s*return \[\]string\{([^}]*)\}')
STR = re.compile(r'"((?:[^"\\]|\\.)*)"|`([^`]*)`')


def declared(text):
    """{struct: columns} of a generated file."""
    return {m.group(1): [(a or b).strip('"`') for a, b in STR.findall(m.group(2))] for m in COLS.finditer(text)}


# -- sources which cannot be generated from --
def _src(t, v):
    """(path, text, package) of a source which is part of the generation."""
    for p in t.v[v]:
        if p['dir'] in t.skipped or p['empty']:
            continue
        fs = t.render(p)
        for s in p['structs']:
            if s['kind'] == 'annot':
                continue
            rel = (p['dir'] + '/' + p['files'][s['file']]).removeprefix('./')
            if p['dir'] in t.byfile and p['files'][s['file']] not in t.byfile[p['dir']]:
                continue
            yield rel, fs[rel], p, s


def bad(t, v, kind, pick):
    """({path: text}, configuration or None, arguments or None) of a broken project;
    None when the tree has no place for it."""
    cand = list(_src(t, v))
    rel, text, p, s = cand[pick % len(cand)]
    g = t.tag
    add = {
        'unresolved': 'type Broken struct {\n\tID int64 `%s:",pk"`\n\tX  NoSuchType\n}\n' % g,
        'ptrptr': 'type Broken struct {\n\tID int64 `%s:",pk"`\n\tX  **string\n}\n' % g,
        'dupcol': 'type Broken struct {\n\tID int64 `%s:"same"`\n\tX  string `%s:"same"`\n}\n' % (g, g),
        'twoauto': 'type Broken struct {\n\tID int64 `%s:",pk,auto_increment"`\n\tX  int64 `%s:",pk,auto_increment"`\n}\n' % (g, g),
        'ropk': 'type Broken struct {\n\tID int64 `%s:",pk,readonly"`\n}\n' % g,
        'badcol': 'type Broken struct {\n\tID int64 `%s:"9 bad"`\n}\n' % g,
        'footprint': 'type Broken struct {\n\tID int64\n}\n\nfunc (Broken) TableName(n int) string { return "" }\n',
        'unresolvedembed': 'type Broken struct {\n\tID int64\n\tNoSuchBase\n}\n',
        'syntax': 'func broken( {\n',
        'nopkgtype': 'type Broken struct {\n\tID int64\n\tX  nowhere.Type\n}\n',
    }
    if kind in add:
        return {rel: text + '\n' + add[kind]}, None, None
    if kind == 'torn':
        i = text.rfind('}')
        return {rel: text[:i]}, None, None
    if kind == 'emptyfile':
        return {rel: ''}, None, None
    if kind == 'twopkg':
        if len(t.render(p)) == 1 and p['dir'] != t.dirs[0]:
            return None
        return {rel: re.sub(r'^package \w+', 'package somethingelse', text)}, None, None
    if kind == 'missingimport':
        b = re.sub(r'^(package \w+\n)', r'\1\nimport "scr/nosuch"\n', text)
        return {rel: b + '\ntype Broken struct {\n\tID int64\n\tX  nosuch.T\n}\n'}, None, None
    if kind == 'cycle':
        if p['dir'] == '.':
            return None
        b = re.sub(r'^(package \w+\n)', r'\1\nimport "scr/cyc"\n', text)
        return {rel: b + '\ntype Broken struct {\n\tID int64\n\tcyc.T\n}\n', 'cyc/cyc.go': 'package cyc\n\nimport x "scr/%s"\n\ntype T struct {\n\tN int64\n\tU x.%s\n}\n' % (p['dir'], s['name'])}, None, None
    if kind == 'brokendep':
        b = re.sub(r'^(package \w+\n)', r'\1\nimport "scr/depx"\n', text)
        return {rel: b + '\ntype Broken struct {\n\tID int64\n\tdepx.T\n}\n', 'depx/d.go': 'package depx\n\ntype T struct {\n\tN int64\n\tM strin g\n}\n'}, None, None
    if kind == 'nosource':
        return {}, t.config(src=t.src + ['./nowhere']), None
    if kind == 'nosourcefile':
        return {}, t.config(src=['./%s/nofile.go' % p['dir']]), None
    if kind == 'yaml':
        return {}, t.config() + 'exec: [}\n', None
    if kind == 'yamltype':
        return {}, t.config().replace('src:\n', 'src: {a: 1}\nsrcs:\n'), None
    if kind == 'driver':
        return {}, t.config(driver='oracle'), None
    if kind == 'noconfig':
        return {}, None, ['-c', 'nowhere.yml']
    if kind == 'args':
        return {}, None, ['generate']
    raise KeyError(kind)


BAD = ['unresolved', 'ptrptr', 'dupcol', 'twoauto', 'ropk', 'badcol', 'footprint', 'unresolvedembed', 'syntax', 'nopkgtype', 'torn', 'emptyfile', 'twopkg', 'missingimport', 'cycle', 'brokendep',
       'nosource', 'nosourcefile', 'yaml', 'yamltype', 'driver', 'noconfig', 'args']
