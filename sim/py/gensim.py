"""Simulation of the generator: whole project trees, every file operation of the
real command line tool stepped, failed, torn or cut off by a seeded plan."""
import errno, hashlib, json, multiprocessing, os, pty, random, re, shutil, signal, stat, sys, termios, time, traceback, tty
import genbuild, gentree, genproc, ws

WORKERS = 8
REAL = ['cmd/sqlgen (the command line tool, its configuration, the compiler of the sources, the templates, the writing of files)', 'golang.org/x/tools (packages, imports)', 'the survey prompts on a pseudo terminal',
        'the file system (tmpfs or disk of the sandbox), beneath the seam']
STUB = ['the go command is answered by a stand-in which remembers what the real one said about the same files', 'go mod tidy does nothing, or fails when the plan says so', 'the clock, the process id and the randomness of the Go runtime are those of the plan',
        'the person at the terminal is a script']
RULE = 'seeded search; a history is distinct by its sequence of changing file operations with their outcomes over all processes'
ERR = {k: getattr(errno, k) for k in ('ENOSPC', 'EIO', 'EACCES', 'EROFS', 'EMFILE', 'ENFILE', 'EXDEV', 'EDQUOT', 'EINTR', 'ENOENT', 'EPERM', 'EAGAIN', 'ENOMEM', 'EFBIG', 'ETXTBSY', 'ELOOP', 'ENAMETOOLONG')}


class Violation(Exception):
    def __init__(self, props, sig, msg):
        self.props, self.sig, self.msg = props, sig, msg
        Exception.__init__(self, sig)


CURRENT = [None]
OTHER = {}


def report(props, sig, msg):
    """A violation of the property under check ends the history; one of another
    property is the business of another check, and this one goes on."""
    if CURRENT[0] is None or CURRENT[0] in props:
        raise Violation(props, sig, msg)
    OTHER[sig] = OTHER.get(sig, 0) + 1


class Stop(Exception):
    """The plan cannot be carried out; not a verdict."""


def snapshot(base):
    """{relative path: (type, mode, content or target)} of everything below base."""
    out = {}
    for d, ds, fs in os.walk(base):
        for n in ds + fs:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, base)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ('link', 0, os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ('dir', stat.S_IMODE(st.st_mode), '')
            else:
                out[rel] = ('file', stat.S_IMODE(st.st_mode), open(p, 'rb').read())
    return out


def read(p):
    """What a reader finds at the path; None for nothing."""
    try:
        with open(p, 'rb') as f:
            return f.read()
    except (FileNotFoundError, NotADirectoryError):
        return None
    except IsADirectoryError:
        return b'<directory>'
    except OSError as e:
        return ('<%s>' % e).encode()


def put(base, rel, data, mode=0o644):
    p = os.path.join(base, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.lexists(p):
        os.remove(p)
    with open(p, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode())
    os.chmod(p, mode)


def brief(b):
    if b is None:
        return 'nothing'
    return '%d bytes (%s)' % (len(b), hashlib.sha256(b).hexdigest()[:8])


def h8(b):
    return '-' if b is None else hashlib.sha256(b).hexdigest()[:8]


class World:
    """One worker's project on disk and what it remembers."""

    def __init__(self, base, cli, shim, cache, prop, rootname='root'):
        self.base, self.cli, self.shim, self.cache, self.prop = base, cli, shim, cache, prop
        self.tmp = os.path.join(base, 'tmp')
        CURRENT[0] = prop
        os.makedirs(self.tmp, exist_ok=True)
        self.setroot('root')
        self.allow = ()
        self.refs = {}
        self.stat = dict(procs=0, ops=0, muts=0, execs=0, samples=0, clock=0)
        self.fired = {}
        self.kinds = {}

    def setroot(self, name):
        self.ws = os.path.join(self.base, 'ws')
        self.root = os.path.join(self.ws, name)

    def proc(self, argv, **kw):
        w = dict(cli=self.cli, shim=self.shim, cache=self.cache, root=self.root, tmp=self.tmp)
        self.stat['procs'] += 1
        self.stat['clock'] += abs(kw.get('clock', 0))
        return genproc.Proc(w, argv, **kw)

    def fresh(self):
        if os.path.lexists(self.ws):
            shutil.rmtree(self.ws)
        os.makedirs(self.root)

    def layout(self, t, v, cfg=None, config='sqlgen.yml'):
        """Writes the project as of version v, without any output."""
        for rel, data in t.outer.items():
            put(self.ws, 'outer/' + rel, data)
        for rel, (data, mode) in t.other.items():
            put(self.root, rel, data, mode)
        sumf = ws.REPO + '/go.sum'
        if os.path.exists(sumf):
            put(self.root, 'go.sum', open(sumf, 'rb').read())
        for rel, tgt in t.links.items():
            os.makedirs(os.path.dirname(os.path.join(self.root, rel)), exist_ok=True)
            os.symlink(tgt, os.path.join(self.root, rel))
        put(self.root, config, cfg if cfg is not None else t.config())
        put(self.root, 'alt.yml', t.alt())
        self.sources(t, v)

    def sources(self, t, v):
        new = t.files(v)
        for o in range(len(t.v)):
            for rel in t.files(o):
                p = os.path.join(self.root, rel)
                if rel not in new and os.path.lexists(p):
                    os.remove(p)
        for rel, data in new.items():
            put(self.root, rel, data)

    # -- references --
    def ref(self, t, v, argv=()):
        """What an undisturbed run in a pristine project leaves: {output: content}, changing operations."""
        key = (t.id, v, tuple(argv))
        if key in self.refs:
            return self.refs[key]
        keep = self.root, self.ws
        self.ws = os.path.join(self.base, 'ref')
        self.root = os.path.join(self.ws, 'root')
        try:
            self.fresh()
            self.layout(t, v)
            before = snapshot(self.ws)
            r = Run(self, t, argv, dict(seed=1, clock=0, pid=4000), [])
            r.finish()
            if r.rc != 0:
                raise Violation(['C17'], 'refuses', 'the generator fails on a valid project (version %d of tree %s, arguments %s):\n%s' % (v, t.id, list(argv), r.stderr[-1500:]))
            bad_output(r)
            out = {o: read(os.path.join(self.root, o)) for o in t.outs()}
            after = snapshot(self.ws)
            changed(self, t, before, after, False, 'an undisturbed run')
            verify(t, v, out, argv)
            self.refs[key] = (out, r.muts, r.reads)
        finally:
            self.root, self.ws = keep
        return self.refs[key]


def verify(t, v, out, argv):
    """The outputs reflect the sources."""
    only = argv[1].removeprefix('./') if len(argv) > 1 and argv[0] == 'generate' and '*' not in argv[1] else None
    for path, want in t.expect(v).items():
        got = out.get(path)
        if only is not None and (os.path.dirname(path) or '.') != only:
            if got is not None:
                report(['C18'], 'scope %s' % path, 'the run was asked for %s only, but wrote %s' % (only, path))
            continue
        if want == 'any':
            continue
        if want is None:
            if got is not None:
                report(['C17', 'C18'], 'surplus', 'the package of %s has no struct, but there is an output: %s' % (path, brief(got)))
            continue
        if got is None:
            if t.skip_empty:
                continue
            report(['C17'], 'missing', 'success, but %s was not written' % path)
            continue
        have = gentree.declared(got.decode(errors='replace'))
        if have != want:
            for s in want:
                if have.get(s) != want[s]:
                    report(['C17'], 'outdated', 'success, but %s does not reflect the sources: struct %s has columns %s, the output says %s' % (path, s, want[s], have.get(s)))
            report(['C17'], 'surplus struct', 'success, but %s declares %s; the sources have %s' % (path, sorted(have), sorted(want)))
    for path in t.outs()[-2:]:
        if not out.get(path):
            report(['C17'], 'missing', 'success, but %s was not written' % path)


def bad_output(r):
    for w in ('panic:', 'goroutine ', 'fatal error:', 'runtime error', 'SIGSEGV'):
        if w in r.stderr:
            report(['C17'] if not r.init else ['C20'], 'crash', 'the command ends with a crash dump:\n' + r.stderr[-3000:])


def leftover(t, rel, outs):
    """Whether the path is a hidden temporary file beside an output."""
    d, b = os.path.split(rel)
    return b.startswith('.') and any(os.path.dirname(o) == d for o in outs)


def changed(w, t, before, after, disturbed, what, outs=None):
    """Nothing but the outputs differs between two snapshots of the workspace."""
    rn = os.path.basename(w.root)
    outs = outs if outs is not None else t.outs()
    mine = {os.path.normpath(rn + '/' + o) for o in outs}
    # An output may be a link: what it stands for belongs to it
    for o in list(mine):
        if before.get(o, ('',))[0] == 'link':
            mine.add(os.path.normpath(os.path.join(os.path.dirname(o), before[o][2])))
    parents = set()
    for o in mine:
        while '/' in o:
            o = os.path.dirname(o)
            parents.add(o)
    for p in sorted(set(before) | set(after)):
        if p in mine or before.get(p) == after.get(p):
            continue
        a, b = before.get(p), after.get(p)
        if a is None and b[0] == 'dir' and p in parents:
            continue
        if a is None and b[0] == 'file' and disturbed and leftover(t, p, mine):
            continue
        props = ['C18', 'C20'] if t is None else ['C18']
        if a is None:
            report(props, 'created', '%s created %s (%s, %s)' % (what, p, b[0], brief(b[2]) if b[0] == 'file' else b[2]))
        elif b is None:
            report(props, 'removed', '%s removed %s (%s)' % (what, p, a[0]))
        else:
            report(props, 'changed', '%s changed %s: %s %o %s -> %s %o %s' % (what, p, a[0], a[1], brief(a[2]) if a[0] == 'file' else a[2], b[0], b[1], brief(b[2]) if b[0] == 'file' else b[2]))


class Run:
    """One process and the faults that meet it."""

    def __init__(self, w, t, argv, var, faults, tag='a', init=False, stdin=None, env=None):
        self.w, self.t, self.init = w, t, init
        self.argv = list(argv)
        self.faults = faults
        self.muts, self.reads = [], {}
        self.counts = {}
        self.fired = []
        self.log = []
        self.space = None
        self.killed = False
        self.power = None
        self.unsynced = set()
        self.dead = None
        self.tidied = False
        for f in faults:
            if f.get('at') == 'space':
                self.space = f
        self.left = self.space['bytes'] if self.space else None
        tidy = '1' if any(f.get('at') == 'tidy' for f in faults) else '0'
        self.p = w.proc(self.argv, seed=var.get('seed', 1), clock=var.get('clock', 0), pid=var.get('pid', 4000), tidy=tidy, tag=tag, stdin=stdin, env=env)
        self.op = None
        self.outside = None

    def match(self, o):
        """The fault meant for this operation."""
        c = self.counts
        keys = []
        if o.kind == 'exec':
            keys.append(('exec', 'tidy' if 'mod tidy' in o.path else ' '.join(o.path.split()[1:3])))
        elif o.mut and (o.rel is not None or o.rel2 is not None):
            keys += [('mut', ''), ('kind', o.kind)]
        elif o.kind in ('open', 'read', 'dents') and o.rel is not None:
            keys.append(('read', o.kind + ' ' + o.rel))
        elif o.kind in ('open', 'write', 'mkdir') and o.rel is None:
            keys.append(('tmp', o.kind))
        hit = None
        for k in keys:
            n = c.get(k, 0)
            c[k] = n + 1
            for f in self.faults:
                if f.get('at') == k[0] and (k[0] == 'mut' or f.get('what', '') == k[1]) and (n == f.get('n', 0) or (f.get('sticky') and n >= f.get('n', 0))):
                    hit = hit or f
        if hit is None and self.space is not None and o.mut and o.kind == 'write':
            if o.x > self.left:
                return dict(act='short', num=self.left) if self.left > 0 else dict(act='fail', err=self.space.get('err', 'ENOSPC'))
            self.left -= o.x
        return hit

    def next(self):
        """The next operation, or None at the end."""
        if self.op is None and self.dead is None:
            self.op = self.p.next()
            w = self.w
            if self.op is None:
                self.end()
            else:
                o = self.op
                w.stat['ops'] += 1
                if o.kind == 'exec':
                    w.stat['execs'] += 1
                    if 'mod tidy' in o.path:
                        self.tidied = True
                        if self.t is not None and not self.t.tidy and not self.init:
                            report(['C18'], 'tidy', 'the run tidies the module although it was told not to')
                elif o.rel is None and o.rel2 is None and o.kind in ('unlink', 'rename', 'link', 'symlink', 'mkdir', 'chmod', 'trunc', 'open') and o.path:
                    wr = o.kind != 'open' or (o.flags & (genproc.O_CREAT | genproc.O_TRUNC)) or (o.flags & genproc.O_ACC)
                    if wr and not o.path.startswith((w.tmp, '/dev/') + w.allow):
                        self.outside = o.text
        return self.op

    def end(self):
        self.dead = True
        self.rc = self.p.rc
        self.stderr = self.p.stderr

    def step(self):
        """Lets the pending operation happen, or not."""
        o = self.op
        self.op = None
        w = self.w
        f = self.match(o)
        rootop = o.mut
        text = o.text if o.rel is not None or o.kind == 'exec' else '%s <outside>' % o.kind
        act, err, num = 0, 0, 0
        if rootop:
            w.stat['muts'] += 1
            w.kinds[o.kind] = w.kinds.get(o.kind, 0) + 1
            self.muts.append((o.kind, o.rel2 or o.rel, o.x if o.kind == 'write' else 0))
        elif o.kind in ('open', 'read', 'dents') and o.rel is not None:
            k = o.kind + ' ' + o.rel
            self.reads[k] = self.reads.get(k, 0) + 1
        if f is not None:
            a = f['act']
            err = ERR.get(f.get('err', 'EIO'), errno.EIO)
            label = a
            if a == 'kill':
                act = 4
            elif a == 'killafter':
                act = 4 if o.kind == 'exec' else 3
            elif a == 'torn':
                if o.kind == 'write' and o.x > 1:
                    act, num = 5, max(1, min(o.x - 1, int(o.x * f.get('frac', .5))))
                else:
                    act, label = 4, 'kill'
            elif a == 'short':
                act, num = 2, f['num'] if 'num' in f else max(1, int(o.x * f.get('frac', .5)))
                if o.kind != 'write':
                    act = 0
            elif a == 'shim':
                act = 8
                label = 'command fails'
            elif a == 'donefail' or (a == 'fail' and o.kind == 'close'):
                act, label = 6, 'reported failed'
            elif a == 'fail':
                act = 1
            if act:
                name = ('%s %s %s' % (label, o.kind, f.get('err', '') if act in (1, 6) else '')).strip()
                w.fired[name] = w.fired.get(name, 0) + 1
                self.fired.append(name)
                text += ' !' + name
                if act in (3, 4, 5):
                    self.killed = True
                    self.power = f.get('power')
        if (o.mut or o.path.startswith(w.ws)) and act not in (1, 4, 8):
            # What the page cache holds and the disk does not
            u = self.unsynced
            if o.kind in ('write', 'trunc') or (o.kind == 'open' and o.flags & genproc.O_TRUNC):
                u.add(o.path)
            elif o.kind == 'sync':
                u.discard(o.path)
            elif o.kind == 'rename':
                u.discard(o.path2)
                if o.path in u:
                    u.discard(o.path)
                    u.add(o.path2)
            elif o.kind == 'link' and o.path in u:
                u.add(o.path2)
        if rootop or (f is not None and act):
            self.log.append(text)
        self.p.answer(act, err, num)
        return rootop

    def finish(self):
        while self.next() is not None:
            self.step()

    def lose(self):
        """The machine stops with the process: data that was not synced is gone."""
        if not self.killed or self.power is None:
            return
        rng = random.Random('power %s' % self.power)
        for p in sorted(self.unsynced):
            if not os.path.isfile(p) or os.path.islink(p):
                continue
            n = os.path.getsize(p)
            k = rng.choice([0, 0, rng.randrange(n + 1), n])
            with open(p, 'r+b') as f:
                f.truncate(k)
                if k < n and rng.random() < .3:
                    f.truncate(n)
            self.w.fired['unsynced data lost'] = self.w.fired.get('unsynced data lost', 0) + 1
            self.log.append('power lost: %s keeps %d bytes' % (os.path.basename(p) if p.startswith(self.w.root) else '<outside>', k))
        self.fired.append('power loss')


def check_run(r, what):
    """What every single run owes, whatever happened to it."""
    prop = ['C20'] if r.init else ['C17']
    if r.outside:
        report(['C18'] + (['C20'] if r.init else []), 'outside', '%s changes a file outside the project: %s' % (what, r.outside))
    if r.killed:
        return
    bad_output(r)
    if r.rc is None or r.rc < 0:
        report(prop, 'signal', '%s died of signal %s' % (what, r.rc))
    if r.rc != 0 and not r.stderr.strip():
        report(prop, 'silent', '%s failed with status %d without saying why' % (what, r.rc))


def right(o, c, old, ref):
    """Whether this is what a successful run leaves: what the sources ask for
    or, where they ask for nothing, a file which sqlgen did not write."""
    if c == ref.get(o) and not (others(o, old, ref) and len(old[o]) > 0):
        return True
    return others(o, old, ref) and c == old[o]


def others(o, old, ref):
    return ref.get(o) is None and old[o] is not None and not old[o].startswith(b'// Code generated by sqlgen,')


def pkgname(c):
    return re.search(rb'^package (\w+)', c, re.M).group(1)


class History:
    """Carries out one plan."""

    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        self.t = gentree.tree(plan['tree'])
        self.v = 0
        self.log = []
        self.interesting = 0

    def note(self, s):
        self.log.append(s)

    def run(self):
        w, t, plan = self.w, self.t, self.plan
        w.setroot(plan.get('root', 'root'))
        w.fresh()
        w.layout(t, 0)
        self.must = {}
        for i, s in enumerate(plan['steps']):
            self.note('-- step %d: %s' % (i, json.dumps({k: v for k, v in s.items() if k != 'made'}, sort_keys=True)))
            getattr(self, 'do_' + s['do'])(s)
        self.note('final ' + ' '.join('%s=%s' % (o, h8(read(os.path.join(w.root, o)))) for o in t.outs()))

    # -- steps --
    def do_version(self, s):
        self.v = s['v']
        self.w.sources(self.t, s['v'])

    def do_prior(self, s):
        """Puts outputs into a state."""
        w, t = self.w, self.t
        ref = w.ref(t, s.get('v', 0), self.args(s.get('cfg', 'main')))[0]
        outs = t.outs()
        for i, o in enumerate(outs):
            st = s['state'] if isinstance(s['state'], str) else s['state'][i % len(s['state'])]
            p = os.path.join(w.root, o)
            c = ref.get(o)
            if os.path.isdir(p) and not os.path.islink(p):
                continue
            d = os.path.dirname(p)
            if c is None and st in ('foreign', 'garbage', 'readonly', 'long') and os.path.isdir(d) and o in t.expect(s.get('v', 0)):
                # Somebody else's file where nothing is generated
                names = [pkgname(read(os.path.join(d, f))) for f in sorted(os.listdir(d)) if f.endswith('.go') and not f.endswith('_test.go') and f != t.out]
                put(w.root, o, b'package %s\n\n// Kept by its author, who does not want sqlgen to generate anything here.\n%s' % (names[0] if names else b'notes', b'var Kept = 1\n' if st != 'long' else b'// x\n' * 9000), 0o444 if st == 'readonly' else 0o644)
            elif st == 'absent' or c is None:
                if os.path.lexists(p):
                    os.remove(p)
            elif st == 'good':
                put(w.root, o, c)
            elif st == 'torn':
                put(w.root, o, c[:len(c) // 2])
            elif st == 'empty':
                put(w.root, o, b'')
            elif st == 'garbage':
                put(w.root, o, b'\x00\xff garbage {{{ not go\n')
            elif st == 'foreign':
                put(w.root, o, b'package %s\n\n// Kept by nobody.\ntype Foreign struct{ Foreign int }\n\nfunc (Foreign) Columns() []string { return nil }\n' % pkgname(c))
            elif st == 'stale':
                put(w.root, o, c.replace(b'return []string{', b'return []string{"stale_c", '))
            elif st == 'readonly':
                put(w.root, o, c, 0o444)
            elif st == 'long':
                put(w.root, o, c + b'\n// ' + b'x' * 60000 + b'\n')
            elif st == 'link':
                put(w.root, o, c)
                to = os.path.join(w.ws, 'outer', 'shared%s.go' % (i or ''))
                os.rename(p, to)
                os.symlink(os.path.relpath(to, os.path.dirname(p)), p)
            elif st == 'hardlink':
                put(w.root, o, c)
                os.makedirs(os.path.join(w.ws, 'outer'), exist_ok=True)
                bk = os.path.join(w.ws, 'outer', 'backup-%d.go' % i)
                if os.path.lexists(bk):
                    os.remove(bk)
                os.link(p, bk)
            elif st == 'temp':
                put(w.root, o, c)
                d, b = os.path.split(o)
                for n in ('.%s.4000-0.tmp' % b, '.%s.4001-0.tmp' % b):
                    put(w.root, os.path.join(d, n), b'left over')

    def args(self, cfg):
        t = self.t
        if cfg == 'alt':
            return ['-c', 'alt.yml']
        if isinstance(cfg, list):
            return cfg
        return []

    def do_run(self, s):
        w, t = self.w, self.t
        argv = self.args(s.get('cfg', 'main'))
        ref, _, _ = w.ref(t, self.v, argv)
        before = snapshot(w.ws)
        old = {o: read(os.path.join(w.root, o)) for o in t.outs()}
        r = Run(w, t, argv, s.get('var', {}), s.get('faults', []))
        what = 'the run'
        while r.next() is not None:
            if r.step():
                r.next()
                self.sample(old, [ref], r.log)
        r.lose()
        self.finish_run(r, old, ref, before, what, must=True)
        if r.fired:
            self.interesting += 1
        return r

    def sample(self, old, refs, log):
        """A reader, or a crash, right now."""
        w = self.w
        w.stat['samples'] += 1
        for o in self.t.outs():
            c = read(os.path.join(w.root, o))
            if c == old[o] or any(c == ref.get(o) for ref in refs):
                continue
            props = ['C16', 'C19']
            report(props, 'partial', 'after %r, whoever reads %s finds %s; before the run it was %s, complete it is %s' % (log[-1] if log else '', o, brief(c), brief(old[o]), ' or '.join(brief(ref.get(o)) for ref in refs)))

    def finish_run(self, r, old, ref, before, what, must):
        w, t = self.w, self.t
        self.log += r.log
        self.note('rc=%s fired=%s' % (r.rc, r.fired))
        check_run(r, what)
        now = {o: read(os.path.join(w.root, o)) for o in t.outs()}
        for o, c in now.items():
            if c != old[o] and c != ref.get(o):
                report(['C16'], 'damaged', '%s (status %s, %s) left %s with %s; before it was %s, complete it is %s' % (what, r.rc, r.fired or 'undisturbed', o, brief(c), brief(old[o]), brief(ref.get(o))))
        disturbed = r.killed or bool(r.fired)
        changed(w, t, before, snapshot(w.ws), disturbed, what)
        for o, c in now.items():
            if others(o, old, ref) and len(old[o]) > 0 and c != old[o]:
                report(['C18', 'C16'], 'not its own', '%s made %s, which sqlgen did not write and for which there is nothing to generate, %s' % (what, o, brief(c)))
        if r.killed:
            return
        if r.rc == 0:
            for o, c in now.items():
                if not right(o, c, old, ref):
                    props = ['C17'] if r.fired else ['C15', 'C17', 'C16']
                    report(props, 'claims success', '%s (%s) says it succeeded, but %s is %s and not %s\n%s' % (what, r.fired or 'undisturbed', o, brief(c), brief(ref.get(o)), diff(ref.get(o), c)))
        elif not r.fired and must:
            report(['C17', 'C16', 'C15'], 'fails', '%s was not disturbed, but fails:\n%s' % (what, r.stderr[-1500:]))

    def do_bad(self, s):
        """A run on sources or a configuration which cannot be generated from."""
        w, t = self.w, self.t
        b = gentree.bad(t, self.v, s['kind'], s.get('pick', 0))
        if b is None:
            return
        files, cfg, args = b
        keep = {rel: read(os.path.join(w.root, rel)) for rel in files}
        for rel, text in files.items():
            put(w.root, rel, text)
        if cfg is not None:
            put(w.root, 'sqlgen.yml', cfg)
        before = snapshot(w.ws)
        ref = w.ref(t, self.v)[0]
        old = {o: read(os.path.join(w.root, o)) for o in t.outs()}
        r = Run(w, t, args if args is not None else [], s.get('var', {}), s.get('faults', []))
        what = 'the run on a broken project (%s%s)' % (s['kind'], ' in ' + ', '.join(files) if files else '')
        while r.next() is not None:
            if r.step():
                r.next()
                self.sample(old, [ref], r.log)
        self.log += r.log
        self.note('bad %s rc=%s fired=%s' % (s['kind'], r.rc, r.fired))
        w.kinds['bad ' + s['kind']] = w.kinds.get('bad ' + s['kind'], 0) + 1
        self.interesting += 1
        check_run(r, what)
        if not r.killed and r.rc == 0:
            report(['C17'], 'accepts ' + s['kind'], '%s exits with success; stderr: %r' % (what, r.stderr[-500:]))
        for o in t.outs():
            c = read(os.path.join(w.root, o))
            if c != old[o] and c != ref.get(o):
                report(['C16'], 'damaged', '%s left %s with %s; before it was %s, complete it is %s' % (what, o, brief(c), brief(old[o]), brief(ref.get(o))))
        changed(w, t, before, snapshot(w.ws), r.killed or bool(r.fired), what, t.outs() + [os.path.dirname(rel) + '/' + t.out for rel in files if '/' in rel])
        for rel, c in keep.items():
            if c is None:
                shutil.rmtree(os.path.dirname(os.path.join(w.root, rel)))
            else:
                put(w.root, rel, c)
        put(w.root, 'sqlgen.yml', t.config())

    def do_block(self, s):
        """An output path which cannot be written: a directory or a missing right."""
        w, t = self.w, self.t
        o = t.outs()[s['pick'] % len(t.outs())]
        ref = w.ref(t, self.v)[0]
        if ref.get(o) is None:
            return
        p = os.path.join(w.root, o)
        if os.path.lexists(p) and not os.path.isdir(p):
            os.remove(p)
        undo = None
        if s['kind'] == 'dir':
            os.makedirs(p + '/sub', exist_ok=True)
            put(w.root, o + '/sub/file.txt', 'in the way')
        else:
            d = os.path.dirname(p)
            if d == w.root or any(not f.startswith('.') for f in (os.listdir(d) if os.path.isdir(d) else [])):
                return
            if os.path.isdir(d):
                shutil.rmtree(d)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            open(d, 'w').write('a file in the way of the directory')
            undo = d
        before = snapshot(w.ws)
        old = {x: read(os.path.join(w.root, x)) for x in t.outs()}
        r = Run(w, t, [], s.get('var', {}), [])
        r.finish()
        self.log += r.log
        self.note('block rc=%s' % r.rc)
        self.interesting += 1
        what = 'the run with %s being a directory' % o if not undo else 'the run with the directory of %s being a file' % o
        check_run(r, what)
        if r.rc == 0:
            report(['C17'], 'accepts block', what + ' exits with success')
        for x in t.outs():
            c = read(os.path.join(w.root, x))
            if c != old[x] and c != ref.get(x):
                report(['C16'], 'damaged', '%s left %s with %s' % (what, x, brief(c)))
        changed(w, t, before, snapshot(w.ws), False, what, [x for x in t.outs() if x != o])
        if s['kind'] == 'dir':
            shutil.rmtree(p)
        else:
            os.remove(undo)

    def do_par(self, s):
        """Several runs at once, interleaved at their changing operations."""
        w, t = self.w, self.t
        before = snapshot(w.ws)
        outs = t.outs()
        old = {o: read(os.path.join(w.root, o)) for o in outs}
        refs = [w.ref(t, self.v, self.args(p.get('cfg', 'main')))[0] for p in s['procs']]
        rng = random.Random('sched %s' % s['sched'])
        runs = []
        log = []
        try:
            for i, p in enumerate(s['procs']):
                runs.append(Run(w, t, self.args(p.get('cfg', 'main')), dict(p.get('var', {}), pid=4100 + i if not s.get('samepid') else 4100), p.get('faults', []), tag='p%d' % i))
            sched = list(s['choices']) if s.get('choices') is not None else None
            made = []
            cur = 0
            # Every process up to its first change
            for r in runs:
                self.advance(r, outs)
            while True:
                alive = [i for i, r in enumerate(runs) if not r.dead]
                if not alive:
                    break
                if sched is not None:
                    c = sched.pop(0) if sched else alive[0]
                    if c not in alive:
                        c = alive[0]
                else:
                    c = cur if cur in alive and rng.random() > s.get('switch', .5) else rng.choice(alive)
                made.append(c)
                cur = c
                r = runs[c]
                n = len(r.log)
                r.step()
                self.advance(r, outs)
                log += ['p%d %s' % (c, l) for l in r.log[n:]]
                self.sample(old, refs, log)
            s['made'] = made
        finally:
            for r in runs:
                r.p.kill()
        self.log += log
        self.note('par rc=%s' % [r.rc for r in runs])
        self.interesting += 1
        for i, r in enumerate(runs):
            check_run(r, 'run %d of several' % i)
            if not r.killed and not r.fired and r.rc != 0:
                # An honest refusal is allowed
                self.note('p%d refused' % i)
        ok = [ref for r, ref in zip(runs, refs) if not r.killed and r.rc == 0]
        for o in outs:
            c = read(os.path.join(w.root, o))
            if not any(right(o, c, old, ref) for ref in refs) and (ok or c != old[o]):
                report(['C19'], 'mixed', 'after %d runs at the same time (status %s), %s is %s; alone they leave %s' % (len(runs), [r.rc for r in runs], o, brief(c), ' or '.join(brief(ref.get(o)) for ref in refs)))
        changed(w, t, before, snapshot(w.ws), any(r.killed or r.fired for r in runs), 'the concurrent runs')

    def advance(self, r, outs):
        """Runs a process up to its next point of interest."""
        while r.next() is not None:
            o = r.op
            if o.mut or (o.kind == 'open' and o.rel in outs):
                return
            r.step()


def diff(a, b):
    import difflib
    if a is None or b is None:
        return ''
    return '\n'.join(list(difflib.unified_diff(a.decode(errors='replace').splitlines(), b.decode(errors='replace').splitlines(), 'expected', 'found', lineterm='', n=1))[:30])


# -- initialising a project --
DRIVERS = ['mysql', 'postgres', 'sqlite']
CONVS = ['snake_case', 'camelCase', 'PascalCase']
EXISTING = {
    'none': None,
    'full': 'src:\n  - "./**/*"\ndriver: postgres\nnaming_convention: camelCase\nstruct_tag: db\nquote_identifier: true\nstrict: false\nexec:\n  filename: zz.go\nskip_mod_tidy: true\n',
    'short': '# our settings\ndriver: sqlite\nskip_mod_tidy: true\n',
    'broken': 'driver: [mysql\nsrc: }\n',
    'empty': '',
}


class Terminal:
    """The person who answers, and the terminal between."""

    def __init__(self, keys):
        self.m, self.s = pty.openpty()
        tty.setraw(self.s)
        a = termios.tcgetattr(self.s)
        termios.tcsetattr(self.s, termios.TCSANOW, a)
        os.set_blocking(self.m, False)
        self.keys = list(keys)
        self.queries = 0
        self.fed = 0

    def out(self, data):
        self.queries += data.count(b'\x1b[6n')
        self.drain()

    def drain(self):
        try:
            while os.read(self.m, 65536):
                pass
        except OSError:
            pass

    def feed(self):
        """The next input; what the process waits for."""
        self.drain()
        if self.queries > 0:
            self.queries -= 1
            data = b'\x1b[1;1R'
        elif self.keys:
            data = self.keys.pop(0)
            self.fed += 1
        else:
            data = b'\x03'
        os.write(self.m, data)
        return data

    def close(self):
        os.close(self.m)
        os.close(self.s)


def keys(a):
    """The key presses which give the answers."""
    k = []
    for _ in range(DRIVERS.index(a['driver'])):
        k.append(b'\x1b[B')
    k.append(b'\r')
    for _ in range(CONVS.index(a['conv'])):
        k.append(b'\x1b[B')
    k.append(b'\r')
    if a['tag'] != 'sql':
        k += [c.encode() for c in a['tag']]
    k.append(b'\r')
    if a['strict'] is not None:
        k.append(b'y' if a['strict'] else b'n')
    k.append(b'\r')
    k.append(b'y' if a['ok'] else b'n') if a['ok'] is not None else None
    k.append(b'\r')
    return k


def aborted(p):
    return p.get('abort') is not None and p['abort'] < len(keys(p['answers']))


def settings(text):
    """The plain settings of a configuration file."""
    m = dict(re.findall(r'^(driver|naming_convention|struct_tag|strict):\s*"?([^\s"#]*)"?\s*$', text, re.M))
    return m


MODEL = 'package model\n\ntype UserAccount struct {\n\tID        int64  `%s:",pk"`\n\tFirstName string\n\tNickName  string `%s:"nick"`\n}\n'


class Init:
    """A history of init commands."""

    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        self.log = []
        self.interesting = 0

    def note(self, s):
        self.log.append(s)

    def run(self):
        w, plan = self.w, self.plan
        w.setroot('root')
        w.fresh()
        w.allow = ()
        self.cfg = os.path.join(w.root, 'sqlgen.yml')
        put(w.root, 'go.mod', gentree.GOMOD)
        put(w.root, 'go.sum', open(ws.REPO + '/go.sum', 'rb').read())
        put(w.root, 'model/user.go', MODEL % ('sql', 'sql'))
        put(w.root, 'sqlgen.yml.bak', 'driver: mysql\n')
        put(w.root, '.sqlgen.yml.swp', 'swap')
        put(w.ws, 'outer/shared.yml', '# shared\ndriver: postgres\n')
        c = EXISTING[plan['existing']]
        if plan.get('other'):
            put(w.root, plan['other'], 'driver: sqlite\nskip_mod_tidy: true\n')
        if plan.get('link') and c is not None:
            put(w.ws, 'outer/shared.yml', c)
            os.symlink('../outer/shared.yml', self.cfg)
            # The configuration is a link: what it stands for is replaced, with the same care
            w.allow = tuple(os.path.join(os.path.realpath(w.ws), 'outer', n) for n in ('shared.yml', '.shared.yml')) + tuple(os.path.join(w.ws, 'outer', n) for n in ('shared.yml', '.shared.yml'))
        elif c is not None:
            put(w.root, 'sqlgen.yml', c)
        for i, s in enumerate(plan['steps']):
            self.note('-- step %d: %s' % (i, json.dumps({k: v for k, v in s.items() if k != 'made'}, sort_keys=True)))
            self.do(s)
        self.note('final %s' % h8(read(self.cfg)))

    def want(self, a):
        """The content which the answers give, from an undisturbed run in the same place."""
        return None

    def do(self, s):
        w = self.w
        before = snapshot(w.ws)
        old = read(self.cfg)
        runs, terms = [], []
        try:
            for i, p in enumerate(s['procs']):
                ks = keys(p['answers'])
                if aborted(p):
                    ks = ks[:p['abort']] + [b'\x03']
                tm = Terminal(ks)
                terms.append(tm)
                runs.append(Run(w, None, ['init'] + (['-f'] if p.get('force') else []), dict(p.get('var', {}), pid=4200 + i), p.get('faults', []), tag='i%d' % i, init=True, stdin=(tm.m, tm.s)))
            for r, tm in zip(runs, terms):
                os.close(tm.s)
                tm.s = -1
            rng = random.Random('sched %s' % s.get('sched', 0))
            writers = {}
            news = set()
            for i in range(len(runs)):
                self.advance(runs, terms, s, i)
            cur = 0
            n = 0
            while True:
                alive = [i for i, r in enumerate(runs) if not r.dead]
                if not alive:
                    break
                cur = cur if cur in alive and rng.random() > .3 else rng.choice(alive)
                r = runs[cur]
                if s.get('foreign') is not None and n == s['foreign'] and not os.path.lexists(self.cfg):
                    put(w.root, 'sqlgen.yml', '# made by someone else\ndriver: sqlite\n')
                    self.foreign = read(self.cfg)
                    old = self.foreign
                    before['root/sqlgen.yml'] = snapshot(w.root)['sqlgen.yml']
                    self.note('someone creates the file at %d' % n)
                n += 1
                self.point(runs, terms, cur)
                self.advance(runs, terms, s, cur)
                c = read(self.cfg)
                if c != old and h8(c) not in news:
                    # A new content: complete, or else it never shows
                    self.complete(c, s, runs, old)
                    news.add(h8(c))
        finally:
            for r in runs:
                r.p.kill()
            for tm in terms:
                try:
                    os.close(tm.m)
                    if tm.s >= 0:
                        os.close(tm.s)
                except OSError:
                    pass
        if len(runs) == 1:
            runs[0].lose()
        for i, r in enumerate(runs):
            self.log += ['p%d %s' % (i, l) for l in r.log]
        self.note('rc=%s fired=%s' % ([r.rc for r in runs], [r.fired for r in runs]))
        self.interesting += 1
        now = read(self.cfg)
        some = False
        for r, p, tm in zip(runs, s['procs'], terms):
            check_run(r, 'init')
            a = p['answers']
            asked = tm.fed > 0
            agreed = a['ok'] is not False and not aborted(p)
            if r.killed:
                some = some or agreed
                continue
            if not p.get('force') and before.get('root/sqlgen.yml') is not None and asked and len(runs) == 1 and s.get('foreign') is None:
                raise Violation(['C20'], 'asks', 'init without --force asks although there is a configuration')
            if r.rc == 0 and agreed and asked and (p.get('force') or old is None) and len(runs) == 1:
                self.accepted(now, a, old, r)
            some = some or agreed
            if len(runs) == 1 and r.rc == 0 and agreed and (p.get('force') or old is None) and not asked:
                raise Violation(['C20'], 'does nothing', 'init exits with success without a question and without a configuration\n%s' % r.stderr[-800:])
            if len(runs) == 1 and r.rc != 0 and not r.fired and s.get('foreign') is None:
                raise Violation(['C20'], 'fails', 'init fails without a reason:\n' + r.stderr[-1500:])
        if old is not None and not any(p.get('force') for p in s['procs']) and now != old:
            raise Violation(['C20'], 'lost', 'the configuration was %s; init without --force left %s' % (brief(old), brief(now)))
        if now != old and not some:
            raise Violation(['C20'], 'unasked', 'nobody agreed, but the configuration became %s (it was %s)' % (brief(now), brief(old)))
        if now is not None and now != old:
            self.complete(now, s, runs, old)
        elif now is None and old is not None:
            raise Violation(['C20'], 'lost', 'the configuration is gone')
        if all(not r.killed and r.rc == 0 for r in runs) and any(p.get('force') or old is None for p, r in zip(s['procs'], runs)) and all(p['answers']['ok'] is not False and not aborted(p) for p in s['procs']) and now is None:
            raise Violation(['C20'], 'missing', 'every init succeeded, but there is no configuration')
        changed(w, None, before, snapshot(w.ws), any(r.killed or r.fired for r in runs), 'init', ['sqlgen.yml'])
        if s.get('generate') and len(runs) == 1 and runs[0].rc == 0 and not runs[0].killed and now != old and now is not None:
            self.generate(s['procs'][0]['answers'], now)

    def point(self, runs, terms, i):
        r = runs[i]
        if r.op is not None and r.op.kind == 'stdin':
            f = [f for f in r.faults if f.get('at') == 'key' and f['n'] == terms[i].fed and terms[i].queries == 0]
            if f:
                r.op = None
                r.killed = True
                r.fired.append('kill stdin')
                self.w.fired['kill stdin'] = self.w.fired.get('kill stdin', 0) + 1
                r.log.append('killed while waiting')
                r.p.kill()
                r.end()
                return
            terms[i].feed()
        r.step()

    def advance(self, runs, terms, s, i):
        """Up to the next question or change."""
        r = runs[i]
        while r.next() is not None:
            o = r.op
            if o.kind == 'stdin' or o.mut:
                return
            if o.kind == 'out':
                terms[i].out(o.data)
            r.step()

    def complete(self, c, s, runs, old):
        """The content is one which the answers of one process give, as a whole."""
        if c is None:
            if old is not None:
                raise Violation(['C20'], 'lost', 'the configuration vanishes for a moment; a crash there loses it')
            return
        text = c.decode(errors='replace')
        got = settings(text)
        for p in s['procs']:
            a = p['answers']
            if not p.get('force') and old is not None:
                continue
            if a['ok'] is False or aborted(p):
                continue
            want = dict(driver=a['driver'], naming_convention=a['conv'], struct_tag=a['tag'], strict='true' if a['strict'] is not False else 'false')
            if got == want and self.whole(text):
                return
        raise Violation(['C20'], 'partial', 'the configuration becomes %s, which nobody answered or which is not complete (it was %s):\n%s' % (got, brief(old), text[:3000]))

    def whole(self, text):
        """All sections are there: what an undisturbed init writes has the same ones."""
        if not hasattr(self.w, 'sections'):
            self.w.sections = None
        top = set(re.findall(r'^(\w+):', text, re.M))
        return text.endswith('\n') and {'src', 'driver', 'exec', 'database'} <= top

    def accepted(self, now, a, old, r):
        if now is None or (now == old and False):
            raise Violation(['C20'], 'missing', 'init says it succeeded, but there is no configuration')
        got = settings(now.decode(errors='replace'))
        want = dict(driver=a['driver'], naming_convention=a['conv'], struct_tag=a['tag'], strict='true' if a['strict'] is not False else 'false')
        if got != want:
            raise Violation(['C20'], 'answers', 'init says it succeeded; the answers were %s, the configuration says %s%s' % (want, got, '' if not r.fired else ' (after %s)' % r.fired))

    def generate(self, a, cfg):
        """The generator accepts the configuration and follows it."""
        w = self.w
        put(w.root, 'model/user.go', MODEL % (a['tag'], a['tag']))
        r = Run(w, None, [], dict(seed=1, pid=4300), [], tag='g')
        r.finish()
        if r.rc != 0:
            raise Violation(['C20'], 'refused', 'the generator refuses the configuration which init wrote:\n%s\n%s' % (r.stderr[-1500:], cfg.decode(errors='replace')))
        m = re.search(r'^  filename: (\S+)', cfg.decode(), re.M)
        g = None
        for f in os.listdir(w.root + '/model'):
            if f != 'user.go' and f.endswith('.go'):
                g = read(w.root + '/model/' + f).decode()
        if g is None:
            raise Violation(['C20'], 'useless', 'the generator writes nothing for the model with the configuration which init wrote')
        want = [gentree.naming(a['conv'], 'ID') if a['conv'] != 'camelCase' else None, gentree.naming(a['conv'], 'FirstName'), 'nick']
        have = gentree.declared(g).get('UserAccount')
        if have is None or have[1:] != want[1:]:
            raise Violation(['C20'], 'ignored', 'the answers were %s, but the generated code has the columns %s' % (a, have))
        d = [p for p in snapshot(w.root + '/db')] if os.path.isdir(w.root + '/db') else []
        dbf = ''.join(read(w.root + '/db/' + p).decode() for p in d if p.endswith('.go'))
        if ('$' in ''.join(re.findall(r'WrapVar\([^)]*\)[^}]*', dbf)) or 'RETURNING' in dbf) and a['driver'] == 'mysql':
            raise Violation(['C20'], 'ignored', 'the answer was mysql, the generated code is for another database')
        for x in d:
            if os.path.isfile(w.root + '/db/' + x):
                os.remove(w.root + '/db/' + x)
        shutil.rmtree(w.root + '/db', ignore_errors=True)
        for f in os.listdir(w.root + '/model'):
            if f != 'user.go':
                os.remove(w.root + '/model/' + f)


# -- plans --
def variation(r):
    return dict(seed=r.randrange(1, 1 << 31), clock=r.choice([0, 0, 86400, -86400 * 400, 86400 * 5000, 3 * 3600, -7200]), pid=r.randrange(2, 60000))


def faults(r, t, w, v, argv=(), heavy=.5):
    """What meets one run."""
    ref, muts, reads = w.ref(t, v, argv)
    n = len(muts)
    fs = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.random()
        if k < .45:
            i = r.randrange(max(1, n))
            kind = muts[i][0] if n else 'write'
            a = r.choice(['kill', 'killafter', 'fail', 'fail', 'fail', 'torn' if kind == 'write' else 'donefail', 'short' if kind == 'write' else 'fail', 'donefail'])
            f = dict(at='mut', n=i, act=a)
        elif k < .6:
            kind = r.choice(['write', 'write', 'open', 'close', 'sync', 'rename', 'mkdir', 'unlink', 'chmod', 'link', 'trunc'])
            f = dict(at='kind', what=kind, n=r.randrange(4), act=r.choice(['fail', 'fail', 'kill', 'torn' if kind == 'write' else 'fail', 'donefail']), sticky=r.random() < .4)
        elif k < .7:
            total = sum(m[2] for m in muts)
            f = dict(at='space', bytes=r.randrange(max(1, total)), err=r.choice(['ENOSPC', 'EDQUOT', 'EIO']))
        elif k < .87:
            names = sorted(reads)
            if not names:
                continue
            dirs = [x for x in names if '.' not in os.path.basename(x.split(' ', 1)[1]) or x.endswith(' .')]
            x = r.choice(dirs if dirs and r.random() < .5 else names)
            n0 = r.randrange(reads[x])
            above = [y for y in dirs if any(d != y.split(' ', 1)[1] and (y.endswith(' .') or d.startswith(y.split(' ', 1)[1] + '/')) for d in t.dirs)]
            if above and r.random() < .35:  # a folder above others, the first time it is listed
                x, n0 = r.choice(above), 0
            f = dict(at='read', what=x, n=n0, act='fail', sticky=r.random() < .5)
        elif k < .96:
            f = dict(at='exec', what=r.choice(['list -overlay=' if r.random() < 0 else 'list -e', 'list -f', 'list -export', 'env -json', 'tidy']), n=r.choice([0, 1, 2, 5, 9]), act=r.choice(['shim', 'fail', 'shim', 'kill']), sticky=r.random() < .5)
        else:
            f = dict(at='tmp', what=r.choice(['open', 'mkdir', 'write']), n=r.randrange(4), act='fail', sticky=r.random() < .5)
        if f.get('act') in ('fail', 'donefail'):
            op = f.get('what', '') if f['at'] == 'kind' else (muts[f['n']][0] if f['at'] == 'mut' and n else '')
            f['err'] = r.choice({'write': ['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG'], 'sync': ['EIO', 'ENOSPC'], 'close': ['EIO', 'EDQUOT', 'ENOSPC'], 'open': ['EACCES', 'ENOSPC', 'EMFILE', 'EROFS', 'ENFILE', 'EIO'],
                                 'rename': ['EXDEV', 'EACCES', 'ENOSPC', 'EIO', 'EROFS', 'EPERM'], 'unlink': ['EACCES', 'EIO', 'EROFS']}.get(op, ['EIO', 'EACCES', 'ENOMEM', 'EMFILE']))
            if f['at'] == 'exec':
                f['err'] = r.choice(['EAGAIN', 'ENOMEM', 'EACCES'])
        if 'torn' == f.get('act') or 'short' == f.get('act'):
            f['frac'] = r.choice([.01, .3, .5, .9, .99])
        if f.get('act') in ('kill', 'killafter', 'torn') and r.random() < .5:
            f['power'] = r.randrange(1 << 20)
        fs.append(f)
    return fs


STATES = ['absent', 'good', 'good', 'torn', 'empty', 'garbage', 'foreign', 'stale', 'readonly', 'long', 'link', 'hardlink', 'temp']


def tree_of(wk, idx, n):
    """Many histories on trees without imports, few on the others."""
    i, block = idx % 44, idx // 44
    if 16 <= i < 24:
        return wk + WORKERS * 2 * (block % n)
    return wk + WORKERS * (2 * ((block * 2 + (i >= 24)) % (3 * n)) + 1)


def plan_for(prop, seed, w, ntrees):
    """The plan of a seed."""
    r = random.Random('plan %s %d' % (prop, seed))
    if prop == 'C20':
        return plan_init(r)
    wk, idx = seed % WORKERS, seed // WORKERS
    tid = tree_of(wk, idx, ntrees)
    t = gentree.tree(tid)
    steps = []
    plan = dict(tree=tid, root=r.choice(['root', 'root', 'a much longer name of a project', 'p']) if prop == 'C15' else 'root', steps=steps)
    v0 = r.choice([0, 0, 1, 2])
    if v0:
        steps.append(dict(do='version', v=v0))
    v = v0

    def cfg():
        return 'alt' if r.random() < .15 else 'main'

    def prior(states=None, ver=None):
        k = r.random()
        st = r.choice(states or STATES)
        if k > .6:
            st = [r.choice(states or STATES) for _ in range(6)]
        steps.append(dict(do='prior', state=st, v=r.randrange(3) if ver is None else ver, cfg=cfg()))

    if prop == 'C15':
        if r.random() < .6:
            prior()
        for i in range(r.choice([1, 2, 2])):
            if i and r.random() < .3:
                v = r.randrange(3)
                steps.append(dict(do='version', v=v))
            s = dict(do='run', var=variation(r), cfg=cfg())
            if t.src[0] == './**/*' and r.random() < .1:
                s['cfg'] = ['generate', './**/*']
            steps.append(s)
        if r.random() < .15:
            steps.insert(r.randrange(len(steps)), dict(do='run', var=variation(r), cfg='main', faults=faults(r, t, w, v0)))
            # Whatever an accident left must not show afterwards
            steps.append(dict(do='run', var=variation(r), cfg='main'))
    elif prop in ('C16', 'C17', 'C18'):
        if r.random() < .8:
            prior()
        for i in range(r.choice([1, 1, 2])):
            k = r.random()
            if r.random() < .4:
                v = r.randrange(3)
                steps.append(dict(do='version', v=v))
            if k < {'C16': .7, 'C17': .4, 'C18': .6}[prop]:
                c = cfg()
                steps.append(dict(do='run', var=variation(r), cfg=c, faults=faults(r, t, w, v, ['-c', 'alt.yml'] if c == 'alt' else [])))
            elif k < {'C16': .85, 'C17': .8, 'C18': .78}[prop]:
                steps.append(dict(do='bad', kind=r.choice(gentree.BAD), pick=r.randrange(8), var=variation(r), faults=faults(r, t, w, v) if r.random() < .15 else []))
            elif k < {'C16': .92, 'C17': .88, 'C18': .84}[prop]:
                steps.append(dict(do='block', kind=r.choice(['dir', 'file']), pick=r.randrange(8), var=variation(r)))
            else:
                steps.append(dict(do='run', var=variation(r), cfg=cfg()))
        if prop != 'C18' or r.random() < .3:
            if r.random() < .3:
                v = r.randrange(3)
                steps.append(dict(do='version', v=v))
            if prop != 'C17' or r.random() < .4:
                steps.append(dict(do='run', var=variation(r), cfg='main'))
    elif prop == 'C19':
        prior(['absent', 'good', 'good', 'good', 'stale', 'torn', 'long', 'temp'])
        n = r.choice([2, 2, 2, 3])
        procs = []
        for i in range(n):
            c = r.choice(['main', 'main', 'alt'])
            p = dict(cfg=c, var=variation(r))
            if r.random() < .25:
                p['faults'] = faults(r, t, w, v, ['-c', 'alt.yml'] if c == 'alt' else [])
            procs.append(p)
        steps.append(dict(do='par', procs=procs, sched=r.randrange(1 << 30), switch=r.choice([.1, .3, .5, .9]), samepid=r.random() < .15))
        if r.random() < .3:
            steps.append(dict(do='run', var=variation(r), cfg='main'))
    return plan


def plan_init(r):
    def answers():
        return dict(driver=r.choice(DRIVERS), conv=r.choice(CONVS), tag=r.choice(['sql', 'sql', 'db', 'orm']), strict=r.choice([None, True, False]), ok=r.choice([None, None, True, True, True, False]))

    plan = dict(tree=-1, existing=r.choice(['none', 'none', 'none', 'full', 'full', 'short', 'broken', 'empty']), link=r.random() < .2, steps=[])
    if r.random() < .1:
        plan['other'] = r.choice(['.sqlgen.yml', 'sqlgen.yaml', '.sqlgen.yaml'])
    for _ in range(r.choice([1, 1, 2, 3])):
        procs = []
        for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
            p = dict(answers=answers(), force=r.random() < .55, var=variation(r))
            if r.random() < .15:
                p['abort'] = r.randrange(8)
            if r.random() < .5:
                fs = []
                k = r.random()
                if k < .2:
                    fs.append(dict(at='key', n=r.randrange(9)))
                elif k < .75:
                    i = r.randrange(7)
                    fs.append(dict(at='mut', n=i, act=r.choice(['kill', 'killafter', 'torn', 'fail', 'fail', 'short', 'donefail']), err=r.choice(['ENOSPC', 'EIO', 'EACCES', 'EROFS', 'EDQUOT']), frac=r.choice([.01, .4, .9])))
                    if fs[-1]['act'] in ('kill', 'killafter', 'torn') and r.random() < .5:
                        fs[-1]['power'] = r.randrange(1 << 20)
                elif k < .9:
                    fs.append(dict(at='space', bytes=r.randrange(3000), err='ENOSPC'))
                else:
                    fs.append(dict(at='kind', what=r.choice(['write', 'rename', 'open', 'sync', 'close', 'link', 'unlink']), n=0, act='fail', err=r.choice(['EIO', 'EACCES', 'EPERM', 'ENOSPC']), sticky=r.random() < .5))
                p['faults'] = fs
            procs.append(p)
        s = dict(procs=procs, sched=r.randrange(1 << 30), generate=r.random() < .3)
        if r.random() < .12 and len(procs) == 1 and not procs[0]['force']:
            s['foreign'] = r.randrange(1, 14)
        plan['steps'].append(s)
    return plan


def execute(w, plan):
    """(violation or None, history)."""
    h = (Init if plan['tree'] == -1 else History)(w, plan)
    try:
        h.run()
    except Violation as v:
        h.note('VIOLATION %s %s' % (v.props, v.sig))
        return v, h
    except genproc.Hang as e:
        h.note('HANG')
        return Violation(['C15', 'C16', 'C17', 'C18', 'C19', 'C20'], 'hang', str(e)), h
    return None, h


def digest(h):
    return hashlib.sha256('\n'.join(h.log).encode()).hexdigest()[:16]


def shape(h):
    return hashlib.sha256('\n'.join(l for l in h.log if not l.startswith('--')).encode()).hexdigest()[:16]


def minimise(w, plan, sig, prop, budget):
    """A smaller plan with the same violation."""
    end = time.time() + budget

    def fails(p):
        v, _ = execute(w, json.loads(json.dumps(p)))
        return v is not None and v.sig == sig and prop in v.props

    best = json.loads(json.dumps(plan))
    again = True
    while again and time.time() < end:
        again = False
        for cand in smaller(best):
            if time.time() > end:
                break
            if fails(cand):
                best, again = cand, True
                break
    return best


def smaller(p):
    cp = lambda: json.loads(json.dumps(p))
    for i in range(len(p['steps'])):
        q = cp()
        del q['steps'][i]
        if q['steps']:
            yield q
    for i, s in enumerate(p['steps']):
        for j in range(len(s.get('procs', []))):
            if len(s['procs']) > 1:
                q = cp()
                del q['steps'][i]['procs'][j]
                q['steps'][i].pop('choices', None)
                yield q
        for holder in [()] + [(j,) for j in range(len(s.get('procs', [])))]:
            def at(q):
                x = q['steps'][i]
                return x['procs'][holder[0]] if holder else x
            x = at(p)
            for k in range(len(x.get('faults', []))):
                q = cp()
                del at(q)['faults'][k]
                yield q
            if x.get('var') and x['var'] != dict(seed=1, clock=0, pid=4000):
                for key, val in (('clock', 0), ('pid', 4000), ('seed', 1)):
                    if x['var'].get(key) != val:
                        q = cp()
                        at(q)['var'][key] = val
                        yield q
        if s.get('do') == 'prior' and isinstance(s['state'], list):
            for st in sorted(set(s['state'])):
                q = cp()
                q['steps'][i]['state'] = st
                yield q
        if s.get('do') == 'par' and s.get('switch', 0) > .1:
            q = cp()
            q['steps'][i]['switch'] = .05
            yield q
    if p.get('root', 'root') != 'root':
        q = cp()
        q['root'] = 'root'
        yield q


# -- the search --
def worker(k, cfg, out):
    signal.signal(signal.SIGTERM, lambda *a: os._exit(1))
    res = dict(runs=0, nontrivial=0, shapes=[], found=[], known={}, samples=[], checked=0, mismatch=0, skipped=0, error=None, first=None, last=None, other={})
    base = os.path.join(cfg['scratch'], 'w%d' % k)
    os.makedirs(base, exist_ok=True)
    w = World(base, cfg['cli'], cfg['shim'], cfg['cache'], cfg['prop'])
    shapes = set()
    try:
        seed = cfg['first'] + k
        while time.time() < cfg['until']:
            if res['first'] is None:
                res['first'] = seed
            res['last'] = seed
            try:
                plan = plan_for(cfg['prop'], seed, w, cfg['trees'])
                v, h = execute(w, plan)
            except Violation as e:
                # The reference itself
                v, h = e, History(w, dict(tree=tree_of(seed % WORKERS, seed // WORKERS, cfg['trees']), steps=[]))
                plan = dict(tree=tree_of(seed % WORKERS, seed // WORKERS, cfg['trees']), steps=[dict(do='run', var=dict(seed=1, clock=0, pid=4000)), dict(do='version', v=1), dict(do='run'), dict(do='version', v=2), dict(do='run'), dict(do='run', cfg='alt')])
            res['runs'] += 1
            if h.interesting or cfg['prop'] == 'C15':
                res['nontrivial'] += 1
            shapes.add(shape(h))
            if len(res['samples']) < 1 and h.interesting and v is None and len(h.log) < 60:
                res['samples'].append(dict(seed=seed, log=h.log[:60]))
            if v is not None:
                if cfg['prop'] not in v.props:
                    res['other'][v.sig] = res['other'].get(v.sig, 0) + 1
                    res['skipped'] += 1
                    if cfg.get('debug'):
                        print('OTHER seed', seed, v.props, v.sig, v.msg[:400], flush=True)
                else:
                    kn = match_known(v.sig, cfg['known'])
                    if kn:
                        res['known'][kn] = res['known'].get(kn, 0) + 1
                    elif len(res['found']) < 3 and not any(f['sig'] == v.sig for f in res['found']):
                        if cfg.get('debug'):
                            print('FOUND seed', seed, v.props, v.sig, v.msg[:600], flush=True)
                        res['found'].append(dict(seed=seed, sig=v.sig, msg=v.msg, props=v.props, plan=plan, log=h.log))
                        if not cfg.get('debug'):
                            break
            elif seed // WORKERS % 12 == 3 or (res['runs'] == 2):
                v2, h2 = execute(w, json.loads(json.dumps(plan)))
                res['checked'] += 1
                if digest(h) != digest(h2):
                    res['mismatch'] += 1
                    import difflib
                    res['samples'].append(dict(seed=seed, mismatch=list(difflib.unified_diff(h.log, h2.log, lineterm='', n=0))[:20]))
            seed += WORKERS
    except Exception:
        res['error'] = traceback.format_exc()
    for k, n in OTHER.items():
        res['other'][k] = res['other'].get(k, 0) + n
    res['shapes'] = sorted(shapes)
    res['stat'], res['fired'], res['kinds'] = w.stat, w.fired, w.kinds
    json.dump(res, open(out, 'w'))


def match_known(sig, known):
    for pat in known:
        if pat == sig or (pat.endswith('*') and sig.startswith(pat[:-1])):
            return pat
    return None


def prepare(scratch):
    cli, shim = genbuild.build(os.path.join(scratch, 'build'))
    cache = os.path.join(scratch, 'cache')
    os.makedirs(cache, exist_ok=True)
    return cli, shim, cache


def check(ctx):
    cli, shim, cache = prepare(ctx.scratch)
    print('%.0fs: the simulated generator is built' % (time.time() - ctx.start), flush=True)
    # Fill the build cache once, so that the workers need not wait for each other
    base = os.path.join(ctx.scratch, 'warm')
    os.makedirs(base)
    w = World(base, cli, shim, cache, ctx.prop)
    w.setroot('root')
    try:
        w.ref(gentree.tree(0), 0)
    except Violation:
        pass
    print('%.0fs: the build cache is warm' % (time.time() - ctx.start), flush=True)
    secs = ctx.secs or (75 if ctx.tier == 'quick' else 600)
    t0 = time.time()
    cfg = dict(prop=ctx.prop, cli=cli, shim=shim, cache=cache, scratch=ctx.scratch, first=ctx.seed * 1000000, until=t0 + secs, trees=2 if ctx.tier == 'quick' else 8, known=[s for s, _ in ctx.known], debug=bool(os.environ.get('GENSIM_DEBUG')))
    procs, outs = [], []
    for k in range(WORKERS):
        out = os.path.join(ctx.scratch, 'out%d.json' % k)
        p = multiprocessing.Process(target=worker, args=(k, cfg, out))
        p.start()
        procs.append(p)
        outs.append(out)
    found_at = None
    for p in procs:
        p.join(secs + 200)
        if p.is_alive():
            p.terminate()
    res = []
    for k, o in enumerate(outs):
        if not os.path.exists(o):
            raise RuntimeError('worker %d left no result' % k)
        res.append(json.load(open(o)))
    for x in res:
        if x['error']:
            print(x['error'])
            raise RuntimeError('a worker failed')
    search = time.time() - t0
    found, sigs = [], set()
    for x in res:
        for f in x['found']:
            if f['sig'] not in sigs:
                sigs.add(f['sig'])
                found.append(f)
    # Only what can be repeated counts
    w.refs.clear()
    real = []
    for f in found[:4]:
        plan = minimise(w, f['plan'], f['sig'], ctx.prop, 60)
        v, h = execute(w, json.loads(json.dumps(plan)))
        if v is None or v.sig != f['sig']:
            v, h = execute(w, json.loads(json.dumps(f['plan'])))
            plan = f['plan']
        if v is None:
            print('seed %s: %s\n%s' % (f['seed'], f['sig'], f['msg'][:3000]))
            print('\n'.join(f['log'][-60:]))
            raise RuntimeError('the violation of seed %s did not come back' % f['seed'])
        real.append((f, plan, v, h))
    mism = sum(x['mismatch'] for x in res)
    runs = sum(x['runs'] for x in res)
    skipped = sum(x['skipped'] for x in res)
    if not real:
        if mism:
            for x in res:
                for s in x['samples']:
                    if 'mismatch' in s:
                        print('MISMATCH', s['seed'], '\n'.join(s['mismatch'])[:3000])
            raise RuntimeError('%d re-runs differed: the simulation is not deterministic' % mism)
        if skipped > runs // 2 or runs < 20:
            for x in res:
                print(x['other'])
            raise RuntimeError('%d of %d histories could not be judged' % (skipped, runs))
    ev = evidence(ctx, res, len(real), search)
    ctx.evidence(ctx.prop, ev)
    c = ev['coverage']
    print('%d histories (%d non-trivial), %d generator processes, %d file operations, %d distinct, faults %d' % (c['evaluations'], c['nontrivial_runs'], c['generator_processes'], c['file_operations'], c['distinct_nontrivial'], sum(c['faults_injected'].values())))
    for sig, text in ctx.known:
        if any(sig in x['known'] for x in res):
            print('KNOWN-FINDING: property=%s %s' % (ctx.prop, text))
    rc = 0
    for n, (f, plan, v, h) in enumerate(real, 1):
        path = ctx.replay_path(ctx.prop, n)
        json.dump(dict(property=ctx.prop, kind='plan', seed=f['seed'], signature=v.sig, message=v.msg, plan=plan, unminimised=f['plan'], event_log_hash=digest(h), event_log=h.log), open(path, 'w'), indent=1)
        print('seed %s: %s\n%s' % (f['seed'], v.sig, v.msg[:2500]))
        for l in h.log[-30:]:
            print('    ' + l[:300])
        print('VIOLATION property=%s replay=%s' % (ctx.prop, path), flush=True)
        rc = 1
    return rc


def add(res, key):
    out = {}
    for x in res:
        for k, n in x[key].items():
            out[k] = out.get(k, 0) + n
    return out


def evidence(ctx, res, nviol, search):
    st = add(res, 'stat')
    shapes = set()
    for x in res:
        shapes.update(x['shapes'])
    runs = sum(x['runs'] for x in res)
    samples = [s for x in res for s in x['samples'] if 'log' in s][:3]
    return dict(property=ctx.prop, tier=ctx.tier if ctx.tier in ('quick', 'thorough') else 'quick', seed=ctx.seed, level='exploration', wall_s=round(time.time() - ctx.start, 1), violations=nviol,
                assumptions=['a process dies between or within system calls; when the machine stops with it, data that was not synced is lost, but renames and links that returned are kept',
                             'processes switch at operations which change files and at reads of outputs', 'the go command answers as a function of the files it is asked about'],
                coverage=dict(evaluations=runs, distinct_nontrivial=len(shapes), nontrivial_runs=sum(x['nontrivial'] for x in res), rule=RULE, samples=samples,
                              generator_processes=st['procs'], file_operations=st['ops'], changing_operations=st['muts'], commands_started=st['execs'], reader_samples=st['samples'],
                              simulated_seconds=st['clock'], operations=add(res, 'kinds'), faults_injected=add(res, 'fired'), known_findings_hit=add(res, 'known'), of_other_properties=add(res, 'other'),
                              determinism_reruns=sum(x['checked'] for x in res), determinism_mismatches=sum(x['mismatch'] for x in res),
                              seed_range=[min(x['first'] for x in res), max(x['last'] for x in res)],
                              runs_per_hour=int(runs / search * 3600) if search > .5 else 0, real_components=REAL, stub_components=STUB))


def replay(path, r, scratch):
    cli, shim, cache = prepare(scratch)
    base = os.path.join(scratch, 'replay')
    os.makedirs(base)
    w = World(base, cli, shim, cache, r['property'])
    try:
        v, h = execute(w, r['plan'])
    except Violation as e:
        v, h = e, None
    if v is not None:
        print(v.msg[:3000])
        if h is not None:
            print('\n'.join('    ' + l[:300] for l in h.log[-60:]))
            print('event log %s, recorded %s' % (digest(h), r['event_log_hash']))
    if v is not None and r['property'] in v.props and v.sig == r['signature']:
        print('REPRODUCED %s %s' % (r['property'], v.sig))
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1
    print('NOT REPRODUCED')
    return 0
