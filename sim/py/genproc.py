"""One simulated generator process: every file operation it makes stops here
until the simulator has said what becomes of it."""
import errno, os, signal, socket, struct, subprocess, sys
import ws

OPS = ['', 'open', 'write', 'read', 'close', 'sync', 'trunc', 'chmod', 'rename', 'link', 'symlink', 'unlink', 'mkdir', 'dents', 'exec', 'stdin', 'out']
O_ACC, O_CREAT, O_EXCL, O_TRUNC, O_DIRECTORY = 3, 0o100, 0o200, 0o1000, 0o200000
AT_FDCWD = (1 << 64) - 100


class Hang(Exception):
    """A process which makes no progress."""


class Op:
    """A file operation about to happen."""
    __slots__ = ('kind', 'path', 'path2', 'x', 'mut', 'flags', 'rel', 'rel2', 'text', 'data')

    def __repr__(self):
        return self.text


class Proc:
    def __init__(self, world, argv, seed=1, clock=0, pid=0, tidy='0', env=None, stdin=None, cwd=None, tag=''):
        """world: dict(cli, shim, cache, root, tmp)."""
        self.w, self.tag = world, tag
        self.root = world['root']
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        self.sock = a
        e = ws.env(GOFLAGS='-mod=mod -buildvcs=false -trimpath', PATH=os.path.dirname(ws.GO24) + ':/usr/bin:/bin',
                   GOMAXPROCS='1', GODEBUG='asyncpreemptoff=1', GOGC='off', HOME=os.environ.get('HOME', '/root'), TMPDIR=world['tmp'],
                   SIM_FD=str(b.fileno()), SIM_ROOT=self.root, SIM_SHIM=world['shim'], SIM_CACHE=world['cache'], SIM_GO=ws.GO24,
                   SIM_SEED=str(seed), SIM_CLOCK=str(clock), SIM_TIDY=tidy, LANG='C.UTF-8')
        if pid:
            e['SIM_PID'] = str(pid)
        if stdin is not None:
            e['SIM_STDIN'] = '1'
            e['TERM'] = 'xterm'
        e.update(env or {})
        self.err = open(os.path.join(world['tmp'], 'err-%s' % tag), 'w+b')
        self.master = stdin
        kw = {}
        if stdin is not None:
            m, s = stdin
            kw = dict(stdin=s, stdout=s)
        else:
            kw = dict(stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
        self.p = subprocess.Popen([world['cli']] + argv, cwd=cwd or self.root, env=e, stderr=self.err, pass_fds=[b.fileno()], start_new_session=True, **kw)
        b.close()
        self.cwd = cwd or self.root
        self.fds = {}
        self.rc = None
        self.ended = False
        self.pending = None
        a.settimeout(120)

    # -- paths --
    def _dir(self, fd):
        if fd == AT_FDCWD:
            return self.cwd
        try:
            return os.readlink('/proc/%d/fd/%d' % (self.p.pid, fd))
        except OSError:
            return self.cwd

    def _abs(self, fd, path):
        p = path if path.startswith('/') else os.path.join(self._dir(fd), path)
        return os.path.normpath(p)

    def _rel(self, p):
        if p == self.root:
            return '.'
        if p.startswith(self.root + '/'):
            return p[len(self.root) + 1:]
        return None

    def next(self):
        """Waits for the next operation; None when the process has ended."""
        if self.ended:
            return None
        try:
            d = self.sock.recv(8192)
        except socket.timeout:
            self.kill()
            raise Hang('the command made no progress for two minutes')
        except ConnectionResetError:
            d = b''
        if not d:
            self._wait()
            return None
        op, fd, x, fd2 = struct.unpack_from('<QQQQ', d)
        if OPS[op] == 'out':
            o = Op()
            o.kind, o.x, o.flags, o.path, o.path2, o.rel, o.rel2, o.mut, o.text = 'out', x, 0, '', None, None, None, False, 'out %d' % x
            o.data = d[32:32 + x]
            self.pending = o
            return o
        parts = d[32:].split(b'\0')
        p1, p2 = os.fsdecode(parts[0]), os.fsdecode(parts[1]) if len(parts) > 1 else ''
        o = Op()
        o.kind, o.x, o.flags = OPS[op], x, 0
        o.path2 = o.rel2 = None
        if o.kind == 'exec':
            o.path, o.rel, o.mut, o.text = p1, None, False, 'exec ' + p1[:60]
            self.pending = o
            return o
        if o.kind == 'stdin':
            o.path, o.rel, o.mut, o.text = '', None, False, 'stdin'
            self.pending = o
            return o
        if p1 or o.kind == 'open':
            o.path = self._abs(fd, p1)
        else:
            o.path = self._dir(fd)
            if o.path.endswith(' (deleted)'):
                o.path = o.path[:-10]
        if o.kind in ('rename', 'link'):
            o.path2 = self._abs(fd2, p2)
            o.rel2 = self._rel(o.path2)
        o.rel = self._rel(o.path)
        o.mut = o.kind in ('write', 'trunc', 'chmod', 'rename', 'link', 'symlink', 'unlink', 'mkdir')
        if o.kind == 'open':
            o.flags = x
            o.mut = bool(x & (O_CREAT | O_TRUNC)) or (x & O_ACC) != 0
        if o.kind in ('close', 'sync'):
            try:
                fl = open('/proc/%d/fdinfo/%d' % (self.p.pid, fd)).read()
                o.mut = (int(fl.split('flags:')[1].split()[0], 8) & O_ACC) != 0
            except (OSError, IndexError, ValueError):
                o.mut = False
        if o.rel is None and (o.rel2 is None):
            o.mut = False
        o.text = '%s %s%s' % (o.kind, o.rel if o.rel is not None else o.path, ' -> %s' % o.rel2 if o.rel2 else '')
        if o.kind == 'write':
            o.text += ' %d' % x
        self.pending = o
        return o

    def answer(self, act=0, err=0, num=0):
        o, self.pending = self.pending, None
        if o.kind == 'open' and (o.rel is not None):
            act |= 0x100
        try:
            self.sock.send(struct.pack('<QQQQ', act, err, num, 0))
        except OSError:
            pass

    def _wait(self):
        try:
            self.rc = self.p.wait(30)
        except subprocess.TimeoutExpired:
            self.kill()
            raise RuntimeError('the generator closed its seam but did not end')
        self.finish()

    def finish(self):
        self.ended = True
        self.sock.close()
        self.err.seek(0)
        self.stderr = self.err.read().decode(errors='replace')
        self.err.close()
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def kill(self):
        if self.ended:
            return
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.rc = self.p.returncode
        self.finish()
