"""Overlay of the Go standard library that puts sync.Pool and the runtime's
randomness (map iteration, select) behind seams the simulator owns."""
import json, os

GOROOT25 = '/opt/veriftools/go1.25.14'


def edit(root, rel, subs, out):
    src = open(os.path.join(root, 'src', rel)).read()
    for a, b, n in subs:
        if src.count(a) < 1:
            raise RuntimeError('overlay: %s does not contain %r' % (rel, a))
        src = src.replace(a, b, n)
    p = os.path.join(out, rel.replace('/', '_'))
    open(p, 'w').write(src)
    return os.path.join(root, 'src', rel), p


def sim(out, root=GOROOT25):
    os.makedirs(out, exist_ok=True)
    m = dict([
        edit(root, 'sync/pool.go', [
            ('// Put adds x to the pool.\nfunc (p *Pool) Put(x any) {\n\tif x == nil {\n\t\treturn\n\t}\n',
             '// SimPoolHook, when set, may stand in for a pool.\nvar SimPoolHook func(p *Pool, put bool, x any) (any, bool)\n\n'
             '// Put adds x to the pool.\nfunc (p *Pool) Put(x any) {\n\tif x == nil {\n\t\treturn\n\t}\n'
             '\tif h := SimPoolHook; h != nil {\n\t\tif _, ok := h(p, true, x); ok {\n\t\t\treturn\n\t\t}\n\t}\n', 1),
            ('func (p *Pool) Get() any {\n', 'func (p *Pool) Get() any {\n\tif h := SimPoolHook; h != nil {\n\t\tif x, ok := h(p, false, nil); ok {\n\t\t\treturn x\n\t\t}\n\t}\n', 1),
        ], out),
        edit(root, 'sync/mutex.go', [
            ('func (m *Mutex) Lock() {\n', '// SimLockHook, when set, waits for a lock in a simulated run.\nvar SimLockHook func(try func() bool)\n\n'
             'func (m *Mutex) Lock() {\n\tif h := SimLockHook; h != nil && isynctest.IsInBubble() {\n\t\tif !m.mu.TryLock() {\n\t\t\th(m.mu.TryLock)\n\t\t}\n\t\treturn\n\t}\n', 1),
            ('import (\n', 'import (\n\tisynctest "internal/synctest"\n', 1),
        ], out),
        edit(root, 'sync/rwmutex.go', [
            ('func (rw *RWMutex) RLock() {\n', 'func (rw *RWMutex) RLock() {\n\tif h := SimLockHook; h != nil && isynctest.IsInBubble() {\n\t\tif !rw.TryRLock() {\n\t\t\th(rw.TryRLock)\n\t\t}\n\t\treturn\n\t}\n', 1),
            ('func (rw *RWMutex) Lock() {\n', 'func (rw *RWMutex) Lock() {\n\tif h := SimLockHook; h != nil && isynctest.IsInBubble() {\n\t\tif !rw.TryLock() {\n\t\t\th(rw.TryLock)\n\t\t}\n\t\treturn\n\t}\n', 1),
            ('import (\n', 'import (\n\tisynctest "internal/synctest"\n', 1),
        ], out),
        edit(root, 'runtime/rand.go', [
            ('\tglobalRand.state.Init(*seed)\n', '\tfor i := range seed {\n\t\tseed[i] = byte(i*7 + 1)\n\t}\n\tglobalRand.state.Init(*seed)\n', 1),
            ('func rand() uint64 {\n', 'func rand() uint64 {\n\tif simSeed != 0 {\n\t\treturn simSeed\n\t}\n', 1),
            ('// randn is like rand()', '// simSeed replaces the randomness of maps while not 0.\nvar simSeed uint64\n\n// SimReseed makes map iteration a function of s; 0 restores randomness.\nfunc SimReseed(s uint64) { simSeed = s }\n\n'
             '// SimGoid numbers the running goroutine.\nfunc SimGoid() uint64 { return getg().goid }\n\nfunc simRandn(n uint32) uint32 {\n\tif simSeed != 0 {\n\t\treturn uint32((uint64(uint32(simSeed>>7)) * uint64(n)) >> 32)\n\t}\n\treturn cheaprandn(n)\n}\n\n// randn is like rand()', 1),
        ], out),
        edit(root, 'runtime/select.go', [('cheaprandn(uint32(norder + 1))', 'simRandn(uint32(norder + 1))', 1)], out),
    ])
    tm = open(os.path.join(root, 'src/runtime/time.go')).read()
    if 't.rand = cheaprand()' in tm:
        k, v = edit(root, 'runtime/time.go', [('t.rand = cheaprand()', 't.rand = simRandn(1 << 31)', 9)], out)
        m[k] = v
    f = os.path.join(out, 'overlay.json')
    json.dump({'Replace': m}, open(f, 'w'))
    return f
