"""Runs the database simulation for one property and reports."""
import collections, json, os, subprocess, sys, time
import build, ws

WORKERS = 8
REAL = ['generated model methods (real generator output)', 'generated db.go and operator.go helpers (real templates)',
        'sequel, sequel/encoding, sequel/sqltype, sequel/strpool and every other runtime package of the repository',
        'database/sql (Go 1.25.14) with its connection pool, statement retry and context handling']
STUB = ['database server and driver: an in-memory SQL engine with the MySQL, PostgreSQL and SQLite grammars, transactions, row locks and restart',
        'wall clock: testing/synctest bubble', 'goroutine choice: seeded scheduler', 'sync.Pool reuse: seeded choice', 'map iteration order: seeded']
RULE = ('one run = one seed: it picks dialect and quoting, models, prior rows, wire representation, connection pool size, tasks, their operations, '
        'every scheduling choice at driver calls, pool accesses and lock waits, and the faults. A run is non-trivial when at least one judged call '
        'reached the database and returned data or changed a row; distinct runs are counted by interleaving shape '
        '(sequence of task and point of each step plus faults).')


def env():
    return dict(os.environ, GOMAXPROCS='1', GODEBUG='asyncpreemptoff=1', GOGC='200')


def run_workers(binary, cfg, scratch, secs, tag):
    ps = []
    for i in range(WORKERS):
        out = os.path.join(scratch, '%s-%d.json' % (tag, i))
        beat = os.path.join(scratch, '%s-%d.beat' % (tag, i))
        c = dict(cfg, Worker=i, Stride=WORKERS, Secs=secs, Out=out, Beat=beat)
        log = open(os.path.join(scratch, '%s-%d.log' % (tag, i)), 'w')
        p = subprocess.Popen([binary, '-test.run', '^TestSim$', '-test.timeout', '0'], env=dict(env(), SIM_CFG=json.dumps(c)), stdout=log, stderr=subprocess.STDOUT, cwd=scratch)
        ps.append((p, c, log.name))
    end = time.time() + secs + 100
    reps, crashes = [], []
    for p, c, log in ps:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 'watchdog'
        seed = int(open(c['Beat']).read() or 0) if os.path.exists(c['Beat']) else 0
        if rc == 0:
            reps.append(json.load(open(c['Out'])))
        else:
            if os.path.exists(c['Out']):
                reps.append(json.load(open(c['Out'])))
            crashes.append((rc, seed, open(log, errors='replace').read()[-200000:], c))
    return reps, crashes


def one_seed(binary, cfg, seed, scratch):
    """Runs one seed alone; returns (exit code or 'watchdog', log)."""
    c = dict(cfg, Worker=0, Stride=1, Secs=30, Max=1, Exact=seed, Out=os.path.join(scratch, 'one.json'))
    try:
        p = subprocess.run([binary, '-test.run', '^TestSim$', '-test.timeout', '0'], env=dict(env(), SIM_CFG=json.dumps(c)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=scratch, timeout=60, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 'watchdog', ''


def merge(reps):
    m = collections.Counter()
    for r in reps:
        for k in ('Runs', 'Nontrivial', 'Steps', 'Calls', 'Stmts', 'Contended', 'Multi', 'Locks', 'Concurrent', 'Mismatch', 'Checked', 'SimSecs'):
            m[k] += r[k]
    maps = {}
    for k in ('Faults', 'Ops', 'Variants', 'Known'):
        c = collections.Counter()
        for r in reps:
            c.update(r[k] or {})
        maps[k] = dict(sorted(c.items()))
    shapes, states = set(), set()
    for r in reps:
        shapes.update(r['Shapes'] or [])
        states.update(r['States'] or [])
    return m, maps, shapes, states


def check(ctx):
    quick = ctx.tier != 'thorough'
    rounds = 1 if quick else 6
    secs = ctx.secs or (30 if quick else 120)
    nrand = (8 if ctx.prop == 'C21' else 3) if quick else 8
    reps, msgs, found, found_sigs = [], {}, [], set()
    samples = []
    for rd in range(rounds):
        wseed = str(ctx.seed) if rd == 0 else '%d.%d' % (ctx.seed, rd)
        root = os.path.join(ctx.scratch, 'w%d' % rd)
        try:
            binary = build.db_workspace(root, wseed, nrand)
        except build.Broken as e:
            if ctx.prop != 'C21' and not e.static:
                raise
            if ctx.prop != 'C21':
                raise RuntimeError('the generated packages are unusable (see C21): %s' % e)
            path = ctx.replay_path(ctx.prop, 1)
            json.dump(dict(property=ctx.prop, kind='generate', workspace_seed=wseed, nrand=nrand, signature=e.sig, message=str(e)), open(path, 'w'), indent=1)
            print(str(e)[:3000])
            ev = evidence(ctx, reps, 1, samples)
            ctx.evidence(ctx.prop, ev)
            print('VIOLATION property=%s replay=%s' % (ctx.prop, path))
            return 1
        print('%.0fs: workspace %s built' % (time.time() - ctx.start, wseed), flush=True)
        cfg = dict(Prop=ctx.prop, Seed=ctx.seed * 1000 + rd if rd else ctx.seed, Known=[s for s, _ in ctx.known], Max=0)
        rs, crashes = run_workers(binary, cfg, ctx.scratch, secs, 'r%d' % rd)
        reps += rs
        for r in rs:
            msgs.update(r['KnownMsg'] or {})
            for f in r['Found'] or []:
                if f['Sig'] not in found_sigs:
                    found_sigs.add(f['Sig'])
                    found.append((f, wseed))
        if not samples:
            samples = sample_runs(binary, cfg, ctx)
        for rc, seed, log, c in crashes:
            rc2, log2 = one_seed(binary, dict(cfg, Known=[]), seed, ctx.scratch)
            ours = 'simws/db/' in log2 or 'si3nloong/sqlgen' in log2
            if rc2 not in (0, 'watchdog') and ours and ('fatal error' in log2 or 'panic' in log2) and not found:
                found.append((dict(Prop=ctx.prop, Seed=seed, Sig='crash', Msg='the process running the helpers died:\n' + log2[-3000:], Vals=[], Full=0, Log=log2.splitlines()[-80:], Hash=''), wseed))
            elif not found:
                print(log[-6000:])
                raise RuntimeError('worker ended with %s at seed %s' % (rc, seed))
        m, maps, shapes, states = merge(reps)
        if m['Mismatch']:
            for r in rs:
                for s in r.get('Samples') or []:
                    print('MISMATCH', s[:600])
            raise RuntimeError('%d of %d re-run seeds differed: the simulation is not deterministic' % (m['Mismatch'], m['Checked']))
        if m['Nontrivial'] < 50 and not found:
            raise RuntimeError('only %d non-trivial runs' % m['Nontrivial'])
        if found:
            break
    ev = evidence(ctx, reps, len(found), samples)
    ctx.evidence(ctx.prop, ev)
    c = ev['coverage']
    print('%d runs (%d non-trivial), %d calls, %d statements, %d distinct interleavings, faults %s' % (
        c['evaluations'], c['nontrivial_runs'], c['calls'], c['statements'], c['distinct_nontrivial'], sum(c['faults_injected'].values())))
    m, maps, _, _ = merge(reps)
    for sig, text in ctx.known:
        if sig in maps['Known']:
            print('KNOWN-FINDING: property=%s %s' % (ctx.prop, text))
    if not found:
        return 0
    rc = 0
    for n, (f, wseed) in enumerate(found[:6], 1):
        path = ctx.replay_path(ctx.prop, n)
        json.dump(dict(property=ctx.prop, kind='run', seed=f['Seed'], signature=f['Sig'], message=f['Msg'], decisions=f['Vals'], unminimised=f['Full'],
                       event_log_hash=f['Hash'], event_log=f['Log'], workspace_seed=wseed, nrand=nrand), open(path, 'w'), indent=1)
        print('seed %s: %s\n%s' % (f['Seed'], f['Sig'], f['Msg'][:2500]))
        for l in (f['Log'] or [])[-40:]:
            print('    ' + l[:400])
        print('VIOLATION property=%s replay=%s' % (ctx.prop, path), flush=True)
        rc = 1
    return rc


def sample_runs(binary, cfg, ctx):
    """The event logs of two actual runs."""
    out = os.path.join(ctx.scratch, 'sample.json')
    c = dict(cfg, Worker=0, Stride=1, Secs=10, Max=0, Sample=2, Out=out)
    p = subprocess.run([binary, '-test.run', '^TestSim$', '-test.timeout', '0'], env=dict(env(), SIM_CFG=json.dumps(c)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=ctx.scratch, timeout=60, text=True, errors='replace')
    try:
        return json.load(open(out))
    except Exception:
        return [p.stdout[-500:]]


def evidence(ctx, reps, nviol, samples):
    m, maps, shapes, states = merge(reps)
    wall = time.time() - ctx.start
    search = sum(r['Wall'] for r in reps) / WORKERS if reps else 0
    seeds = [(r['FirstSeed'], r['LastSeed']) for r in reps]
    return dict(property=ctx.prop, tier=ctx.tier if ctx.tier in ('quick', 'thorough') else 'quick', seed=ctx.seed, level='exploration', wall_s=round(wall, 1), violations=nviol,
                assumptions=['the simulated database follows the documented behaviour of MySQL 8, PostgreSQL 15 and SQLite 3 for the statements the helpers issue',
                             'context switches happen at driver calls, pool accesses, contended locks and lock waits; code between two such points runs atomically',
                             'drivers hand over only the wire representations listed in DESIGN.md'],
                coverage=dict(evaluations=m['Runs'], distinct_nontrivial=len(shapes), nontrivial_runs=m['Nontrivial'], rule=RULE, samples=samples,
                              calls=m['Calls'], statements=m['Stmts'], scheduler_steps=m['Steps'], contended_choices=m['Contended'], runs_with_several_tasks=m['Concurrent'],
                              multi_page_iterations=m['Multi'], lock_cycles=m['Locks'], simulated_seconds=round(m['SimSecs'], 1),
                              distinct_database_states=len(states), faults_injected=maps['Faults'], operations=maps['Ops'], runs_per_variant=maps['Variants'],
                              known_findings_hit=maps['Known'], determinism_reruns=m['Checked'], determinism_mismatches=m['Mismatch'],
                              seed_range=[min(s for s, _ in seeds), max(s for _, s in seeds)] if seeds else [],
                              runs_per_hour=int(m['Runs'] / search * 3600) if search > 0.5 else 0, real_components=REAL, stub_components=STUB))


def replay(path, r, scratch):
    if r.get('kind') == 'generate':
        try:
            build.db_workspace(scratch + '/w', r['workspace_seed'], r['nrand'])
        except build.Broken as e:
            print('REPRODUCED %s' % e)
            print('VIOLATION property=%s replay=%s' % (r['property'], path))
            return 1
        print('NOT REPRODUCED')
        return 0
    binary = build.db_workspace(scratch + '/w', r['workspace_seed'], r['nrand'])
    if r['signature'] == 'crash':
        rc, log = one_seed(binary, dict(Prop=r['property'], Seed=0, Known=[]), r['seed'], scratch)
        print(log[-4000:])
        ok = rc not in (0, 'watchdog')
    else:
        p = subprocess.run([binary, '-test.run', '^TestSim$', '-test.timeout', '0'], env=dict(env(), SIM_CFG=json.dumps(dict(Prop=r['property'], Replay=os.path.abspath(path)))), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=scratch, text=True, errors='replace')
        print(p.stdout)
        ok = 'REPRODUCED %s' % r['property'] in p.stdout and 'NOT REPRODUCED' not in p.stdout
    if ok:
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1
    return 0
