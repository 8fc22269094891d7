#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--secs N] [--seed N]
   check.py --replay FILE
   check.py --setup

Decides one property by seeded simulation. Exit 0: held on everything explored;
exit 1 and a VIOLATION line: broken; anything else: the check itself failed.
"""
import argparse, json, os, shutil, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sim', 'py'))
sys.dont_write_bytecode = True

DB = ['C%02d' % i for i in range(1, 15)] + ['C21', 'C22']
GEN = ['C15', 'C16', 'C17', 'C18', 'C19', 'C20']


def known(prop):
    """Listed findings of a property: [(signature pattern, text)]."""
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                sig, text = rest.split(' ', 1)
                out.append((sig.split('=', 1)[1], text))
    return out


def write_evidence(prop, ev):
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % prop)
    json.dump(ev, open(tmp, 'w'), indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(d, prop + '.json'))


def replay_path(prop, n):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, '%s-%d.json' % (prop, n))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--secs', type=float, default=0)
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix='sqlgen-sim-')
    try:
        if a.setup:
            import build
            build.db_workspace(scratch, '1', 1)
            import genbuild
            genbuild.build(os.path.join(scratch, 'build'))
            print('setup: the simulators build')
            return 0
        if a.replay:
            r = json.load(open(a.replay))
            mod = __import__('dbsim' if r['property'] in DB else 'gensim')
            return mod.replay(a.replay, r, scratch)
        if a.property in DB:
            import dbsim as mod
        elif a.property in GEN:
            import gensim as mod
        else:
            print('unknown property', a.property, file=sys.stderr)
            return 2
        ctx = argparse.Namespace(prop=a.property, tier=a.tier, seed=a.seed, secs=a.secs, scratch=scratch,
                                 known=known(a.property), replay_path=replay_path, evidence=write_evidence, start=time.time())
        print('check %s tier=%s seed=%d' % (a.property, a.tier, a.seed), flush=True)
        return mod.check(ctx)
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
