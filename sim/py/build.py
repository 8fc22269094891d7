"""Assembles the workspace of the database simulation and builds its binary."""
import os, shutil
import ws, overlay


class Broken(Exception):
    """The generator failed on accepted sources or its output does not compile."""
    static = False

    def __init__(self, sig, text):
        super().__init__(text)
        self.sig = sig


def db_workspace(root, seed, nrand, variants=None, log=lambda *a: None):
    """Returns (binary, info). Raises GenFailure when generation breaks."""
    os.makedirs(root, exist_ok=True)
    cli = os.path.join(root, 'sqlgen')
    ws.build_cli(cli)
    log('built the generator')
    w = os.path.join(root, 'ws')
    os.makedirs(w)
    ws.write_mod(w)
    vs = list(variants or ws.VARIANTS)
    for p in ('core', 'eng', 'h'):
        shutil.copytree(os.path.join(ws.SIM, p), os.path.join(w, p))
    for v in vs:
        models = ws.models_for(v, seed, nrand)
        r = ws.gen_variant(w, cli, v, models, seed)
        if r.returncode != 0:
            raise Broken(v + '/generate', 'the generator failed for variant %s (exit %d):\n%s' % (v, r.returncode, (r.stdout + r.stderr)[-3000:]))
        g = os.path.join(w, 'glue_' + v)
        os.makedirs(g)
        open(g + '/reg.go', 'w').write(ws.reg(v, models, seed))
        fl = 'pg' if ws.VARIANTS[v][0] == 'postgres' else 'my'
        for f in ('common', fl):
            t = open(os.path.join(ws.SIM, 'glue', 'glue_%s.go.tmpl' % f)).read()
            open(os.path.join(g, f + '.go'), 'w').write(t.replace('__VAR__', '_' + v).replace('__DIALECT__', v).replace('__OPDIR__', ws.config_for(v, seed)['opdir']))
    log('generated the packages')
    r = ws.run([ws.GO25, 'build'] + ['./m' + v for v in vs] + ['./db/' + v for v in vs] + ['./' + ws.config_for(v, seed)['opdir'] for v in vs], cwd=w, env=ws.env(CGO_ENABLED='0'), check=False)
    if r.returncode != 0:
        raise Broken('compile', 'the generated code does not compile:\n%s' % (r.stdout + r.stderr)[-3000:])
    open(w + '/sim_test.go', 'w').write('package simws\n\nimport (\n\t"testing"\n\n\t"simws/h"\n%s)\n\nfunc TestSim(t *testing.T) { h.Main(t) }\n' % ''.join('\t_ "simws/glue_%s"\n' % v for v in vs))
    ov = overlay.sim(os.path.join(root, 'overlay'))
    out = os.path.join(root, 'sim.test')
    ws.run([ws.GO25, 'test', '-c', '-vet=off', '-overlay', ov, '-o', out, '.'], cwd=w, env=ws.env(CGO_ENABLED='0'))
    log('built the simulator')
    return out
