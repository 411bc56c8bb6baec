"""P19: reproducibility and independence of runs."""
import os, sys, json, subprocess
import numpy as np
from hypothesis import strategies as st
import vp
from vp import Sub, Skip, need
import gen

PROPERTY = 'P19'
RULE = 'the model has random bodies, surfaces or fields, i.e. another seed gives other arrays'
ASSUMPTIONS = ['the global generators of numpy and the random module are the only documented source of randomness',
               'fresh processes use another hash seed and another working directory']

GRID = gen.grids(nx=(1, 6), ny=(1, 5), nz=(1, 7))
FMT = ['npz', 'py', 'mat', 'h5', 'vtr', 'hgs']


def model_st():
    return st.booleans().flatmap(lambda t: gen.models(grid=GRID, trends_=t, max_strata=3))


@st.composite
def hist_cases(draw):
    n = draw(st.integers(1, 3))
    cfgs = [draw(model_st()) for _ in range(n)]
    ops = []
    for _ in range(draw(st.integers(2, 5))):
        ops.append({'cfg': draw(st.integers(0, n - 1)), 'numsim': draw(st.sampled_from([1, 1, 1, 2, 2, 3, 3, 6])),
                    'fmt': draw(st.lists(st.sampled_from(FMT[1:]), max_size=3, unique=True)), 'pre': draw(st.booleans())})
    if draw(st.integers(0, 5)) == 0 and all(len(gen.cells(c)[0]) > 1 for c in cfgs):
        # inputs of flow models (slow), before and after the arrays are written
        op = ops[draw(st.integers(0, len(ops) - 1))]
        op['fmt'] = draw(st.permutations(op['fmt'] + draw(st.sampled_from([['mf'], ['mf6'], ['mf6', 'mf']]))))
        op['pre'] = draw(st.integers(0, 3)) == 0
        ops.append(dict(op, fmt=[], numsim=draw(st.sampled_from([1, 2, 2, 3]))))
        op['numsim'] = draw(st.sampled_from([1, 2, 2]))
    return {'cfgs': cfgs, 'ops': ops}


def run_op(cfg, op, d, seed):
    cfg = dict(cfg)
    fmt = list(op['fmt'])
    fmt.insert(0 if op['pre'] else len(fmt), 'npz')
    cfg['run'] = {'runname': 'r', 'outputs': fmt, 'numsim': op['numsim'], 'overwrite': True}
    cfg['flowtrans'] = {'hin': [2., 0., 0.], 'hout': [1., 0., 0.]}
    ini = os.path.join(d, 'c.ini')
    with open(ini, 'w') as f:
        f.write(gen.render(cfg))
    if seed is not None:
        vp.seed_all(seed)
    import hyvr
    hyvr.run(ini, True)
    if op['numsim'] == 1:
        return [gen.load_npz(os.path.join(d, 'r', 'r.npz'))]
    return [gen.load_npz(os.path.join(d, 'r', 'real_{:03d}'.format(k + 1), 'r.npz')) for k in range(op['numsim'])]


def check_hist(case, env):
    """model: for every configuration the list of realizations that follow from its seed"""
    known = {}
    lab = set()
    with env.scratch() as d:
        for op in case['ops']:
            i = op['cfg']
            cfg = case['cfgs'][i]
            res = run_op(cfg, op, d, cfg['seed'])
            old = known.get(i, [])
            for k, (a, b) in enumerate(zip(old, res)):
                gen.diff_arrays(a, b, what='realization {} differs from the one of an earlier run with the same seed'.format(k + 1))
                lab.add('repeated realization {}'.format(k + 1))
            if len(res) > len(old):
                known[i] = res
        # further realizations are what separate runs from the state of the generator give
        i = max(known, key=lambda q: len(known[q]))
        if len(known[i]) > 1:
            one = {'numsim': 1, 'fmt': [], 'pre': True}
            for k in range(len(known[i])):
                r = run_op(case['cfgs'][i], one, d, case['cfgs'][i]['seed'] if k == 0 else None)[0]
                gen.diff_arrays(known[i][k], r, what='realization {} of a run is not what a fresh run with the same state of the generator gives'.format(k + 1))
            lab.add('realizations against separate runs')
        if not any(random_model(known[i]) for i in known):
            return None
    return sorted(lab) or ['history of different models']


def random_model(res):
    r = res[0]
    if len(res) > 1:
        try:
            gen.diff_arrays(res[0], res[1])
        except vp.Violation:
            return True
        return False
    return len(np.unique(r['ha'])) > 1 or ('k_iso' in r and len(np.unique(r['k_iso'])) > 6)


# ------------------------------------------------------------------------------------------
# regenerating one model object
# ------------------------------------------------------------------------------------------
@st.composite
def regen_cases(draw):
    return {'cfg': draw(model_st()), 'seeds': draw(st.lists(st.integers(0, 3), min_size=2, max_size=5))}


def check_regen(case, env):
    setup_from_inifile, assign_points = gen.internals()
    cfg = dict(case['cfg'])
    cfg['run'] = {'runname': 'r', 'outputs': ['npz']}

    with env.scratch() as d:
        ini = os.path.join(d, 'c.ini')
        with open(ini, 'w') as f:
            f.write(gen.render(cfg))

        def make(obj, seed):
            run, model, hyd = obj
            vp.seed_all(seed)
            model.generate_model()
            assign_points(model)
            if model.generate_hydraulics is True:
                model.generate_hydraulic_parameters(hyd)
            return {k: np.array(v) for k, v in model.data.items()}

        a = setup_from_inifile(ini, True)
        seen = {}
        lab = None
        for s in case['seeds']:
            r = make(a, s)
            fresh = make(setup_from_inifile(ini, True), s)
            gen.diff_arrays(fresh, r, what='regenerated model differs from a fresh one with the same seed')
            if s in seen:
                lab = 'same seed again'
                gen.diff_arrays(seen[s], r, what='regenerated model differs from the earlier one with the same seed')
            seen[s] = r
        vals = list(seen.values())
        for b in vals[1:]:
            try:
                gen.diff_arrays(vals[0], b)
            except vp.Violation:
                return ['regenerated {} times'.format(len(case['seeds']))] + ([lab] if lab else [])
    return None


# ------------------------------------------------------------------------------------------
# fresh processes: similar models one after the other in one process, and each one alone in its own process
# ------------------------------------------------------------------------------------------
def twin(draw, cfg):
    """a model that differs from the given one in few settings"""
    c = json.loads(json.dumps(cfg))
    m, s, h = c['model'], c['strata'], c['hydraulics']
    for _ in range(draw(st.integers(1, 2))):
        k = draw(st.sampled_from(['cells', 'cells', 'cells', 'shape', 'origin', 'corl', 'sig', 'k', 'element', 'element', 'facies', 'thick', 'flags', 'periodic',
                                  'seed', 'contact', 'bg']))
        e = c['elements'][draw(st.sampled_from(sorted(c['elements'])))]
        f = draw(st.sampled_from([.5, 2., 3.]))
        if k == 'cells':
            for q in draw(st.sampled_from(['x', 'y', 'xy'])):
                m['d' + q], m['l' + q] = gen.rnd(m['d' + q] * f), gen.rnd(m['l' + q] * f)
        elif k == 'shape':
            m['dx'], m['dy'], m['lx'], m['ly'] = m['dy'], m['dx'], m['ly'], m['lx']
        elif k == 'origin':
            m['x0'], m['y0'] = m.get('x0', 0.) + 7.5, m.get('y0', 0.) - 2.5
        elif k == 'corl':
            n = draw(st.sampled_from(['ycorlengths', 'ncorlengths']))
            h[n] = [[gen.rnd(v * f) for v in l] for l in h[n]]
        elif k == 'sig':
            n = draw(st.sampled_from(['sig_y', 'sig_n']))
            h[n] = [gen.rnd(v * f + 1e-4) for v in h[n]]
        elif k == 'k':
            n = draw(st.sampled_from(['k_h', 'k_ratio', 'n']))
            h[n] = [gen.rnd(v * f) for v in h[n]]
        elif k == 'element':
            n = draw(st.sampled_from([n for n in ('dip', 'azimuth', 'paleoflow', 'agg', 'width', 'length', 'depth', 'lens_thickness', 'dipset_dist',
                                                  'bulbset_dist', 'size_ztrend', 'lag_height', 'h', 'trough_density') if n in e and e[n] != -1] or [None]))
            if n is not None:
                f = min(f, 2.)
                e[n] = [gen.rnd(v * f) for v in e[n]] if isinstance(e[n], list) else min(gen.rnd(e[n] * f), .95 if n == 'h' else 1e9)
        elif k == 'facies':
            e['facies'] = e['facies'][::-1]
        elif k == 'thick':
            s['ae_z_mean'] = [[gen.rnd(v * f) for v in l] for l in s['ae_z_mean']]
        elif k == 'flags':
            m['heterogeneity_level'] = draw(st.sampled_from(['facies', 'internal', 'internal']))
            m['heterogeneity'] = draw(st.sampled_from([True, True, False]))
        elif k == 'periodic':
            m['periodic'] = not m['periodic']
        elif k == 'seed':
            c['seed'] += 1
        elif k == 'contact':
            for cm in s['strata_contact_models'] + [e['contact_model']]:
                if cm[0] == 'random':
                    i = draw(st.sampled_from([-3, -2, -1]))
                    cm[i] = gen.rnd(cm[i] * f)
        elif k == 'bg':
            s['bg_azim'] = [v + 10. for v in s['bg_azim']]
    return c


@st.composite
def fresh_cases(draw):
    c = draw(model_st())
    if draw(st.integers(0, 3)) > 0:
        c['model'].pop('heterogeneity', None)
        c['model']['heterogeneity_level'] = 'internal'
    cfgs = [c]
    for _ in range(draw(st.integers(2, 4))):
        cfgs.append(twin(draw, draw(st.sampled_from(cfgs))))
    if draw(st.booleans()):
        cfgs.insert(draw(st.integers(0, len(cfgs))), draw(model_st()))
    return {'cfgs': draw(st.permutations(cfgs)), 'hash': draw(st.integers(1, 2**31))}


SCRIPT = r'''
import sys, os, random, io, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import numpy as np
import hyvr
import warnings
warnings.simplefilter('ignore')
out = sys.stdout
sys.stdout = io.StringIO()
def child(items):
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            for ini, seed in items:
                random.seed(int(seed))
                np.random.seed(int(seed))
                hyvr.run(ini, True)
            rc = 0
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
        os._exit(rc)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
items = [a.rsplit('@', 1) for a in sys.argv[2:]]
n = len(items) // 2
rc = child(items[:n])
for i in items[n:]:
    rc = rc or child([i])
sys.exit(1 if rc else 0)
'''


def check_fresh(case, env):
    n = len(case['cfgs'])
    with env.scratch() as d:
        args = []
        os.makedirs(os.path.join(d, 'cwd'))
        for i in range(2 * n):
            cfg = dict(case['cfgs'][i % n])
            cfg['run'] = {'runname': 'q', 'outputs': ['npz']}
            os.makedirs(os.path.join(d, str(i)))
            ini = os.path.join(d, str(i), 'model.ini')
            with open(ini, 'w') as f:
                f.write(gen.render(cfg))
            args.append('{}@{}'.format(ini, cfg['seed']))
        e = dict(os.environ, PYTHONHASHSEED=str(case['hash']), PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, '-c', SCRIPT, vp.REPO] + args, cwd=os.path.join(d, 'cwd'), env=e, capture_output=True, text=True, timeout=100)
        need(p.returncode == 0, 'run in a fresh process failed: {}', p.stderr[-400:])
        lab = None
        here = gen.simulate(case['cfgs'][0], env)
        for i in range(n):
            a = gen.load_npz(os.path.join(d, str(i), 'q', 'q.npz'))
            b = gen.load_npz(os.path.join(d, str(n + i), 'q', 'q.npz'))
            gen.diff_arrays(b, a, what='model {} of a series of models in one process differs from the same model in a process of its own'.format(i + 1))
            if i == 0:
                gen.diff_arrays(here, a, what='the model differs in a fresh process')
            if random_model([a]):
                lab = 'fresh process'
    return lab


SUBS = [Sub('history', hist_cases(), check_hist, quick=250),
        Sub('regenerate', regen_cases(), check_regen, quick=250),
        Sub('fresh', fresh_cases(), check_fresh, quick=240)]
