"""P27: independence of the resolution of the grid."""
import copy
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen

PROPERTY = 'P27'
RULE = 'the grid is refined in at least one direction and the model has several bodies, elements or strata'
ASSUMPTIONS = ['bodies start inside their own element','flat contacts (random surfaces are sampled on the grid) and no random fields',
               'cells are refined by odd numbers, so that the centres of the coarse cells are centres of fine cells, and cell sizes are dyadic, so that they are exact']


@st.composite
def cases(draw):
    fine = [draw(st.sampled_from([.125, .25, .5])) for _ in range(3)]
    n = [draw(st.integers(1, 6)), draw(st.integers(1, 6)), draw(st.integers(1, 9))]
    r = [draw(st.sampled_from([1, 3, 3, 5])) for _ in range(3)]
    m = {'periodic': draw(st.booleans())}
    for k, c in enumerate('xyz'):
        m[c + '0'] = draw(gen.dec(-20, 20, .25))
        m['d' + c] = fine[k] * r[k]
        m['l' + c] = fine[k] * r[k] * n[k]
    het = {'hydraulics': True, 'heterogeneity': False} if draw(st.booleans()) else {'hydraulics': False}
    cfg = draw(gen.models(rough=False, grid=st.just(m), sig=False, het=het))
    for e in cfg['elements'].values():
        if e['geometry'] == 'trough' and len(cfg['strata']['strata']) == 1 and min(cfg['strata']['ae_z_mean'][0]) > 3 * m['lz'] and draw(st.booleans()):
            f = st.sampled_from([.1, .35, .5, .8])
            pts = [[draw(f), draw(f), draw(st.sampled_from([.2, .45, .7, .95]))] for _ in range(draw(st.integers(1, 4)))]
            e['te_xyz'] = [[gen.rnd(m.get(c + '0', 0.) + q * m['l' + c]) for q, c in zip(p, 'xyz')] for p in pts]
    return {'cfg': cfg, 'r': r}


def check(case, env):
    cfg, r = case['cfg'], case['r']
    a = gen.simulate(cfg, env)
    c = copy.deepcopy(cfg)
    for k, ax in enumerate('xyz'):
        c['model']['d' + ax] = c['model']['d' + ax] / r[k]
    b = gen.simulate(c, env)
    need(set(a) == set(b), 'arrays {} / {}', sorted(a), sorted(b))
    b = {k: v[r[0] // 2::r[0], r[1] // 2::r[1], r[2] // 2::r[2]] for k, v in b.items()}
    what = 'refining the cells by {} changes the model at the centres of the cells'.format(r)
    gen.diff_arrays(a, b, ['strata', 'ae', 'hat', 'ha', 'facies'], what)
    for k in a:
        if a[k].dtype.kind == 'f':
            need(a[k].shape == b[k].shape, what + ': shape of {}', k)
            tol = 1e-9 * np.maximum(1e-12, np.abs(a[k]).max())
            need(np.all(np.abs(a[k] - b[k]) <= tol), what + ': {}', k)
    if max(r) > 1 and max(len(np.unique(a[k])) for k in ('ha', 'ae', 'strata')) > 1:
        return ['refined ' + ''.join(c for c, v in zip('xyz', r) if v > 1)] + sorted({e['geometry'] for e in cfg['elements'].values()})


SUBS = [Sub('refine', cases(), check, quick=1400)]
