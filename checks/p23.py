"""P23: independence of the coordinate origin."""
import copy
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen

PROPERTY = 'P23'
RULE = 'the shift is not zero and the model has several bodies, elements or strata'
ASSUMPTIONS = ['cell sizes, origins and shifts are multiples of 1/8 and at most 4096, so that all cell coordinates are exact',
               'numbers are compared with a relative tolerance of 1e-6 (angles 1e-5 degrees), indices exactly']


@st.composite
def cases(draw):
    cfg = draw(gen.models(grid=gen.grids(nx=(1, 8), ny=(1, 7), nz=(1, 10), dyadic=True), trends_=True))
    m = cfg['model']
    for e in cfg['elements'].values():
        if 'agg' in e:
            e['agg'] = draw(st.sampled_from([.7531, 1.2713, 2.517, 6.023])) * m['dz']
            e['depth'] = gen.rnd(e['depth'] * 1.0137)
        if e['geometry'] == 'sheet':
            e['lens_thickness'] = draw(st.sampled_from([-1., 1.3721 * m['dz'], 2.7539 * m['dz'], m['lz'] * 1.0031]))
        if e['geometry'] == 'trough' and draw(st.integers(0, 3)) == 0:
            f = st.sampled_from([.1, .35, .5, .8])
            pts = [[draw(f), draw(f), draw(st.sampled_from([.2, .45, .7, .95]))] for _ in range(draw(st.integers(1, 4)))]
            e['te_xyz'] = [[gen.rnd(m.get(c + '0', 0.) + q * m['l' + c]) for q, c in zip(p, 'xyz')] for p in pts]
    s = st.one_of(gen.dec(-4, 4, .125), gen.dec(-1024, 1024, 8), st.sampled_from([4096., -4096.]), st.just(0.))
    sh = [draw(s) for _ in range(3)]
    if draw(st.booleans()):
        # to the origin
        sh = [-m.get(c + '0', 0.) for c in 'xyz']
    return {'cfg': cfg, 'shift': sh}


def shifted(cfg, sh):
    c = copy.deepcopy(cfg)
    m = c['model']
    for k, ax in enumerate('xyz'):
        m[ax + '0'] = m.get(ax + '0', 0.) + sh[k]
    for cm in c['strata']['strata_contact_models']:
        cm[1] = cm[1] + sh[2]
    for e in c['elements'].values():
        if 'te_xyz' in e:
            e['te_xyz'] = [[p[k] + sh[k] for k in range(3)] for p in e['te_xyz']]
    return c


def check(case, env):
    cfg, sh = case['cfg'], case['shift']
    a = gen.simulate(cfg, env)
    b = gen.simulate(shifted(cfg, sh), env)
    need(set(a) == set(b), 'arrays {} / {}', sorted(a), sorted(b))
    what = 'shift of the origin by {} changes the model'.format(sh)
    gen.diff_arrays(a, b, ['strata', 'ae', 'hat', 'ha', 'facies'], what)
    for k in ('azim', 'dip'):
        d = np.abs(a[k] - b[k])
        d = np.minimum(d, np.abs(d - 360))
        need(np.all(d < 1e-5), what + ': {} by {}', k, d.max())
    for k in ('k_iso', 'poros', 'anirat', 'ktensors'):
        if k in a:
            tol = 1e-6 * np.abs(a[k]).max() if k == 'ktensors' else 1e-6 * np.abs(a[k])
            need(a[k].shape == b[k].shape and np.all(np.abs(a[k] - b[k]) <= tol), what + ': {}', k)
    if any(sh) and max(len(np.unique(a[k])) for k in ('ha', 'ae', 'strata')) > 1:
        return ['shift ' + ''.join(c for c, v in zip('xyz', sh) if v)] + sorted({e['geometry'] for e in cfg['elements'].values()})


SUBS = [Sub('shift', cases(), check, quick=2400)]
