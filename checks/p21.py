"""P21: trends of hydraulic parameters."""
import copy
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen
import p16

PROPERTY = 'P21'
RULE = 'at least one trend changes the parameters of some cells'
ASSUMPTIONS = ['internal heterogeneity (trends are documented for that level)', 'the first factor holds in the centre of the lowest (first) cell, the second in that of the highest (last) one',
               'relative tolerance 1e-9']
KEYS = ['k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend']


@st.composite
def cases(draw):
    cfg = draw(gen.models(grid=gen.grids(nx=(1, 7), ny=(1, 5), nz=(1, 9)), het={'heterogeneity_level': 'internal'} if draw(st.booleans()) else {}))
    v = st.one_of(gen.dec(.1, 3, .1), st.sampled_from([1., 0.5, 10., .01]))
    p = draw(st.sampled_from([1, 2, 4]))
    T = {}
    for sec in list(cfg['elements']) + ['']:
        for k in KEYS:
            if draw(st.integers(0, 4)) < p:
                T.setdefault(sec, {})[k] = [draw(v), draw(v)]
    return {'cfg': cfg, 'trends': T}


def check(case, env):
    cfg, T = case['cfg'], case['trends']
    a = gen.simulate(cfg, env)
    c = copy.deepcopy(cfg)
    for sec, d in T.items():
        (c['hydraulics'] if sec == '' else c['elements'][sec]).update(d)
    b = gen.simulate(c, env)
    gen.diff_arrays(a, b, ['facies', 'ae', 'ha', 'hat', 'strata', 'azim', 'dip', 'anirat'], 'array changes with a hydraulic trend')
    nx, ny, nz = a['k_iso'].shape
    fx = lambda t: (np.array([t[0] + (t[1] - t[0]) * i / (nx - 1) for i in range(nx)]) if nx > 1 else np.array([t[0]]))[:, None, None]
    fz = lambda t: (np.array([t[0] + (t[1] - t[0]) * i / (nz - 1) for i in range(nz)]) if nz > 1 else np.array([t[0]]))[None, None, :]
    fac = {'k_iso': np.ones((nx, ny, nz)), 'poros': np.ones((nx, ny, nz))}
    lab = set()
    for sec, d in T.items():
        sel = np.ones((nx, ny, nz), bool) if sec == '' else a['hat'] == cfg['strata']['ae'].index(sec)
        for k, t in d.items():
            f = np.broadcast_to(fx(t) if k[2] == 'x' else fz(t), (nx, ny, nz))
            arr = fac['k_iso' if k[0] == 'k' else 'poros']
            arr[sel] *= f[sel]
            if sel.any() and np.any(f[sel] != 1):
                lab.add(('global ' if sec == '' else 'element ') + k)
    for k, f in fac.items():
        e = a[k] * f
        ok = np.abs(b[k] - e) <= 1e-9 * np.abs(e)
        if not ok.all():
            i = tuple(np.argwhere(~ok)[0].tolist())
            need(False, '{} of cell {} changes by the factor {:.6g} instead of {:.6g} with trends {}', k, i, b[k][i] / a[k][i], f[i], T)
    p16.verify(b['ktensors'], b['k_iso'], np.deg2rad(b['azim']), np.deg2rad(b['dip']), b['anirat'])
    return sorted(lab)


SUBS = [Sub('trends', cases(), check, quick=1800)]
