"""P26: independence of the unit of length."""
import copy
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen

PROPERTY = 'P26'
RULE = 'the factor is not one and the model has several bodies, elements or strata'
ASSUMPTIONS = ['factors are powers of two, so that the scaling of all settings is exact',
               'channels: undisturbed, massive, not wider than the domain, step length at most a sixth of the domain (their centrelines are sampled with a fixed spacing), factors 1/4 to 8',
               'indices are compared exactly, angles to 1e-7 degrees, hydraulic parameters to a relative 1e-7']

LEN = ['agg', 'width', 'depth', 'length', 'ds', 'mig', 'lag_height', 'dipset_dist', 'bulbset_dist']


@st.composite
def cases(draw, channels):
    geo = ('sheet', 'trough', 'channel') if channels else ('sheet', 'trough')
    cfg = draw(gen.models(geometries=geo, grid=gen.grids(nx=(1, 8), ny=(1, 7), nz=(1, 10)), trends_=True))
    m = cfg['model']
    # other realistic values than those with simple ratios
    for e in cfg['elements'].values():
        if e['geometry'] == 'channel':
            e['structure'] = 'massive'
            e['eps_factor'] = 0.
        if e['geometry'] == 'trough' and draw(st.integers(0, 3)) == 0:
            f = st.sampled_from([.1, .35, .5, .8])
            pts = [[draw(f), draw(f), draw(st.sampled_from([.2, .45, .7, .95]))] for _ in range(draw(st.integers(1, 4)))]
            e['te_xyz'] = [[gen.rnd(m.get(c + '0', 0.) + q * m['l' + c]) for q, c in zip(p, 'xyz')] for p in pts]
    f = draw(st.sampled_from([.5, .25, 2., 4., 8.] if channels else [.5, 2., 8., 64., 4096., 1 / 16, 1 / 256, 2.**-14]))
    if channels:
        for e in cfg['elements'].values():
            if 'ds' in e:
                s = min(m['lx'], m['ly'])
                e['ds'] = min(draw(st.sampled_from([.3, .5, .7, 1.])), s / 6)
                e['width'] = min(e['width'], .7 * s)
    return {'cfg': cfg, 'f': f}


def scaled(cfg, f):
    c = copy.deepcopy(cfg)
    m = c['model']
    for k in ('x0', 'y0', 'z0', 'dx', 'dy', 'dz', 'lx', 'ly', 'lz'):
        if k in m:
            m[k] = m[k] * f

    def contact(cm, o):
        if cm[0] == 'random':
            cm[1 + o] *= f * f
            cm[2 + o] *= f
            cm[3 + o] *= f
    s = c['strata']
    for cm in s['strata_contact_models']:
        cm[1] *= f
        contact(cm, 1)
    s['ae_z_mean'] = [[v * f for v in l] for l in s['ae_z_mean']]
    s['avul'] = [[v * f for v in l] for l in s['avul']]
    for e in c['elements'].values():
        contact(e['contact_model'], 0)
        for k in LEN:
            if k in e:
                e[k] = e[k] * f
        if e.get('lens_thickness', -1) != -1:
            e['lens_thickness'] *= f
        if 'trough_density' in e:
            e['trough_density'] = e['trough_density'] / f / f
        if 'migrate' in e:
            e['migrate'] = [v * f for v in e['migrate']]
        if 'te_xyz' in e:
            e['te_xyz'] = [[v * f for v in p] for p in e['te_xyz']]
    h = c['hydraulics']
    for k in ('ycorlengths', 'ncorlengths'):
        h[k] = [[v * f for v in l] for l in h[k]]
    return c


def check(case, env):
    cfg, f = case['cfg'], case['f']
    a = gen.simulate(cfg, env)
    b = gen.simulate(scaled(cfg, f), env)
    need(set(a) == set(b), 'arrays {} / {}', sorted(a), sorted(b))
    what = 'scaling all lengths by {} changes the model'.format(f)
    gen.diff_arrays(a, b, ['strata', 'ae', 'hat', 'ha', 'facies'], what)
    for k in ('azim', 'dip'):
        d = np.abs(a[k] - b[k])
        d = np.minimum(d, np.abs(d - 360))
        need(np.all(d < 1e-7), what + ': {} by {}', k, d.max())
    for k in ('k_iso', 'poros', 'anirat', 'ktensors'):
        if k in a:
            tol = 1e-7 * np.abs(a[k]).max() if k == 'ktensors' else 1e-7 * np.abs(a[k])
            need(a[k].shape == b[k].shape and np.all(np.abs(a[k] - b[k]) <= tol), what + ': {}', k)
    if max(len(np.unique(a[k])) for k in ('ha', 'ae', 'strata')) > 1:
        return ['factor {}'.format(f)] + sorted({e['geometry'] for e in cfg['elements'].values()})


SUBS = [Sub('scale', cases(False), check, quick=1600),
        Sub('scale_channels', cases(True), check, quick=800)]
