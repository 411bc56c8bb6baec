"""P30: every valid parameter file runs to completion and gives complete, finite data."""
import math
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need, Violation
import gen
from gen import rnd

PROPERTY = 'P30'
RULE = 'files with at least one setting at or beyond the usual end of its range'
ASSUMPTIONS = ['names and shapes of the documented output arrays', 'a run of at most some thousand cells ends within the time limit of a case']

GEO = {'facies': 'i', 'ha': 'i', 'hat': 'i', 'ae': 'i', 'strata': 'i', 'azim': 'f', 'dip': 'f'}
HYD = {'k_iso': 'f', 'poros': 'f', 'anirat': 'f'}


def pick(draw, *v):
    return draw(st.sampled_from(v))


@st.composite
def cases(draw):
    m = draw(gen.grids(nx=(1, 7), ny=(1, 6), nz=(1, 10)))
    cfg = draw(gen.models(grid=st.just(m), trends_=True))
    m = cfg['model']
    lx, ly, lz, dz = m['lx'], m['ly'], m['lz'], m['dz']
    z0 = m.get('z0', 0.)
    what = []

    def maybe(d, k, *v, p=3):
        if draw(st.integers(0, p)) == 0:
            d[k] = pick(draw, *v)
            what.append(k)
    facs = cfg['hydraulics']['hydrofacies']
    for e in cfg['elements'].values():
        g = e['geometry']
        maybe(e, 'dip', [0., 0.], [90., 90.], [-90., 90.], [30., 10.], [-20., -5.], [89.9, 90.], 45.)
        maybe(e, 'azimuth', [350., 370.], [-720., 720.], [30., -30.], [180., 180.], [-180., -180.], 90.)
        maybe(e, 'size_ztrend', [.3, .3], [5., .1], [.1, 5.], [1., 1.])
        if 'dipset_dist' in e:
            maybe(e, 'dipset_dist', .03, rnd(.2 * dz), rnd(1e4 * lz))
        if 'bulbset_dist' in e:
            maybe(e, 'bulbset_dist', .03, rnd(.05 * dz), rnd(1e4 * lz))
        maybe(e, 'contact_model', ['random', rnd(lz ** 2), 1., 1.], ['random', 0., 1., 2.], ['random', rnd(dz ** 2), 1e-3, 1e3], ['random', rnd(dz ** 2), 1e4, 1e4])
        for k in ('k_ztrend', 'n_ztrend', 'k_xtrend', 'n_xtrend'):
            maybe(e, k, [1., 1.], [1e-3, 1e3], p=9)
        if g == 'sheet':
            maybe(e, 'lens_thickness', rnd(.2 * dz), rnd(.9999 * lz), rnd(lz), rnd(1e4 * lz), rnd(dz), rnd(dz / 2), -1., p=2)
            continue
        maybe(e, 'agg', rnd(.3 * dz), rnd(dz), rnd(lz), rnd(1e3 * lz))
        maybe(e, 'buffer', 0., 1., 5.)
        maybe(e, 'width', rnd(.01 * m['dy']), rnd(ly))
        maybe(e, 'depth', rnd(.01 * dz), rnd(lz), rnd(3 * lz))
        if draw(st.integers(0, 3)) == 0:
            e['lag_height'] = rnd(pick(draw, .001, 1., 2., 100.) * e['depth'])
            e['lag_facies'] = draw(st.sampled_from(facs))
            what.append('lag_height')
        if g == 'trough':
            maybe(e, 'length', rnd(.01 * m['dx']), rnd(lx))
            if not m['periodic']:
                maybe(e, 'length', rnd(10 * lx), rnd(2 * lx))
                maybe(e, 'width', rnd(10 * ly), rnd(2 * ly))
            maybe(e, 'trough_density', 0., rnd(30. / (lx * ly)), rnd(.001 / (lx * ly)))
            maybe(e, 'paleoflow', [0., 0.], [90., 90.], [-720., 720.], [45., -45.], 180.)
            maybe(e, 'migrate', [0., 0., 0., 0.], [rnd(5 * lx), 0., rnd(-5 * ly), 0.], [0., rnd(lx), 0., rnd(ly)])
            if draw(st.integers(0, 4)) == 0:
                c = []
                for _ in range(draw(st.integers(0, 4))):
                    c.append([rnd(m.get('x0', 0.) + pick(draw, -3., 0., .5, 1., 3.) * lx), rnd(m.get('y0', 0.) + pick(draw, -3., 0., .5, 1., 3.) * ly),
                              rnd(z0 + pick(draw, -3., 0., .2, .5, .9, 1., 1.01, 4.) * lz)])
                e['te_xyz'] = c
                if any(p[2] > z0 + lz or p[2] < z0 for p in c):
                    e.pop('size_ztrend', None)      # the trend is only defined within the domain
                what.append('te_xyz')
        else:
            maybe(e, 'channel_no', 0, 1, 4)
            maybe(e, 'flow_angle', 0., 90., -90., 180., 720., 45.)
            maybe(e, 'mig', 0., rnd(ly), rnd(5 * ly))
            maybe(e, 'h', .01, .99, 1.)
            maybe(e, 'k', 0., .01, 5.)
            maybe(e, 'ds', .1, rnd(m['dx']), 3.)
            maybe(e, 'eps_factor', 0., 1e-6, .6)
    s = cfg['strata']
    ns = len(s['strata'])
    for i in range(ns):
        n = len(s['ae_in_strata'][i])
        if draw(st.integers(0, 4)) == 0:
            s['ae_prob'][i] = [0.] * n
            s['ae_prob'][i][draw(st.integers(0, n - 1))] = pick(draw, 1e-6, 1., 50.)
            what.append('ae_prob')
        if draw(st.integers(0, 4)) == 0:
            s['ae_z_mean'][i] = [rnd(pick(draw, .3, .5, 1., 2., 1e4) * max(dz, lz / 20)) for _ in range(n)]
            s['avul'][i] = pick(draw, [0., 0.], [0., rnd(.2 * min(s['ae_z_mean'][i]))])
            what.append('ae_z_mean')
    for cm in s['strata_contact_models']:
        if draw(st.integers(0, 4)) == 0:
            cm[2:] = [rnd(pick(draw, 1e-6, .3, 1., 4.) * lz ** 2), pick(draw, 1e-3, 1., 1e4), pick(draw, 1e-3, 1., 1e4)]
            cm[0] = 'random'
            what.append('rough stratum')
    h = cfg['hydraulics']
    for i in range(len(facs)):
        maybe(h['sig_y'], i, 0., 4., 1e-12)
        maybe(h['k_h'], i, 1e-15, 1e5)
        maybe(h['k_ratio'], i, 1e-3, 1e4, 1.)
        maybe(h['n'], i, 0., 1.)
        maybe(h['ycorlengths'], i, [1e-3, 1e-3, 1e-3], [1e4, 1e4, 1e4], [1e-2, 1., 1e3])
        maybe(h['ncorlengths'], i, [1e-3, 1e-3, 1e-3], [1e4, 1e4, 1e4], [1e-2, 1., 1e3])
    cfg['what'] = sorted({str(w) if not isinstance(w, int) else 'hydraulics' for w in what})
    return cfg


def check(cfg, env):
    d = gen.simulate(cfg, env)
    x, y, z = gen.cells(cfg)
    shape = (len(x), len(y), len(z))
    hyd = cfg['model'].get('hydraulics', True)
    names = dict(GEO)
    if hyd:
        names.update(HYD)
    exp = set(names) | ({'ktensors'} if hyd else set())
    need(exp <= set(d), 'arrays are missing: {}', sorted(exp - set(d)))
    for k, kind in names.items():
        a = d[k]
        need(a.shape == shape, 'array {} has the shape {} instead of {}', k, a.shape, shape)
        need(a.dtype.kind == kind, 'array {} has the type {}', k, a.dtype)
        if kind == 'f':
            need(np.isfinite(a).all(), 'array {} contains {}', k, np.unique(a)[-3:])
    need(d['facies'].min() >= 0 and d['facies'].max() < len(cfg['hydraulics']['hydrofacies']), 'facies {}', np.unique(d['facies']))
    need(d['strata'].min() >= 0 and d['strata'].max() < len(cfg['strata']['strata']), 'strata {}', np.unique(d['strata']))
    need(d['hat'].min() >= 0 and d['hat'].max() < len(cfg['strata']['ae']), 'element types {}', np.unique(d['hat']))
    need(d['ae'].min() >= 0, 'elements {}', np.unique(d['ae']))
    need(d['ha'].min() >= -1, 'bodies {}', np.unique(d['ha']))
    if hyd:
        need((d['k_iso'] > 0).all(), 'conductivity {}', d['k_iso'].min())
        t = d['ktensors']
        need(t.shape == shape + (3, 3), 'tensors have the shape {}', t.shape)
        need(np.isfinite(t).all(), 'tensors are not finite')
    return cfg['what'] or None


SUBS = [Sub('extreme', cases(), check, quick=3000)]
