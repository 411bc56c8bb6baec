"""P07: complete and consistent assignment of all cells."""
import numpy as np
from hypothesis import strategies as st
from vp import Sub, need, Violation
import gen

PROPERTY = 'P07'
RULE = 'at least two different (stratum, element, body, facies) combinations occur in the model'
ASSUMPTIONS = ['small grids (up to 9 x 8 x 12 cells), up to 3 strata and 3 element types',
               'contact depths increase strictly with the stratum and are not exactly at cell centres']


def close(v, lo, hi, tol=1e-9):
    return (v >= lo - tol) & (v <= hi + tol)


def check(cfg, env):
    r = gen.simulate(cfg, env)
    x, y, z = gen.cells(cfg)
    shape = (len(x), len(y), len(z))
    for k in ('facies', 'strata', 'ae', 'ha', 'hat', 'azim', 'dip'):
        need(k in r, 'output array {} is missing', k)
        need(r[k].shape == shape, 'shape of {} is {} instead of {}', k, r[k].shape, shape)
    fac, si, ae, ha, hat = [r[k] for k in ('facies', 'strata', 'ae', 'ha', 'hat')]
    facs = cfg['hydraulics']['hydrofacies']
    S = cfg['strata']
    ns = len(S['strata'])
    for k in ('facies', 'strata', 'ae', 'ha', 'hat'):
        need(np.issubdtype(r[k].dtype, np.integer), '{} is not an integer array', k)
    need(np.all((fac >= 0) & (fac < len(facs))), 'cells without a declared facies')
    need(np.all((si >= 0) & (si < ns)), 'cells without a stratum')
    need(np.all(ae >= 0), 'cells without an architectural element')
    need(np.all((hat >= 0) & (hat < len(S['ae']))), 'cells without an element type')
    need(np.all(ha >= -1), 'invalid body number')
    need(np.all(np.isfinite(r['azim'])) and np.all(np.isfinite(r['dip'])), 'cells without angles')
    # one type and stratum per element; type allowed in stratum
    ae_type, ae_str = {}, {}
    for a in np.unique(ae):
        m = ae == a
        need(len(np.unique(hat[m])) == 1, 'element {} has several types', a)
        need(len(np.unique(si[m])) == 1, 'element {} lies in several strata', a)
        ae_type[a], ae_str[a] = int(hat[m][0]), int(si[m][0])
        allowed = S['ae_in_strata'][ns - 1 - ae_str[a]]
        need(S['ae'][ae_type[a]] in allowed, 'element type {} in stratum {} that does not contain it',
             S['ae'][ae_type[a]], S['strata'][ns - 1 - ae_str[a]])
    for h in np.unique(ha[ha >= 0]):
        m = ha == h
        need(len(np.unique(ae[m])) == 1, 'body {} lies in several elements', h)
    # background and bodies
    labels = set()
    combos = set()
    for a in np.unique(ae):
        e = cfg['elements'][S['ae'][ae_type[a]]]
        sidx = ns - 1 - ae_str[a]
        m = (ae == a) & (ha == -1)
        combos.add((ae_str[a], int(a), -1))
        if m.any():
            need(e['geometry'] != 'sheet', 'sheet element has background cells')
            bf = facs.index(e.get('bg_facies', S['bg_facies'][sidx]))
            need(np.all(fac[m] == bf), 'wrong background facies {} instead of {} in {}', np.unique(fac[m]), bf, a)
            ba = e.get('bg_azim', S['bg_azim'][sidx])
            bd = e.get('bg_dip', S['bg_dip'][sidx])
            need(np.all(r['azim'][m] == ba), 'wrong background azimuth {} instead of {}', np.unique(r['azim'][m])[:3], ba)
            need(np.all(r['dip'][m] == bd), 'wrong background dip {} instead of {}', np.unique(r['dip'][m])[:3], bd)
            labels.add('bg in ' + e['geometry'])
        for h in np.unique(ha[(ae == a) & (ha >= 0)]):
            m = ha == h
            combos.add((ae_str[a], int(a), int(h)))
            labels.add(e['geometry'] + ' ' + e['structure'])
            ok = [facs.index(f) for f in e['facies']]
            islag = np.zeros(m.sum(), bool)
            if e.get('lag_height', 0.):
                islag = (fac[m] == facs.index(e['lag_facies'])) & (r['azim'][m] == 0) & (r['dip'][m] == 0)
            f = fac[m]
            good = np.isin(f, ok) | islag
            need(np.all(good), 'facies {} in a body of type {} with facies {}', np.unique(f[~good]), S['ae'][ae_type[a]], ok)
            s = e['structure']
            nl = ~islag
            if s in ('massive', 'flat', 'bulb'):
                need(len(np.unique(f[nl])) <= 1, 'several facies in a {} body', s)
            az, dp = r['azim'][m][nl], r['dip'][m][nl]
            d0, d1 = e.get('dip', [0., 0.])
            a0, a1 = e.get('azimuth', [0., 0.])
            if e['geometry'] == 'sheet':
                need(np.all(close(dp, d0, d1)), 'dip {} outside {}', dp[:1], [d0, d1])
                need(np.all(close(az, a0, a1)), 'azimuth {} outside {}', az[:1], [a0, a1])
            elif e['geometry'] == 'channel':
                need(np.all(close(dp, d0, d1)), 'dip {} outside {}', dp[:1], [d0, d1])
                need(np.all(close(az, -180, 180)), 'azimuth {} of channel', az[:1])
            else:
                p0, p1 = e['paleoflow']
                if s in ('massive', 'flat', 'dip'):
                    need(np.all(close(dp, d0, d1)), 'dip {} outside {}', dp[:1], [d0, d1])
                    need(np.all(close(az, a0 + p0, a1 + p1)), 'azimuth {} outside range', az[:1])
                elif s in ('bulb', 'bulb_sets'):
                    need(np.all(close(dp, -d1, d1)), 'dip {} outside +-{}', dp[:1], d1)
                    need(np.all(close(az, -90, 90)), 'azimuth {} of bulb', az[:1])
                else:
                    need(np.all(close(dp, -max(d1, 0), d1)), 'dip {} outside {}', dp[:1], [d0, d1])
    if len(combos) > 2 or len(np.unique(fac)) > 1:
        return sorted(labels) + ['strata:{}'.format(ns)]


@st.composite
def tie_cases(draw):
    cfg = draw(gen.models(sig=False, rough=draw(st.booleans()), hydro=False, ties=True,
                          grid=gen.grids(nx=(1, 6), ny=(1, 6), nz=(2, 12), dyadic=draw(st.booleans()))))
    dz = cfg['model']['dz']
    for e in cfg['elements'].values():
        # sheets and channels at the centres or faces of cells
        if e['geometry'] == 'sheet':
            e['lens_thickness'] = draw(st.sampled_from([-1, gen.rnd(dz), gen.rnd(1.5 * dz), gen.rnd(.5 * dz)]))
        else:
            e['agg'] = draw(st.sampled_from([gen.rnd(dz), gen.rnd(.5 * dz), gen.rnd(1.5 * dz)]))
    return cfg


MANY = gen.models(sig=False, hydro=False, max_strata=20, max_types=12, nfac=(1, 12), depths=[round(.017 + .0431 * i, 4) for i in range(22)],
                  grid=gen.grids(nx=(1, 3), ny=(1, 3), nz=(40, 260), zsizes=(.05, .1)))



@st.composite
def huge_cases(draw):
    """one column with very many elements and bodies"""
    dz = .25
    n = draw(st.sampled_from([300, 3000, 40000]))
    lens = draw(st.sampled_from([dz, 2 * dz, -1])) if n < 40000 else dz
    e = {'geometry': 'sheet', 'structure': 'dip' if n == 300 else 'massive', 'contact_model': ['flat'],
         'facies': ['a', 'b'], 'lens_thickness': lens, 'dipset_dist': 1.}
    m = {'z0': draw(st.sampled_from([0., -100.])), 'dx': 1., 'dy': 1., 'dz': dz, 'lx': 1., 'ly': 1., 'lz': n * dz, 'hydraulics': False}
    cfg = gen.single(m, e, ['a', 'b', 'c'], bg=('c', 0., 0.), seed=draw(st.integers(0, 2**20)))
    h = draw(st.sampled_from([10 * dz, 100 * dz])) if n <= 3000 else 20000 * dz
    cfg['strata']['ae_z_mean'] = [[h]]
    return cfg


def check_huge(cfg, env):
    lab = check(cfg, env)
    r = gen.simulate(cfg, env)
    ha = r['ha'][0, 0]
    d = cfg['elements']['e']['lens_thickness']
    n = len(ha)
    need(ha.min() >= 0, 'cells without a body in sheets')
    if d > 0:
        # a body reaches over at most d, so that there are many different ones
        k = int(round(d / cfg['model']['dz']))
        u, c = np.unique(ha, return_counts=True)
        need(c.max() <= k + 1 and len(u) >= n // (k + 1), '{} bodies, the biggest of {} cells, in a column of {} cells and sheets of {} cells', len(u), c.max(), n, k)
    e = np.flatnonzero(np.diff(ha.astype(int)))
    need(len(np.unique(ha)) == len(e) + 1, 'a body number occurs several times in the column')
    return ['{} cells'.format(n)]


SUBS = [Sub('huge', huge_cases(), check_huge, quick=30),
        Sub('assignment', gen.models(sig=False), check, quick=1500),
        Sub('assignment_flat', gen.models(sig=False, rough=False, hydro=False,
                                          grid=gen.grids(nx=(2, 9), ny=(2, 8), nz=(4, 16))), check, quick=900),
        Sub('ties', tie_cases(), check, quick=500),
        Sub('many', MANY, check, quick=150)]
