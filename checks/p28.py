"""P28: choices that are left to chance are unbiased."""
import os
import numpy as np
from scipy import stats
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen
from p22 import ensemble

PROPERTY = 'P28'
RULE = 'at least 100 bodies or layers, with at least two facies, a range of angles or random structures'
ASSUMPTIONS = ['chi-square and Kolmogorov-Smirnov tests report at p < 1e-9', 'angles are seen in the output, one value per body']
P = 1e-9


def uniform_choice(obs, n, what):
    obs = np.asarray(obs)
    need(obs.min() >= 0 and obs.max() < n, what + ': values {}', np.unique(obs))
    c = np.bincount(obs, minlength=n)
    if n < 2 or len(obs) < 20 * n:
        return
    need(stats.chisquare(c).pvalue > P, what + ': {} of {}', c.tolist(), len(obs))
    # independent of the one before
    t = np.zeros((n, n))
    np.add.at(t, (obs[:-1], obs[1:]), 1)
    if len(obs) > 20 * n * n:
        need(stats.chisquare(t.ravel()).pvalue > P, what + ': successive choices depend on each other: {}', t.tolist())


def uniform_range(v, lo, hi, what):
    v = np.asarray(v)
    need(v.min() >= lo - 1e-6 and v.max() <= hi + 1e-6, what + ' between {} and {} instead of {} and {}', v.min(), v.max(), lo, hi)
    if hi - lo > 1e-6:
        need(stats.kstest((v - lo) / (hi - lo), 'uniform').pvalue > P, what + ' are not uniform between {} and {}: mean {:.4f}, standard deviation {:.4f}', lo, hi, v.mean(), v.std())
        if len(v) > 100:
            need(abs(np.corrcoef(v[:-1], v[1:])[0, 1]) < 7 / np.sqrt(len(v)), what + ' of successive bodies are correlated')


def unrelated(f, v, n, what):
    """continuous values do not depend on the category"""
    g = [v[f == i] for i in range(n) if np.sum(f == i) > 20]
    if len(g) > 1 and np.ptp(v) > 1e-6:
        need(stats.kruskal(*g).pvalue > P, what)


def rng(draw, lo, hi):
    a = draw(st.integers(lo, hi - 5))
    return [float(a), float(draw(st.integers(a, hi)))]


# ------------------------------------------------------------------------------------------
# stacks of sheets and of channels: one body per cell
# ------------------------------------------------------------------------------------------
@st.composite
def stack_cases(draw):
    nf = draw(st.integers(1, 5))
    e = {'geometry': draw(st.sampled_from(['sheet', 'sheet', 'channel'])), 'structure': draw(st.sampled_from(['massive', 'massive', 'dip'])), 'contact_model': ['flat'],
         'facies': ['f%d' % i for i in range(nf)], 'azimuth': rng(draw, -180, 180), 'dip': rng(draw, 0, 70), 'dipset_dist': 100.}
    if e['structure'] == 'dip' and draw(st.booleans()):
        # one facies per body
        e['altfacies'] = [[f] for f in e['facies']]
    perm = draw(st.permutations(e['facies'] + ['bg']))
    n = draw(st.sampled_from([400, 900])) if e['geometry'] == 'sheet' else 500
    return {'e': e, 'n': n, 'facs': perm, 'seed': draw(st.integers(0, 2**20)), 'z0': draw(st.sampled_from([0., -77.5]))}


def check_stack(case, env):
    e, n = dict(case['e']), case['n']
    nf = len(e['facies'])
    m = {'x0': 0., 'y0': 0., 'z0': case['z0'], 'dx': 1., 'dy': 1., 'dz': .25, 'lx': 1., 'ly': 1., 'lz': n * .25, 'hydraulics': False}
    if e['geometry'] == 'sheet':
        e['lens_thickness'] = .25
    else:
        e.update(agg=.25, depth=.24, width=.9, h=.2, k=.1, ds=.25, eps_factor=0., channel_no=3, mig=.4, bg_facies='bg')
    cfg = gen.single(m, e, case['facs'], seed=case['seed'])
    r = gen.simulate(cfg, env)
    ha = r['ha'][0, 0]
    ok = ha >= 0
    u = np.unique(ha[ok])
    need(len(u) == ok.sum(), 'a body spans several cells')
    if len(u) < 100:
        return None
    idx = {case['facs'].index(f): i for i, f in enumerate(e['facies'])}
    f = r['facies'][0, 0][ok]
    need(set(f.tolist()) <= set(idx), 'facies {} that are not in the list', sorted(set(f.tolist()) - set(idx)))
    f = np.array([idx[v] for v in f])
    uniform_choice(f, nf, 'facies of {} bodies of {}'.format(e['structure'], e['geometry']))
    dip = r['dip'][0, 0][ok]
    uniform_range(dip, e['dip'][0], e['dip'][1], 'dips')
    unrelated(f, dip, nf, 'dip depends on the facies')
    if e['geometry'] == 'sheet':
        az = r['azim'][0, 0][ok]
        uniform_range(az, e['azimuth'][0], e['azimuth'][1], 'azimuths')
        unrelated(f, az, nf, 'azimuth depends on the facies')
        if np.ptp(az) > 1e-6 and np.ptp(dip) > 1e-6:
            need(abs(np.corrcoef(az, dip)[0, 1]) < 7 / np.sqrt(len(az)), 'azimuth and dip are correlated')
    return '{} {}'.format(e['geometry'], e['structure'])


# ------------------------------------------------------------------------------------------
# layers inside of bodies
# ------------------------------------------------------------------------------------------
@st.composite
def layer_cases(draw):
    nf = draw(st.integers(2, 4))
    facs = ['f%d' % i for i in range(nf)]
    alt = None
    if draw(st.booleans()):
        alt = [sorted(draw(st.lists(st.sampled_from(facs), min_size=1, max_size=3, unique=True))) for _ in facs]
    return {'facs': facs, 'alt': alt, 'geometry': draw(st.sampled_from(['sheet', 'trough_dip', 'trough_bulb', 'channel'])), 'seed': draw(st.integers(0, 2**20)),
            'n': draw(st.sampled_from([400, 1200]))}


def check_layers(case, env):
    n, facs, alt, g = case['n'], case['facs'], case['alt'], case['geometry']
    nf = len(facs)
    dz = .25
    m = {'x0': -.5, 'y0': -.5, 'z0': 0., 'dx': 1., 'dy': 1., 'dz': dz, 'lx': 1., 'ly': 1., 'lz': n * dz, 'hydraulics': False}
    e = {'geometry': g.split('_')[0], 'structure': 'bulb_sets' if g == 'trough_bulb' else 'dip', 'contact_model': ['flat'], 'facies': facs, 'dip': [0., 0.], 'azimuth': [0., 0.],
         'dipset_dist': dz, 'bulbset_dist': dz, 'lens_thickness': -1}
    if alt:
        e['altfacies'] = alt
    if g != 'sheet':
        e.update(depth=n * dz, width=5., agg=n * dz * 5 if g != 'channel' else dz, bg_facies='bg')
        e.pop('lens_thickness')
    if e['geometry'] == 'trough':
        e.update(length=5., te_xyz=[[0., 0., n * dz]], paleoflow=[0., 0.], trough_density=1.)
    elif g == 'channel':
        e.update(h=.2, k=.1, ds=.25, eps_factor=0., channel_no=1, buffer=1., depth=(n - 5) * dz, width=50.)
    cfg = gen.single(m, e, facs + ['bg'], seed=case['seed'])
    r = gen.simulate(cfg, env)
    ha = r['ha'][0, 0]
    u, c = np.unique(ha[ha >= 0], return_counts=True)
    if len(u) == 0 or c.max() < 150:
        return None
    f = r['facies'][0, 0][ha == u[np.argmax(c)]]
    need(f.max() < nf, 'facies {}', np.unique(f))
    what = 'layers of {}'.format(g)
    if not alt:
        # bulb sets, channels: distances of the layers that are exactly one cell leave at most one layer twice
        uniform_choice(f, nf, what)
        return g
    al = [[facs.index(x) for x in l] for l in alt]
    best = []
    for s in (f, f[::-1]):
        p = 1.
        for i in range(nf):
            nxt = s[1:][s[:-1] == i]
            if len(nxt) == 0:
                continue
            cnt = np.bincount(nxt, minlength=nf)
            bad = [j for j in range(nf) if j not in al[i] and cnt[j] > 2]
            if bad:
                p = 0.
                break
            if len(al[i]) > 1 and len(nxt) > 20 * len(al[i]):
                p = min(p, stats.chisquare(cnt[al[i]]).pvalue)
        best.append(p)
    need(max(best) > P, what + ': following facies are not chosen with equal probability (p = {}) for {}', best, alt)
    return g + ' sequence' if any(len(a) > 1 for a in al) else None


# ------------------------------------------------------------------------------------------
# troughs, each in its own column of cells
# ------------------------------------------------------------------------------------------
@st.composite
def trough_cases(draw):
    nf = draw(st.integers(2, 4))
    k = draw(st.sampled_from(['massive', 'dip', 'bulb', 'bulb_sets', 'random', 'random']))
    return {'structure': k, 'nf': nf, 'n': draw(st.integers(9, 13)), 'seed': draw(st.integers(0, 2**20)), 'azimuth': rng(draw, -90, 90), 'dip': rng(draw, 5, 70),
            'which': draw(st.booleans())}


def check_troughs(case, env):
    n, nf = case['n'], case['nf']
    s = case['structure']
    facs = ['f%d' % i for i in range(nf)]
    m = {'x0': 0., 'y0': 0., 'z0': 0., 'dx': 1., 'dy': 1., 'dz': .5, 'lx': float(n), 'ly': float(n), 'lz': 2., 'periodic': False}
    pts = [[i + .5, j + .5, 2.] for i in range(n) for j in range(n)]
    e = {'geometry': 'trough', 'structure': s, 'contact_model': ['flat'], 'facies': facs, 'te_xyz': pts, 'length': .8, 'width': .6, 'depth': 1.9, 'agg': 1., 'trough_density': 1.,
         'dipset_dist': 50., 'bulbset_dist': 50., 'paleoflow': [0., 0.], 'azimuth': case['azimuth'], 'dip': case['dip'], 'bg_facies': 'bg', 'altfacies': [[f] for f in facs]}
    if s == 'random':
        # alternating layers of about one cell, fixed angles
        e.update(facies=facs[:2], altfacies=[[facs[1]], [facs[0]]], dipset_dist=.5, bulbset_dist=.45, azimuth=[33., 33.], dip=[7., 7.])
    elif case['which']:
        e.update(paleoflow=case['azimuth'], azimuth=[0., 0.])
    cfg = gen.single(m, e, facs + ['bg'])
    F, A, D, S = [], [], [], []
    for r in ensemble(cfg, 4, case['seed'], env):
        col = r['ha'][:, :, 1:]
        need(np.all(col >= 0) and np.all(col == col[:, :, :1]) and len(np.unique(col)) == n * n, 'manually placed troughs are missing')
        f, a, d = r['facies'][:, :, 1:].reshape(-1, 3), r['azim'][:, :, 1:].reshape(-1, 3), r['dip'][:, :, 1:].reshape(-1, 3)
        if s == 'random':
            const = np.all(f == f[:, :1], axis=1)
            plane = np.all(np.abs(a - 33) < 1e-6, axis=1)
            need(np.all(plane | np.all(np.abs(d) < 1e-3, axis=1)), 'angles in the centre of troughs')
            S.append(2 * plane + const)
        else:
            need(np.all(f == f[:, :1]), 'several facies in a trough whose sequence has only one')
        F.append(f[:, 0])
        if s in ('massive', 'dip'):
            A.append(a[:, 0])
            D.append(d[:, 0])
    F = np.concatenate(F)
    if s == 'random':
        uniform_choice(np.concatenate(S).astype(int), 4, 'structures of troughs (bulb sets, bulb, dip, massive)')
        return 'random structure'
    uniform_choice(F, nf, 'facies of troughs')
    if A:
        A, D = np.concatenate(A), np.concatenate(D)
        uniform_range(A, case['azimuth'][0], case['azimuth'][1], 'azimuths')
        uniform_range(D, case['dip'][0], case['dip'][1], 'dips')
        unrelated(F, A, nf, 'azimuth depends on the facies')
        unrelated(F, D, nf, 'dip depends on the facies')
    return s


# ------------------------------------------------------------------------------------------
# largest dip of bulbs
# ------------------------------------------------------------------------------------------
@st.composite
def bulb_cases(draw):
    return {'structure': draw(st.sampled_from(['bulb', 'bulb_sets'])), 'dip': rng(draw, 0, 40), 'n': draw(st.integers(9, 12)), 'seed': draw(st.integers(0, 2**20))}


def check_bulbs(case, env):
    """close to the rim all dips of the ellipsoid are bigger than the limits"""
    n = case['n']
    m = {'x0': 0., 'y0': 0., 'z0': 0., 'dx': 1., 'dy': 1., 'dz': .25, 'lx': float(n), 'ly': float(n), 'lz': .5, 'periodic': False}
    pts = [[i + .5 - .3, j + .5, .5] for i in range(n) for j in range(n)]
    e = {'geometry': 'trough', 'structure': case['structure'], 'contact_model': ['flat'], 'facies': ['a'], 'te_xyz': pts, 'length': .7, 'width': .7, 'depth': .3, 'agg': 1., 'trough_density': 1.,
         'bulbset_dist': 1., 'paleoflow': [0., 0.], 'dip': case['dip'], 'bg_facies': 'bg'}
    cfg = gen.single(m, e, ['a', 'bg'])
    D = []
    for r in ensemble(cfg, 4, case['seed'], env):
        need(np.all(r['ha'][:, :, 1] >= 0), 'manually placed troughs are missing')
        D.append(np.abs(r['dip'][:, :, 1]).ravel())
    uniform_range(np.concatenate(D), case['dip'][0], case['dip'][1], 'largest dips of bulbs')
    return case['structure']


SUBS = [Sub('stack', stack_cases(), check_stack, quick=60, thorough=600),
        Sub('layers', layer_cases(), check_layers, quick=60, thorough=600),
        Sub('troughs', trough_cases(), check_troughs, quick=30, thorough=300),
        Sub('bulbs', bulb_cases(), check_bulbs, quick=12, thorough=120)]
