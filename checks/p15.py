"""P15: hydraulic parameters of facies."""
import copy
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen

PROPERTY = 'P15'
RULE = 'at least two facies occur, or the field has internal heterogeneity'
ASSUMPTIONS = ['models without trends (trends: P21)', 'relations between runs with the same random seed: the number of random draws '
               'depends on the geometry only', 'ensembles of 150 runs on grids with odd numbers of cells']

HET = {'off': {'heterogeneity': False}, 'facies': {'heterogeneity': True, 'heterogeneity_level': 'facies'},
       'internal': {'heterogeneity': True, 'heterogeneity_level': 'internal'}, 'default': {}}
GRID = gen.grids(nx=(1, 7), ny=(1, 6), nz=(1, 9))


def many_facies(draw, het):
    """one body with many facies in thin layers"""
    m = dict(draw(gen.grids(nx=(1, 4), ny=(1, 4), nz=(5, 14))), **het)
    facs = gen.FAC[:draw(st.integers(4, 12))]
    p = {'geometry': 'sheet', 'structure': 'dip', 'contact_model': ['flat'], 'lens_thickness': -1, 'facies': list(draw(st.permutations(facs))),
         'dip': [0., draw(st.sampled_from([0., 20.]))], 'azimuth': [0., 90.], 'dipset_dist': gen.rnd(draw(st.sampled_from([.4, 1., 1.6])) * m['dz'])}
    p['altfacies'] = [[p['facies'][(i + 1) % len(facs)]] for i in range(len(facs))]
    return gen.single(m, p, facs, seed=draw(st.integers(0, 2**20)), bg=(facs[0], 0., 0.), hyd=gen.hydraulics(draw, facs))


@st.composite
def exact_cases(draw):
    cfg = many_facies(draw, {}) if draw(st.integers(0, 5)) == 0 else draw(gen.models(grid=GRID, het={}, nfac=(1, 8)))
    level = draw(st.sampled_from(['off', 'facies', 'internal', 'internal0', 'none']))
    if level == 'none':
        cfg['model']['hydraulics'] = False
    elif level == 'internal0':
        cfg['model'].update(HET['internal'])
        for k in ('sig_y', 'sig_n'):
            cfg['hydraulics'][k] = [v if draw(st.integers(0, 2)) == 0 else 0. for v in cfg['hydraulics'][k]]
    else:
        cfg['model'].update(HET[level])
    if draw(st.integers(0, 3)) == 0:
        # one value for all facies
        for k in draw(st.lists(st.sampled_from(['k_h', 'n', 'k_ratio', 'sig_y', 'sig_n']), min_size=1, max_size=3, unique=True)):
            cfg['hydraulics'][k] = cfg['hydraulics'][k][0]
    return {'cfg': cfg, 'level': level}


def tab(h, k, n):
    v = h[k]
    return np.array([v] * n if not isinstance(v, list) else v, float)


def check_exact(case, env):
    cfg, level = case['cfg'], case['level']
    r = gen.simulate(cfg, env)
    h = cfg['hydraulics']
    n = len(h['hydrofacies'])
    if level == 'none':
        need(not set(r) & {'k_iso', 'poros', 'anirat', 'ktensors'}, 'hydraulic arrays {} although hydraulics are switched off', sorted(r))
        need({'facies', 'ae', 'ha', 'hat', 'strata', 'azim', 'dip'} <= set(r), 'geological arrays are missing: {}', sorted(r))
        return 'no hydraulics'
    fac = r['facies']
    for k in ('k_iso', 'poros', 'anirat', 'ktensors'):
        need(k in r, 'array {} is missing', k)
    need(np.all(r['k_iso'] > 0) and np.all(np.isfinite(r['k_iso'])), 'conductivity is not positive')
    need(np.all(np.isfinite(r['poros'])), 'porosity is not finite')
    need(np.array_equal(r['anirat'], tab(h, 'k_ratio', n)[fac]), 'anisotropy ratio is not that of the facies')
    for arr, mean, sig in (('k_iso', 'k_h', 'sig_y'), ('poros', 'n', 'sig_n')):
        v = r[arr]
        m, s = tab(h, mean, n)[fac], tab(h, sig, n)[fac]
        exact = np.ones(fac.shape, bool) if level in ('off', 'facies') else s == 0
        need(np.allclose(v[exact], m[exact], rtol=1e-12, atol=0), '{} {} of cells with facies value {}', arr, v[exact][~np.isclose(v[exact], m[exact], rtol=1e-12, atol=0)][:3],
             m[exact][~np.isclose(v[exact], m[exact], rtol=1e-12, atol=0)][:3])
        dev = np.log(v / m) if arr == 'k_iso' else v - m
        # 9 standard deviations: the variance of the field never exceeds the nominal one by more than a factor
        need(np.all(np.abs(dev[~exact]) <= 9 * np.sqrt(s[~exact]) + 1e-12), '{} deviates by {} for a variance of {}', arr, np.abs(dev[~exact]).max() if (~exact).any() else 0, s[~exact][:1])
    if len(np.unique(fac)) > 1 or level.startswith('internal'):
        return ['level ' + level, 'facies:{}'.format(len(np.unique(fac)))]


# ------------------------------------------------------------------------------------------
@st.composite
def meta_cases(draw):
    cfg = many_facies(draw, HET['internal']) if draw(st.integers(0, 5)) == 0 else draw(gen.models(grid=GRID, het=HET['internal'], nfac=(2, 7)))
    h = cfg['hydraulics']
    for k, v in (('sig_y', [.05, .3, 1.2]), ('sig_n', [1e-4, 5e-4])):
        h[k] = [draw(st.sampled_from(v)) for _ in h[k]]
    n = len(h['hydrofacies'])
    ch = {'k_h': [draw(st.sampled_from([1., 3., .1])) for _ in range(n)], 'n': [draw(st.sampled_from([0., .05])) for _ in range(n)],
          'sig_y': [draw(st.sampled_from([1., 4., .25, 0.])) for _ in range(n)], 'sig_n': [draw(st.sampled_from([1., 4., .25, 0.])) for _ in range(n)],
          'k_ratio': [draw(st.sampled_from([1., 2., .5])) for _ in range(n)]}
    j = draw(st.integers(0, n - 1))
    if draw(st.booleans()):
        # a background facies
        names = list(cfg['strata']['bg_facies']) + [e['bg_facies'] for e in cfg['elements'].values() if 'bg_facies' in e]
        j = h['hydrofacies'].index(draw(st.sampled_from(names)))
    return {'cfg': cfg, 'ch': ch, 'cor': [draw(st.sampled_from(['ycorlengths', 'ncorlengths'])), j, draw(st.integers(0, 2)),
                                          draw(st.sampled_from([.5, 1.7, 4.]))]}


def check_meta(case, env):
    cfg, ch = case['cfg'], case['ch']
    r1 = gen.simulate(cfg, env)
    h = cfg['hydraulics']
    c2 = copy.deepcopy(cfg)
    h2 = c2['hydraulics']
    for k in ('k_h', 'sig_y', 'sig_n', 'k_ratio'):
        h2[k] = [gen.rnd(a * b) for a, b in zip(h[k], ch[k])]
    h2['n'] = [gen.rnd(a + b) for a, b in zip(h['n'], ch['n'])]
    r2 = gen.simulate(c2, env)
    geo = ['facies', 'ae', 'ha', 'hat', 'strata', 'azim', 'dip']
    gen.diff_arrays(r1, r2, geo, 'geology depends on hydraulic parameters')
    fac = r1['facies']
    A = lambda hh, k: np.array(hh[k])[fac]
    d1, d2 = np.log(r1['k_iso'] / A(h, 'k_h')), np.log(r2['k_iso'] / A(h2, 'k_h'))
    f = np.sqrt(np.array(ch['sig_y']))[fac]
    need(np.allclose(d2, f * d1, rtol=1e-6, atol=1e-6 * np.sqrt(A(h, 'sig_y')).max()), 'log conductivity does not scale with mean and standard deviation of the facies')
    e1, e2 = r1['poros'] - A(h, 'n'), r2['poros'] - A(h2, 'n')
    f = np.sqrt(np.array(ch['sig_n']))[fac]
    need(np.allclose(e2, f * e1, rtol=1e-6, atol=1e-6 * np.sqrt(A(h, 'sig_n')).max()), 'porosity does not scale with mean and standard deviation of the facies')
    need(np.array_equal(r2['anirat'], A(h2, 'k_ratio')), 'anisotropy ratio is not that of the facies')
    # correlation lengths: only their own facies and parameter
    which, j, axis, fct = case['cor']
    c3 = copy.deepcopy(cfg)
    c3['hydraulics'][which][j][axis] = gen.rnd(c3['hydraulics'][which][j][axis] * fct)
    r3 = gen.simulate(c3, env)
    other = fac != j
    gen.diff_arrays(r1, r3, geo, 'geology depends on hydraulic parameters')
    for arr, cl in (('k_iso', 'ycorlengths'), ('poros', 'ncorlengths')):
        m = other if cl == which else np.ones(fac.shape, bool)
        need(np.allclose(r3[arr][m], r1[arr][m], rtol=1e-9, atol=0), '{} changes with the {} of another facies or parameter', arr, which)
    lab = ['meta', 'facies:{}'.format(len(np.unique(fac)))]
    # if a facies fills a box of three or more cells along the changed axis, its field must change
    m = fac == j
    arr = 'k_iso' if which == 'ycorlengths' else 'poros'
    if m.any():
        for hnum in np.unique(r1['ha'][m]):
            b = m & (r1['ha'] == hnum) & (r1['ae'] == r1['ae'][m & (r1['ha'] == hnum)][0])
            if hnum == -1 or np.ptp(np.argwhere(b)[:, axis]) < 2:
                continue
            dx = [cfg['model']['d' + c] for c in 'xyz'][axis]
            cl = h[which][j][axis]
            if min(cl, cl * fct) < dx or max(cl, cl * fct) > 20 * dx:
                continue
            oth = [q for q in range(3) if q != axis and h[which][j][q] < cfg['model']['d' + 'xyz'[q]]]
            if oth:
                continue
            need(not np.allclose(r3[arr][b], r1[arr][b], rtol=1e-9, atol=0), '{} of facies {} does not depend on {}[{}]', arr, j, which, axis)
            lab.append('effect of ' + which)
            break
    return sorted(set(lab))


# ------------------------------------------------------------------------------------------
@st.composite
def mean_cases(draw):
    """flat massive sheets fill their box, and so do many small pieces of other bodies and of the background"""
    if draw(st.booleans()):
        return draw(gen.models(het=HET['internal'], grid=gen.grids(nx=(1, 5), ny=(1, 4), nz=(1, 9)), max_strata=3))
    cfg = draw(gen.models(geometries=('sheet',), structures=['massive'], rough=False, het=HET['internal'], grid=gen.grids(nx=(1, 7), ny=(1, 6), nz=(2, 12))))
    return cfg


def check_mean(cfg, env):
    r = gen.simulate(cfg, env)
    h = cfg['hydraulics']
    lab = set()
    bg = r['ha'] == -1
    groups = [(r['ha'] == b) & (r['facies'] == f) for b in np.unique(r['ha'][~bg]) for f in np.unique(r['facies'][r['ha'] == b])]
    groups += [bg & (r['ae'] == a) for a in np.unique(r['ae'][bg])]
    for m in groups:
        idx = np.argwhere(m)
        if np.prod(np.ptp(idx, axis=0) + 1) != len(idx):
            continue                          # does not fill its box: the mean varies
        f = np.unique(r['facies'][m])
        need(len(f) == 1, 'several facies in the background of an element')
        f = f[0]
        d = np.log(r['k_iso'][m] / h['k_h'][f])
        need(abs(d.mean()) <= 1e-6 * (1 + np.sqrt(h['sig_y'][f])), 'geometric mean of the conductivity of a box is exp({:.3g}) times the value of its facies', d.mean())
        e = r['poros'][m] - h['n'][f]
        need(abs(e.mean()) <= 1e-6, 'mean porosity of a box deviates by {:.3g}', e.mean())
        if h['sig_y'][f] > 0:
            lab.add('{} of {}'.format('background' if bg[m].any() else 'body', 'one cell' if len(idx) == 1 else 'several cells'))
    return sorted(lab)


# ------------------------------------------------------------------------------------------
R = 150


@st.composite
def ens_cases(draw):
    n = draw(st.permutations([9, 5, 7]))
    d = [draw(st.sampled_from([.5, 1., 2.])) for _ in range(3)]
    m = {'x0': 3., 'y0': 0., 'z0': -2., 'dx': d[0], 'dy': d[1], 'dz': d[2], 'lx': n[0] * d[0], 'ly': n[1] * d[1], 'lz': n[2] * d[2], 'periodic': False}
    rel = st.sampled_from([.3, .6, 1.2, 2.4])
    cy = [gen.rnd(draw(rel) * s) for s in d]
    cn = [gen.rnd(draw(rel) * s) for s in d]
    return {'m': m, 'cy': cy, 'cn': cn, 'sy': draw(st.sampled_from([.2, 1.])), 'sn': draw(st.sampled_from([1e-4, 4e-4])),
            'bg': draw(st.sampled_from([False, True, 'part', 'part'])), 'pos': draw(st.integers(0, 2)), 'seed': draw(st.integers(0, 2**20))}


def check_ens(case, env):
    m = case['m']
    fs = ['a', 'b', 'c']
    f = fs[case['pos']]

    def row(v, o):
        l = [o] * 3
        l[case['pos']] = v
        return l
    hyd = {'hydrofacies': fs, 'k_h': [1e-3, 2e-3, 3e-3], 'sig_y': row(case['sy'], 0.), 'k_ratio': 1., 'n': [.2, .3, .25], 'sig_n': row(case['sn'], 0.),
           'ycorlengths': row(case['cy'], [9., 9., 9.]), 'ncorlengths': row(case['cn'], [9., 9., 9.])}
    if case['bg']:
        e = {'geometry': 'trough', 'structure': 'massive', 'contact_model': ['flat'], 'facies': [fs[case['pos'] - 1]], 'agg': 1e4, 'trough_density': 0.,
             'length': 1., 'width': 1., 'depth': 1., 'paleoflow': [0., 0.]}
        if case['bg'] == 'part':
            # half an ellipsoid
            e.update({'facies': [f], 'length': gen.rnd(.97 * m['lx']), 'width': gen.rnd(.97 * m['ly']), 'depth': gen.rnd(.97 * m['lz']),
                      'te_xyz': [[gen.rnd(m['x0'] + m['lx'] / 2), gen.rnd(m['y0'] + m['ly'] / 2), gen.rnd(m['z0'] + m['lz'])]]})
    else:
        e = {'geometry': 'sheet', 'structure': 'massive', 'contact_model': ['flat'], 'facies': [f], 'lens_thickness': -1}
    cfg = gen.single(m, e, fs, bg=(f if case['bg'] is True else fs[case['pos'] - 1], 0., 0.), hyd=hyd)
    cfg['model'].update(HET['internal'])
    K, N = [], []
    cfg['run'] = {'outputs': ['npz'], 'runname': 'r', 'numsim': R}
    import os
    with env.scratch() as d:
        ini = os.path.join(d, 'c.ini')
        with open(ini, 'w') as fh:
            fh.write(gen.render(cfg))
        gen.run_hyvr(ini, None, case['seed'])
        for k in range(1, R + 1):
            r = gen.load_npz(os.path.join(d, 'r', 'real_{:03d}'.format(k), 'r.npz'))
            if k == 1:
                mask = r['facies'] == case['pos']
                need(mask.any() and (mask.all() or case['bg'] == 'part'), 'facies of the only body')
                box = tuple(slice(a, b + 1) for a, b in zip(np.argwhere(mask).min(axis=0), np.argwhere(mask).max(axis=0)))
                mask = mask[box]
            need(np.array_equal(r['facies'][box] == case['pos'], mask), 'facies of the only body')
            K.append(np.where(mask, np.log(r['k_iso'][box] / hyd['k_h'][case['pos']]) / np.sqrt(case['sy']), 0.))
            N.append(np.where(mask, (r['poros'][box] - hyd['n'][case['pos']]) / np.sqrt(case['sn']), 0.))
    shape = mask.shape
    if any(n % 2 == 0 for n in shape):
        return
    for name, Y, cl in (('log conductivity', np.array(K), case['cy']), ('porosity', np.array(N), case['cn'])):
        h2 = np.zeros(shape)
        for k in range(3):
            i = np.arange(shape[k])
            s = [1, 1, 1]
            s[k] = -1
            h2 = h2 + (np.minimum(i, shape[k] - i) * [m['dx'], m['dy'], m['dz']][k] / cl[k]).reshape(s)**2
        C = np.exp(-np.sqrt(h2))
        C = C - C.mean()
        for lag in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 0, 0), (0, 2, 0), (0, 0, 2), (1, 1, 1)]:
            if any(l >= n for l, n in zip(lag, shape)):
                continue
            both = mask & np.roll(mask, [-l for l in lag], axis=(0, 1, 2))
            if not both.any():
                continue
            p = (Y * np.roll(Y, [-l for l in lag], axis=(1, 2, 3)))[:, both].mean(axis=1)
            se = p.std() / np.sqrt(R)
            need(abs(p.mean() - C[lag]) < .06 + 6 * se, '{}: covariance at lag {} is {:.3f} instead of {:.3f} (standard error {:.3f})', name, lag, p.mean(), C[lag], se)
        if not mask.all():
            # the mean over a body that does not fill its box varies as the covariances say
            i = np.argwhere(mask)
            q = (i[:, None, :] - i[None, :, :]) % np.array(shape)
            v = C[q[..., 0], q[..., 1], q[..., 2]].mean()
            got = (Y[:, mask].mean(axis=1)**2).mean()
            need(abs(got - v) <= 6.3 * np.sqrt(2 / R) * v + 2e-4, '{}: variance of the mean of the body is {:.4f} instead of {:.4f}', name, got, v)
    return 'ensemble ' + {True: 'background', False: 'body', 'part': 'body that does not fill its box'}[case['bg']]


SUBS = [Sub('exact', exact_cases(), check_exact, quick=2000),
        Sub('meta', meta_cases(), check_meta, quick=600),
        Sub('mean', mean_cases(), check_mean, quick=600),
        Sub('ensemble', ens_cases(), check_ens, quick=36)]
