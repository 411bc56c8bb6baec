"""P08: order, thickness and frequency of strata and architectural elements."""
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen

PROPERTY = 'P08'
RULE = 'a column contains at least two strata or elements'
ASSUMPTIONS = ['contact depths increase strictly with the stratum', 'avulsion smaller than half the mean thickness',
               'means, variances and frequencies are judged at 6 standard errors over 5 runs of stacks of at least 8 elements']


def check_order(cfg, env):
    r = gen.simulate(cfg, env)
    si, ae = r['strata'], r['ae']
    # last axis is z: from top to bottom
    for name, a in (('stratum', si), ('element', ae)):
        d = np.diff(a[:, :, ::-1].astype(int), axis=2)
        need(np.all(d >= 0), 'the {} number decreases downwards', name)
    need(np.all(si >= 0) and np.all(si < len(cfg['strata']['strata'])), 'stratum number')
    # element numbers increase with the stratum as well
    last = -1
    for s in np.unique(si):
        v = ae[si == s]
        need(v.min() > last, 'element numbers of stratum {} are not above those of the strata on top of it', s)
        last = v.max()
    lab = []
    if len(np.unique(si)) > 1:
        lab.append('several strata')
    if len(np.unique(ae)) > 1:
        lab.append('several elements')
    return lab


# ------------------------------------------------------------------------------------------
@st.composite
def flat_cases(draw):
    """sheets with flat contacts: strata boundaries are known exactly"""
    cfg = draw(gen.models(geometries=('sheet',), rough=False, hydro=False, max_strata=5,
                          grid=gen.grids(nx=(1, 3), ny=(1, 3), nz=(6, 25))))
    return cfg


def check_flat(cfg, env):
    r = gen.simulate(cfg, env)
    x, y, z = gen.cells(cfg)
    S = cfg['strata']
    ns = len(S['strata'])
    zb = [c[1] for c in S['strata_contact_models']]
    exp = np.array([ns - 1 - int(np.sum(np.array(zb) < v)) if zb else 0 for v in z])
    need(np.all(r['strata'] == exp[None, None, :]), 'strata in a column {} instead of {}', r['strata'][0, 0].tolist(), exp.tolist())
    for k in ('ae', 'strata'):
        need(np.all(r[k] == r[k][:1, :1, :]), 'flat contacts, but {} varies laterally', k)
    if ns > 1:
        return 'strata:{}'.format(ns)


# ------------------------------------------------------------------------------------------
@st.composite
def stack_cases(draw):
    ns = draw(st.integers(1, 3))
    ntypes = draw(st.integers(1, 3))
    names = ['ae{}'.format(i) for i in range(ntypes)]
    dz = .02
    strata = []
    for i in range(ns):
        l = draw(st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True))
        h = [draw(st.sampled_from([.4, .6, 1.])) for _ in l]
        p = [draw(st.sampled_from([0., .2, .5, 1., 3.])) for _ in l]
        if sum(p) == 0:
            p[0] = 1.
        lo = draw(st.sampled_from([0., .05, .1]))
        av = [lo, gen.rnd(lo + draw(st.sampled_from([0., .04, .1])))]
        strata.append({'types': l, 'h': h, 'p': p, 'avul': av, 'avul_prob': draw(st.sampled_from([0., .3, .7, 1.])),
                       'n': draw(st.integers(8, 16))})
    return {'ntypes': ntypes, 'strata': strata, 'z0': draw(st.sampled_from([0., -7.5, 100.])), 'dz': dz,
            'seed': draw(st.integers(0, 2**20))}


RUNS = 5


@st.composite
def long_cases(draw):
    """one type, hundreds of elements: variance of the thickness"""
    lo = draw(st.sampled_from([0., .05]))
    return {'ntypes': 1, 'strata': [{'types': ['ae0'], 'h': [draw(st.sampled_from([.4, .7]))], 'p': [1.],
                                     'avul': [lo, gen.rnd(lo + draw(st.sampled_from([0., .14])))],
                                     'avul_prob': draw(st.sampled_from([0., .5, 1.])), 'n': 130}],
            'z0': draw(st.sampled_from([0., -7.5, 100.])), 'dz': .02, 'seed': draw(st.integers(0, 2**20))}



@st.composite
def type_cases(draw):
    """several types with unequal probabilities, many elements: the types are drawn independently"""
    n = draw(st.integers(2, 4))
    names = ['ae{}'.format(i) for i in range(n)]
    types = draw(st.permutations(names))
    h = [draw(st.sampled_from([.4, .6]))] * n
    if draw(st.booleans()):
        # types of very different thickness
        h[draw(st.integers(0, n - 1))] = draw(st.sampled_from([3., 5.]))
    return {'ntypes': n, 'strata': [{'types': list(types), 'h': h, 'p': [draw(st.sampled_from([.1, .3, 1., 2.])) for _ in types],
                                     'avul': [0., 0.], 'avul_prob': 0., 'n': draw(st.sampled_from([130, 260]))}],
            'z0': draw(st.sampled_from([0., -7.5, 100.])), 'dz': .04, 'seed': draw(st.integers(0, 2**20))}


@st.composite
def first_cases(draw):
    """many strata of few elements: thickness of the first element of a stratum"""
    ns = draw(st.integers(12, 24))
    lo = draw(st.sampled_from([0., .05, .15]))
    x = {'types': ['ae0'], 'h': [draw(st.sampled_from([.6, 1.]))], 'p': [1.], 'avul': [lo, gen.rnd(lo + draw(st.sampled_from([0., .1])))],
         'avul_prob': draw(st.sampled_from([0., .5, 1.])), 'n': 1}
    return {'ntypes': 1, 'strata': [dict(x) for _ in range(ns)], 'z0': draw(st.sampled_from([0., -7.5, 100.])), 'dz': .02,
            'seed': draw(st.integers(0, 2**20))}


def check_stack(case, env):
    names = ['ae{}'.format(i) for i in range(case['ntypes'])]
    dz, z0 = case['dz'], case['z0']
    strata = case['strata']                   # from bottom to top
    heights = [gen.rnd(np.ceil(s['n'] * 1.7 * max(s['h']) / dz) * dz) for s in strata]
    e = {'geometry': 'sheet', 'structure': 'massive', 'contact_model': ['flat'], 'facies': ['a'], 'lens_thickness': -1}
    m = {'z0': z0, 'dx': 1., 'dy': 1., 'dz': dz, 'lx': 1., 'ly': 1., 'lz': gen.rnd(sum(heights)), 'hydraulics': False}
    cfg = gen.single(m, e, ['a'], bg=('a', 0., 0.))
    cfg['elements'] = {n: e for n in names}
    ends = z0 + np.cumsum(heights)
    s = cfg['strata']
    s['strata'] = ['s%d' % i for i in range(len(strata))]
    s['strata_contact_models'] = [['flat', gen.rnd(v - dz * .25)] for v in ends[:-1]]
    s['ae'] = names
    s['ae_in_strata'] = [x['types'] for x in strata]
    s['ae_prob'] = [x['p'] for x in strata]
    s['ae_z_mean'] = [x['h'] for x in strata]
    s['avul_prob'] = [[x['avul_prob']] for x in strata]
    s['avul'] = [x['avul'] for x in strata]
    for k in ('bg_facies', 'bg_azim', 'bg_dip'):
        s[k] = s[k] * len(strata)
    thick = [{t: [] for t in x['types']} for x in strata]
    pairs = [[0, 0] for x in strata]
    firsts = []
    for run in range(RUNS):
        r = gen.simulate(cfg, env, seed=case['seed'] * RUNS + run)
        sid = r['strata'][0, 0, ::-1]
        ae = r['ae'][0, 0, ::-1]
        hat = r['hat'][0, 0, ::-1]
        need(ae[0] >= 0 and np.all(np.diff(ae.astype(int)) >= 0), 'the element number decreases downwards')
        for k, x in enumerate(strata):
            sel = sid == len(strata) - 1 - k
            need(sel.any(), 'stratum {} is missing', k)
            a, h = ae[sel], hat[sel]
            starts = np.flatnonzero(np.r_[True, a[1:] != a[:-1]])
            lens = np.diff(np.r_[starts, len(a)])
            need(len(lens) >= x['n'] + 1 or x['avul_prob'] == 0 and len(lens) >= x['n'],
                 'only {} elements of mean thickness {} in a stratum of {}', len(lens), x['h'], heights[k])
            for i in range(min(x['n'], len(lens) - 1)):
                t = names[h[starts[i]]]
                need(t in x['types'], 'type {} in a stratum with {}', t, x['types'])
                thick[k][t].append(lens[i] * dz)
                if i == 0:
                    firsts.append((lens[i] * dz, x, x['h'][x['types'].index(t)]))
                elif a[starts[i]] == a[starts[i] - 1] + 1:
                    pairs[k][0] += 1
                    pairs[k][1] += int(h[starts[i]] == h[starts[i] - 1])
    labels = []
    if len(firsts) >= 40:
        # standardized thickness of the uppermost elements of the strata
        d, w = [], []
        for v, x, hm in firsts:
            a0, a1 = x['avul']
            ap = x['avul_prob']
            am = ap * (a0 + a1) / 2
            var = (.1 * hm)**2 + ap * ((a1 - a0)**2 / 12 + ((a0 + a1) / 2)**2) - am**2 + dz**2 / 6
            d.append(v - (hm - am))
            w.append(var)
        need(abs(np.mean(d)) <= 6 * np.sqrt(np.mean(w) / len(d)) + dz, 'uppermost elements of the strata are on average {:.3f} too thick ({} elements)',
             np.mean(d), len(d))
        if len(firsts) >= 60:
            # (the tails of the chi-square distribution beyond these limits are below 1e-8)
            q = np.mean(np.array(d)**2 / np.array(w))
            need(.3 <= q <= 2.6, 'the variance of the thickness of {} uppermost elements of strata is {:.2f} times the expected one', len(firsts), q)
        labels.append('uppermost elements')
    for k, x in enumerate(strata):
        n, same = pairs[k]
        q = np.array(x['p']) / sum(x['p'])
        if n >= 100 and len(q) > 1:
            # the types of successive elements are drawn independently
            e2 = np.sum(q**2)
            v = e2 * (1 - e2) + 2 * (np.sum(q**3) - e2**2)
            need(abs(same - n * e2) <= 6 * np.sqrt(n * max(v, 0)) + 2, 'successive elements have the same type {} times in {} instead of {:.0f} (probabilities {})',
                 same, n, n * e2, q.round(3).tolist())
            labels.append('successive types')
        ntot = sum(len(v) for v in thick[k].values())
        ptot = sum(x['p'])
        for t, hm, p in zip(x['types'], x['h'], x['p']):
            v = np.array(thick[k][t])
            q = p / ptot
            if p == 0:
                need(len(v) == 0, 'type {} with probability zero occurs', t)
                continue
            need(abs(len(v) - ntot * q) <= 6 * np.sqrt(ntot * q * (1 - q)) + 1,
                 'type {} with relative probability {:.2f} occurs {} times in {}', t, q, len(v), ntot)
            if len(v) == 0:
                continue
            a0, a1 = x['avul']
            ap = x['avul_prob']
            need(np.all(v < hm * 1.65 - (a0 if ap == 1 else 0) + dz), 'element of thickness {} with mean {}', v.max(), hm)
            need(np.all(v > hm * .35 - (a1 if ap > 0 else 0) - dz), 'element of thickness {} with mean {} and avulsion {}', v.min(), hm, x['avul'])
            am = ap * (a0 + a1) / 2
            m2 = ap * ((a1 - a0)**2 / 12 + ((a0 + a1) / 2)**2)
            var = (.1 * hm)**2 + m2 - am**2 + dz**2 / 6
            n = len(v)
            need(abs(v.mean() - (hm - am)) <= 6 * np.sqrt(var / n) + dz / n,
                 'mean thickness {:.3f} of {} elements instead of {:.3f} (type mean {}, avulsion {} with probability {})',
                 v.mean(), n, hm - am, hm, x['avul'], ap)
            if n >= 25:
                s2 = v.var()
                # kurtosis of the mixture is below 4
                need(abs(s2 - var) <= 6 * var * np.sqrt(3 / n) , 'variance of the thickness {:.5f} instead of {:.5f}', s2, var)
                labels.append('variance')
            labels.append('avulsion' if ap else 'no avulsion')
    return sorted(set(labels))


SUBS = [Sub('types', type_cases(), check_stack, quick=32),
        Sub('first', first_cases(), check_stack, quick=32),
        Sub('long', long_cases(), check_stack, quick=48),
        Sub('order', gen.models(sig=False, hydro=False, grid=gen.grids(nx=(1, 7), ny=(1, 6), nz=(4, 18))), check_order, quick=3000),
        Sub('flat', flat_cases(), check_flat, quick=1400),
        Sub('stack', stack_cases(), check_stack, quick=180)]
