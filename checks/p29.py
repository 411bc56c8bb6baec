"""P29: names, listing order and unused declarations do not matter."""
import copy
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen

PROPERTY = 'P29'
RULE = 'something is renamed, reordered or added in a model with several bodies, elements, strata or facies'
ASSUMPTIONS = ['reordered or additional facies: no random hydraulic fields (their sequence of random numbers follows the order of the facies)',
               'numbers of facies (facies) and element types (hat) are compared through the order of the lists']

FACLISTS = ['k_h', 'sig_y', 'k_ratio', 'n', 'sig_n', 'ycorlengths', 'ncorlengths']
# names that are prefixes, case variants and parts of each other or of option names
NAMES = ['a', 'A', 'aa', 'ab', 'b', 'facies', 'type', 'strata1', 'x', 'X1', 'x10', 'ae', 'top', 'zz_9', 'clay_sheet', 'none', 'true1', 'dip', 'flat', 'random', '1', '10', '0', 'e1', '1e5']


@st.composite
def cases(draw, order):
    cfg = draw(gen.models(grid=gen.grids(nx=(1, 7), ny=(1, 6), nz=(1, 9)), sig=not order, trends_=True))
    s = cfg['strata']
    case = {'cfg': cfg}
    nm = draw(st.permutations(NAMES))
    k = draw(st.integers(1, 7))
    facs = cfg['hydraulics']['hydrofacies']
    if k & 1:
        case['facies'] = nm[:len(facs)]
    if k & 2:
        case['elements'] = [n for n in nm if n not in ('strata', 'model', 'run')][-len(s['ae']):]
    if k & 4:
        case['strata'] = nm[5:5 + len(s['strata'])]
    if order:
        case['unused_f'] = draw(st.integers(0, 2))
        case['unused_e'] = draw(st.integers(0, 2))
        case['ae_order'] = draw(st.permutations(range(len(s['ae']) + case['unused_e'])))
        case['fac_order'] = draw(st.permutations(range(len(facs) + case['unused_f'])))
    return case


def transformed(case):
    """new configuration, and where old facies and element numbers went"""
    c = copy.deepcopy(case['cfg'])
    s, h = c['strata'], c['hydraulics']
    if 'strata' in case:
        s['strata'] = list(case['strata'])
    facs = h['hydrofacies']
    fmap = {f: n for f, n in zip(facs, case.get('facies', facs))}
    emap = {e: n for e, n in zip(s['ae'], case.get('elements', s['ae']))}
    fi, ei = list(range(len(facs))), list(range(len(s['ae'])))
    nf = [fmap[f] for f in facs]
    ne = [emap[e] for e in s['ae']]

    def f(v):
        return [f(x) for x in v] if isinstance(v, list) else fmap[v]
    for e in c['elements'].values():
        for k in ('facies', 'altfacies', 'bg_facies', 'lag_facies'):
            if k in e:
                e[k] = f(e[k])
    s['bg_facies'] = f(s['bg_facies'])
    s['ae_in_strata'] = [[emap[e] for e in l] for l in s['ae_in_strata']]
    c['elements'] = {emap[k]: e for k, e in c['elements'].items()}
    if 'fac_order' in case:
        for j in range(case['unused_f']):
            nf.append('uF%d' % j)
            for k in FACLISTS:
                h[k] = h[k] + [copy.deepcopy(h[k][0])]
            h['k_h'][-1] = 77.
        for j in range(case['unused_e']):
            ne.append('uE%d' % j)
            e = copy.deepcopy(c['elements'][ne[0]])
            c['elements'] = {ne[-1]: e, **c['elements']} if j else {**c['elements'], ne[-1]: e}
        o = case['fac_order']
        for k in FACLISTS:
            h[k] = [h[k][i] for i in o]
        nf = [nf[i] for i in o]
        fi = [o.index(i) for i in fi]
        o = case['ae_order']
        ne = [ne[i] for i in o]
        ei = [o.index(i) for i in ei]
    h['hydrofacies'] = nf
    s['ae'] = ne
    return c, fi, ei


def check(case, env):
    c, fi, ei = transformed(case)
    a = gen.simulate(case['cfg'], env)
    b = gen.simulate(c, env)
    need(set(a) == set(b), 'arrays {} / {}', sorted(a), sorted(b))
    a = dict(a)
    a['facies'] = np.array(fi)[a['facies']].astype(a['facies'].dtype)
    a['hat'] = np.array(ei)[a['hat']].astype(a['hat'].dtype)
    what = 'renamed or reordered declarations change the model'
    if 'fac_order' not in case:
        gen.diff_arrays(a, b, None, what)
    else:
        gen.diff_arrays(a, b, ['strata', 'ae', 'hat', 'ha', 'facies', 'azim', 'dip'], what)
        for k in ('k_iso', 'poros', 'anirat', 'ktensors'):
            if k in a:
                tol = 1e-12 * np.abs(a[k]).max()
                need(a[k].shape == b[k].shape and np.all(np.abs(a[k] - b[k]) <= tol), what + ': {}', k)
    if max(len(np.unique(a[k])) for k in ('ha', 'ae', 'strata', 'facies')) > 1:
        lab = [k for k in ('facies', 'elements', 'strata') if k in case]
        if 'fac_order' in case:
            lab += ['reordered'] + (['unused facies'] if case['unused_f'] else []) + (['unused element'] if case['unused_e'] else [])
        return lab


SUBS = [Sub('rename', cases(False), check, quick=1000),
        Sub('reorder', cases(True), check, quick=1400)]
