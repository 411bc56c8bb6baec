"""P06: contact surfaces."""
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need, seed_all
import gen

PROPERTY = 'P06'
RULE = 'a random surface with nonzero variance on more than one column, or two surfaces that cross'
ASSUMPTIONS = ['the correlation is judged on domains of at least four correlation lengths with an odd number of columns per '
               'direction (the spectral method is periodic)', 'ensembles of 300 realizations, limits at 6 standard errors plus 0.06 variances']


def surface_class():
    try:
        from hyvr.geo.contact_surface import ContactSurface
        from hyvr.geo.grid import Grid
    except ImportError:
        raise Skip
    return ContactSurface, Grid


def mkgrid(Grid, m):
    return Grid(m['x0'], m['y0'], m['z0'], m['dx'], m['dy'], m['dz'], m['lx'], m['ly'], m['lz'], int(m['periodic']))


@st.composite
def surf(draw, m, zs=None):
    z = draw(zs if zs is not None else gen.dec(-20, 20, .1))
    if draw(st.integers(0, 2)) == 0:
        return {'mode': 'flat', 'z': z}
    return {'mode': 'random', 'z': z, 'var': draw(st.sampled_from([0., 1e-4, .01, .3, 2., 50.])),
            'corlx': draw(st.sampled_from([.2, .7, 2., 9.])), 'corly': draw(st.sampled_from([.3, 1., 4., 20.]))}


@st.composite
def api_cases(draw):
    m = draw(gen.grids(nx=(1, 12), ny=(1, 11), nz=(1, 3)))
    zs = st.sampled_from([0., .1, .2, .5, 1., -.3])
    return {'m': m, 'a': draw(surf(m, zs)), 'b': draw(surf(m, zs)), 'c': draw(surf(m, zs)), 'seed': draw(st.integers(0, 2**20)),
            'f': draw(st.sampled_from([.25, 2., 9., 100.])), 'shift': draw(gen.dec(-50, 50, .5)),
            'ops': draw(st.lists(st.sampled_from(['low', 'high']), min_size=1, max_size=4))}


def need_bounds(s):
    tol = 1e-9 * (1 + np.max(np.abs(s.surface)))
    need(s.zmin <= np.min(s.surface) + tol and s.zmax >= np.max(s.surface) - tol,
         'recorded bounds [{}, {}] do not enclose the surface [{}, {}]', s.zmin, s.zmax, np.min(s.surface), np.max(s.surface))


def check_api(case, env):
    CS, Grid = surface_class()
    m = case['m']
    g = mkgrid(Grid, m)
    shape = (g.nx, g.ny)
    labels = set()

    def make(spec, seed):
        seed_all(seed)
        s = CS(g, **spec)
        need(np.asarray(s.surface).shape == shape, 'shape of the surface {}', np.asarray(s.surface).shape)
        return s

    surfs = []
    for i, k in enumerate('abc'):
        spec = case[k]
        s = make(spec, case['seed'] + i)
        tol = 1e-9 * (1 + abs(spec['z']) + np.sqrt(spec.get('var', 0)))
        if spec['mode'] == 'flat' or spec['var'] == 0:
            need(np.all(np.abs(s.surface - spec['z']) <= tol), 'flat surface at {} has elevations {}', spec['z'], np.unique(s.surface)[:4])
        need(abs(np.mean(s.surface) - spec['z']) <= tol, 'mean elevation {} instead of {}', np.mean(s.surface), spec['z'])
        need(abs(s.zmean - spec['z']) <= tol, 'recorded mean {} instead of {}', s.zmean, spec['z'])
        need_bounds(s)
        if spec['mode'] == 'random' and spec['var'] > 0:
            # same seed: deviations scale with the standard deviation and do not depend on the elevation
            dev = s.surface - spec['z']
            t = make(dict(spec, var=spec['var'] * case['f']), case['seed'] + i)
            need(np.allclose(t.surface - spec['z'], dev * np.sqrt(case['f']), rtol=1e-6, atol=tol * 10 * max(1, case['f'])),
                 'deviations do not scale with the square root of the variance')
            u = make(dict(spec, z=spec['z'] + case['shift']), case['seed'] + i)
            need(np.allclose(u.surface - spec['z'] - case['shift'], dev, rtol=1e-6, atol=1e-9 * (1 + abs(case['shift']))),
                 'deviations depend on the elevation')
            if max(shape) > 2:
                need(np.any(np.abs(dev) > 1e-12), 'random surface without variation')
                labels.add('random surface')
        surfs.append(s)
    if not (hasattr(CS, 'use_lower_surface_value') and hasattr(CS, 'use_higher_surface_value')):
        return sorted(labels)
    s = surfs[0]
    for i, op in enumerate(case['ops']):
        o = surfs[1 + i % 2]
        before, obefore = np.array(s.surface), np.array(o.surface)
        if op == 'low':
            s.use_lower_surface_value(o)
            exp = np.minimum(before, obefore)
        else:
            s.use_higher_surface_value(o)
            exp = np.maximum(before, obefore)
        need(np.array_equal(s.surface, exp), 'limiting ({}) does not give the {} of both surfaces', op, 'minimum' if op == 'low' else 'maximum')
        need(np.array_equal(o.surface, obefore), 'limiting changes the other surface')
        need_bounds(s)
        need_bounds(o)
        if np.any(before < obefore) and np.any(before > obefore):
            labels.add('crossing surfaces')
        need(not np.shares_memory(s.surface, o.surface), 'surfaces share their values after limiting')
    return sorted(labels)


# ------------------------------------------------------------------------------------------
@st.composite
def ens_cases(draw):
    d = draw(st.sampled_from([.1, .5, 1., 2.]))
    e = draw(st.sampled_from([.1, .5, 1., 2.]))
    nx = draw(st.sampled_from([9, 13, 17, 21]))
    ny = draw(st.sampled_from([9, 13, 17, 21]))
    cx = draw(st.sampled_from([.12, .2, .25])) * nx * d
    cy = draw(st.sampled_from([.12, .2, .25])) * ny * e
    return {'m': {'x0': draw(gen.dec(-9, 9, .5)), 'y0': draw(gen.dec(-9, 9, .5)), 'z0': 0., 'dx': d, 'dy': e, 'dz': 1.,
                  'lx': gen.rnd(nx * d), 'ly': gen.rnd(ny * e), 'lz': 1., 'periodic': draw(st.booleans())},
            's': {'mode': 'random', 'z': draw(gen.dec(-5, 5, .5)), 'var': draw(st.sampled_from([.01, .5, 4.])),
                  'corlx': gen.rnd(cx), 'corly': gen.rnd(cy)}, 'seed': draw(st.integers(0, 2**20))}


R = 300


def check_ens(case, env):
    CS, Grid = surface_class()
    g = mkgrid(Grid, case['m'])
    s = case['s']
    seed_all(case['seed'])
    z = np.array([CS(g, **s).surface for _ in range(R)]) - s['z']
    var = s['var']
    nx, ny = z.shape[1:]
    # expected: gaussian model, minus the removed mean of the field
    dx, dy = case['m']['dx'], case['m']['dy']
    ix = np.minimum(np.arange(nx), nx - np.arange(nx))
    iy = np.minimum(np.arange(ny), ny - np.arange(ny))
    C = np.exp(-(ix[:, None] * dx / s['corlx'])**2 - (iy[None, :] * dy / s['corly'])**2)
    C = C - C.mean()
    for (i, j) in [(0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (1, 1), (nx // 3, 0), (0, ny // 3)]:
        # stationary and periodic: average over all pairs of columns
        p = (z * np.roll(z, (-i, -j), axis=(1, 2))).mean(axis=(1, 2))
        got, se = p.mean() / var, p.std() / np.sqrt(R) / var
        need(abs(got - C[i, j]) < .06 + 6 * se, 'covariance at lag {} is {:.3f} variances instead of {:.3f} (+-{:.3f})', (i, j), got, C[i, j], se)
    # the variance is the same everywhere
    v = (z**2).mean(axis=0) / var
    need(np.all(np.abs(v - C[0, 0]) < .06 + 7 * np.sqrt(2 / R)), 'variance differs between columns: {} ... {}', v.min(), v.max())
    mz = z.mean(axis=0) / np.sqrt(var)
    need(np.all(np.abs(mz) < 7 / np.sqrt(R)), 'mean of the surface differs between columns')
    return 'anisotropic' if s['corlx'] != s['corly'] else 'isotropic'


# ------------------------------------------------------------------------------------------
@st.composite
def run_cases(draw):
    m = draw(gen.grids(nx=(3, 9), ny=(3, 8), nz=(12, 20), zsizes=(.1, .25)))
    lz, dz = m['lz'], m['dz']
    f = sorted(draw(st.lists(st.sampled_from([.24, .41, .57, .73]), min_size=1, max_size=2, unique=True)))
    cms = []
    for x in f:
        z = gen.rnd(m['z0'] + x * lz)
        if draw(st.integers(0, 2)) == 0:
            cms.append(['flat', z])
        else:
            # standard deviation so small that the surfaces stay in the domain and do not cross
            cms.append(['random', z, gen.rnd((draw(st.sampled_from([.005, .015, .02])) * lz)**2),
                        gen.rnd(draw(st.sampled_from([.1, .3, 1.])) * m['lx']), gen.rnd(draw(st.sampled_from([.1, .3, 1.])) * m['ly'])])
    return {'m': m, 'cms': cms, 'seed': draw(st.integers(0, 2**20))}


def check_run(case, env):
    """contact elevations as seen in the output: the boundary in a column is known up to half a cell"""
    m, cms = case['m'], case['cms']
    e = {'geometry': 'sheet', 'structure': 'massive', 'contact_model': ['flat'], 'facies': ['a'], 'lens_thickness': -1}
    cfg = gen.single(m, e, ['a'], bg=('a', 0., 0.), seed=case['seed'])
    n = len(cms) + 1
    s = cfg['strata']
    s['strata'] = ['s%d' % i for i in range(n)]
    s['strata_contact_models'] = cms
    for k in ('ae_in_strata', 'ae_prob', 'ae_z_mean', 'avul_prob', 'avul', 'bg_facies', 'bg_azim', 'bg_dip'):
        s[k] = s[k] * n
    r = gen.simulate(cfg, env)
    x, y, z = gen.cells(cfg)
    dz = m['dz']
    for k, cm in enumerate(cms):
        # cells below contact k belong to strata n-1-k.. (numbered from the top)
        below = r['strata'] >= n - 1 - k
        cnt = below.sum(axis=2)
        need(np.all(below == (np.arange(len(z))[None, None, :] < cnt[:, :, None])), 'cells below a contact are not connected')
        if cm[0] == 'flat':
            need(np.all(cnt == np.sum(z < cm[1])), 'flat contact at {}: cells below {} instead of {}', cm[1], np.unique(cnt), np.sum(z < cm[1]))
        else:
            zc = m['z0'] + cnt * dz        # contact within +- dz/2
            need(abs(zc.mean() - cm[1]) <= .5 * dz + 1e-6, 'mean contact elevation {} instead of {}', zc.mean(), cm[1])
            lim = 7 * np.sqrt(cm[2]) + dz
            need(np.all(np.abs(zc - cm[1]) < lim), 'contact deviates by {} for variance {}', np.abs(zc - cm[1]).max(), cm[2])
    return ['run with ' + '+'.join(c[0] for c in cms)]


# ------------------------------------------------------------------------------------------
@st.composite
def stat_cases(draw):
    nx, ny = draw(st.sampled_from([(11, 9), (9, 11), (13, 7)]))
    dx, dy = draw(st.sampled_from([.5, 1., 2.])), draw(st.sampled_from([.5, 1., 2.]))
    m = {'x0': draw(gen.dec(-9, 9, .5)), 'y0': draw(gen.dec(-9, 9, .5)), 'z0': draw(gen.dec(-9, 9, .5)), 'dx': dx, 'dy': dy, 'dz': .1,
         'lx': gen.rnd(nx * dx), 'ly': gen.rnd(ny * dy), 'periodic': draw(st.booleans()), 'hydraulics': False}

    def rough():
        return ['random', gen.rnd(draw(st.sampled_from([.15, .3, .45]))**2), gen.rnd(draw(st.sampled_from([.1, .2])) * m['lx']),
                gen.rnd(draw(st.sampled_from([.1, .2])) * m['ly'])]
    types = [['flat'] if draw(st.integers(0, 2)) == 0 else rough() for _ in range(draw(st.integers(1, 3)))]
    strata = [['flat'] if draw(st.integers(0, 2)) == 0 else rough() for _ in range(draw(st.integers(0, 2)))]
    return {'m': m, 'types': types, 'strata': strata, 'h': draw(st.sampled_from([5., 6.])), 'n': draw(st.integers(3, 6)),
            'seed': draw(st.integers(0, 2**20))}


STAT_RUNS = 12


def check_stat(case, env):
    """variance and correlation of the contacts of strata and elements in whole models"""
    m = dict(case['m'])
    names = ['e%d' % i for i in range(len(case['types']))]
    ns = len(case['strata']) + 1
    height = gen.rnd(case['h'] * case['n'] + .95)
    m['lz'] = gen.rnd(height * ns + .05 * ((-int(round(height * ns * 20))) % 2))
    m['lz'] = gen.rnd(round(m['lz'] / m['dz']) * m['dz'])
    e = {'geometry': 'sheet', 'structure': 'massive', 'facies': ['a'], 'lens_thickness': -1}
    cfg = gen.single(m, e, ['a'], bg=('a', 0., 0.))
    cfg['elements'] = {n: dict(e, contact_model=c) for n, c in zip(names, case['types'])}
    s = cfg['strata']
    s['strata'] = ['s%d' % i for i in range(ns)]
    zs = [gen.rnd(m['z0'] + height * (i + 1)) for i in range(ns - 1)]
    s['strata_contact_models'] = [[c[0], z] + c[1:] for c, z in zip(case['strata'], zs)]
    s['ae'] = names
    s['ae_in_strata'] = [names] * ns
    s['ae_prob'] = [[1.] * len(names)] * ns
    s['ae_z_mean'] = [[case['h']] * len(names)] * ns
    for k in ('avul_prob', 'avul', 'bg_facies', 'bg_azim', 'bg_dip'):
        s[k] = s[k] * ns
    dz = m['dz']
    got = {}
    for run in range(STAT_RUNS):
        r = gen.simulate(cfg, env, seed=case['seed'] * STAT_RUNS + run)
        ae, hat, si = r['ae'], r['hat'], r['strata']
        for a in range(1, int(ae.max()) + 1):
            if not (np.any(ae == a) and np.any(ae == a - 1)):
                continue
            zc = (ae >= a).sum(axis=2) * dz
            s1, s0 = si[ae == a][0], si[ae == a - 1][0]
            t = int(hat[ae == a][0])
            if s1 != s0:
                key = ('stratum', int(ns - 1 - s1))
                cm = case['strata'][ns - 1 - s1]
                need(abs(zc.mean() + m['z0'] - zs[ns - 1 - s1]) <= .5 * dz + 1e-6, 'mean elevation of a contact {:.3f} instead of {}',
                     zc.mean() + m['z0'], zs[ns - 1 - s1])
            else:
                key, cm = ('element', t), case['types'][t]
                # elements that are cut by the stratum bottom or its top do not count
                if zc.min() - (si > s1).sum(axis=2).max() * dz < 1. or (si >= s1).sum(axis=2).min() * dz - zc.max() < 1.:
                    continue
            if cm[0] == 'flat':
                need(np.all(zc == zc[0, 0]), 'the top of a {} with flat contact model is not flat', key[0])
            got.setdefault(key, []).append((cm, zc - zc.mean()))
    labels = set()
    for key, l in got.items():
        cm = l[0][0]
        if cm[0] == 'flat':
            labels.add('flat ' + key[0])
            continue
        z = np.array([x[1] for x in l])
        n, nx, ny = z.shape
        ix = np.minimum(np.arange(nx), nx - np.arange(nx))
        iy = np.minimum(np.arange(ny), ny - np.arange(ny))
        C = np.exp(-(ix[:, None] * m['dx'] / cm[2])**2 - (iy[None, :] * m['dy'] / cm[3])**2)
        C = C - C.mean()
        if n < 6:
            continue
        for (i, j) in [(0, 0), (1, 0), (0, 1)]:
            p = (z * np.roll(z, (-i, -j), axis=(1, 2))).mean(axis=(1, 2)) / cm[1]
            exp = C[i, j] + (dz**2 / 12 / cm[1] if i == j else 0)
            se = max(p.std(ddof=1), .2) / np.sqrt(n)
            need(abs(p.mean() - exp) < .08 + 7 * se, 'covariance of the top of a {} with contact model {} at lag {}: {:.3f} variances instead of {:.3f} (+-{:.3f})',
                 key[0], cm, (i, j), p.mean(), exp, se)
        labels.add('rough ' + key[0])
    return sorted(labels)


# ------------------------------------------------------------------------------------------
@st.composite
def cross_cases(draw):
    m = draw(gen.grids(nx=(1, 9), ny=(1, 8), nz=(1, 8)))
    sd = gen.rnd(draw(st.sampled_from([.05, .2, .6, 2.])) * m['lz'])

    def rough():
        if draw(st.integers(0, 3)) == 0:
            return ['flat']
        return ['random', gen.rnd(max(sd**2, 1e-5)), draw(st.sampled_from([.3, 1., 4.])), draw(st.sampled_from([.3, 1., 4.]))]
    f = sorted(draw(st.lists(st.sampled_from([.05, .13, .24, .41, .57, .73, .9, .97]), max_size=4, unique=True)))
    strata = [(lambda c: [c[0], gen.rnd(m['z0'] + x * m['lz'])] + c[1:])(rough()) for x in f]
    return {'m': m, 'strata': strata, 'types': [rough() for _ in range(draw(st.integers(1, 3)))],
            'h': gen.rnd(draw(st.sampled_from([.04, .1, .3])) * m['lz']), 'seed': draw(st.integers(0, 2**20))}


def check_cross(case, env):
    """the surfaces of strata and elements in a model never cross"""
    m = dict(case['m'], hydraulics=False)
    names = ['e%d' % i for i in range(len(case['types']))]
    ns = len(case['strata']) + 1
    e = {'geometry': 'sheet', 'structure': 'massive', 'facies': ['a'], 'lens_thickness': -1}
    cfg = gen.single(m, e, ['a'], bg=('a', 0., 0.), seed=case['seed'])
    cfg['elements'] = {n: dict(e, contact_model=c) for n, c in zip(names, case['types'])}
    s = cfg['strata']
    s['strata'] = ['s%d' % i for i in range(ns)]
    s['strata_contact_models'] = case['strata']
    s['ae'] = names
    s['ae_in_strata'] = [names] * ns
    s['ae_prob'] = [[1.] * len(names)] * ns
    s['ae_z_mean'] = [[case['h']] * len(names)] * ns
    for k in ('avul_prob', 'avul', 'bg_facies', 'bg_azim', 'bg_dip'):
        s[k] = s[k] * ns
    model = gen.build_model(cfg, env)
    try:
        strata = [(np.asarray(q.bottom_surface.surface), np.asarray(q.top_surface.surface),
                   [(np.asarray(a.bottom_surface.surface), np.asarray(a.top_surface.surface)) for a in q.aes]) for q in model.strata]
        own = [x for q in model.strata for x in [q.bottom_surface, q.top_surface] + [b.bottom_surface for b in q.aes]]
    except AttributeError:
        raise Skip
    need(len(strata) == ns, '{} strata instead of {}', len(strata), ns)
    for q in own:
        need_bounds(q)
    if strata[0][1].mean() < strata[-1][1].mean():
        strata = strata[::-1]
    above = None
    pinched = 0
    for i, (b, t, els) in enumerate(strata):
        need(np.all(b <= t), 'the bottom of stratum {} from the top is above its top', i)
        need(above is None or np.array_equal(t, above), 'stratum {} from the top does not begin where the one above ends', i)
        pinched += np.any(b == t)
        above = b
        last = t
        for j, (eb, et) in enumerate(els):
            need(np.array_equal(et, last), 'element {} of stratum {} does not begin where the one above ends', j, i)
            need(np.all(eb <= et), 'the bottom of element {} of stratum {} is above its top', j, i)
            need(np.all(eb >= b), 'the bottom of element {} of stratum {} is below the bottom of the stratum', j, i)
            pinched += np.any(eb == et) or (j < len(els) - 1 and np.any(eb == b))
            last = eb
        if els:
            need(np.array_equal(last, b), 'the elements of stratum {} do not reach its bottom', i)
    return ['strata:%d' % ns, 'surfaces meet'] if pinched else None


SUBS = [Sub('crossing', cross_cases(), check_cross, quick=400),
        Sub('model_contacts', stat_cases(), check_stat, quick=30),
        Sub('surfaces', api_cases(), check_api, quick=4000),
        Sub('ensemble', ens_cases(), check_ens, quick=60),
        Sub('run', run_cases(), check_run, quick=500)]
