"""P14: random fields."""
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need, seed_all
import gen

PROPERTY = 'P14'
RULE = 'a field with nonzero variance on at least 3 cells in some direction'
ASSUMPTIONS = ['tight covariance limits (0.06 variances plus 6 standard errors) only for an odd number of cells per direction and at least '
               'four correlation lengths (the spectral method is periodic); ensembles of 400 fields']


def tools():
    try:
        from hyvr.utils import specsim
        from hyvr.geo.grid import Grid
    except ImportError:
        raise Skip
    return specsim, Grid


def mkgrid(Grid, m):
    return Grid(m['x0'], m['y0'], m['z0'], m['dx'], m['dy'], m['dz'], m['lx'], m['ly'], m['lz'], int(m['periodic']))


@st.composite
def exact_cases(draw):
    m = draw(gen.grids(nx=(1, 11), ny=(1, 10), nz=(1, 9), dyadic=True))
    two = draw(st.booleans())
    n = [round(m['l' + c] / m['d' + c]) for c in 'xyz'][:2 if two else 3]
    corl = [draw(st.sampled_from([.1, .4, 1., 3., 12.])) for _ in n]
    box = []
    for k in n:
        a = draw(st.integers(0, k - 1))
        box.append([a, draw(st.integers(a, k - 1))])
    return {'m': m, 'two': two, 'corl': corl, 'var': draw(st.sampled_from([0., 1e-6, .02, 1., 7.])), 'cov': draw(st.sampled_from(['gaussian', 'exp'])),
            'f': draw(st.sampled_from([.01, .25, 4., 100.])), 'box': box, 'mseed': draw(st.integers(0, 999)), 'p': draw(st.sampled_from([.15, .5, 1.])),
            'shift': [draw(gen.dec(-64, 64, .25)) for _ in range(3)], 'seed': draw(st.integers(0, 2**20))}


def check_exact(case, env):
    specsim, Grid = tools()
    m = case['m']
    g = mkgrid(Grid, m)
    two, corl, var, cov = case['two'], case['corl'], case['var'], case['cov']
    shape = (g.nx, g.ny) if two else (g.nx, g.ny, g.nz)

    def field(grid=g, v=var, mask=None, c=corl):
        seed_all(case['seed'])
        if mask is None:
            return specsim(grid, v, c, two_dim=two, covmod=cov)
        return specsim(grid, v, c, selection_mask=mask, two_dim=two, covmod=cov)
    Y = np.asarray(field())
    need(Y.shape == shape and np.isrealobj(Y), 'shape {} of the field instead of {}', Y.shape, shape)
    need(np.all(np.isfinite(Y)), 'field is not finite')
    sd = np.sqrt(var)
    tol = 1e-7 * (sd + 1e-30)
    need(abs(Y.mean()) <= tol, 'mean {} of the field', Y.mean())
    if var == 0:
        need(np.all(Y == 0), 'nonzero field for variance zero')
    else:
        # the eigenvalues are non-negative only up to rounding: relative comparison with the standard deviation
        need(np.allclose(field(v=var * case['f']), Y * np.sqrt(case['f']), rtol=1e-6, atol=1e-6 * sd * np.sqrt(case['f'])),
             'the field does not scale with the square root of the variance')
    mm = dict(m)
    for c, s in zip('xyz', case['shift']):
        mm[c + '0'] = m[c + '0'] + s
    need(np.allclose(field(grid=mkgrid(Grid, mm)), Y, rtol=1e-6, atol=1e-6 * sd), 'the field depends on the origin of the grid')
    full = field(mask=np.ones(shape, bool))
    need(full.shape == (Y.size,) and np.allclose(full, Y.ravel(), rtol=1e-6, atol=1e-6 * sd), 'selection of all cells is not the field itself')
    # selection within a box: restriction of the field of the enclosing box
    rs = np.random.RandomState(case['mseed'])
    mask = np.zeros(shape, bool)
    sl = tuple(slice(a, b + 1) for a, b in case['box'])
    sub = rs.rand(*mask[sl].shape) <= case['p']
    if not sub.any():
        sub.flat[0] = True
    mask[sl] = sub
    idx = np.argwhere(mask)
    lo, hi = idx.min(axis=0), idx.max(axis=0) + 1
    mb = dict(m)
    for k, c in enumerate('xyz'[:len(shape)]):
        mb[c + '0'] = m[c + '0'] + lo[k] * m['d' + c]
        mb['l' + c] = (hi[k] - lo[k]) * m['d' + c]
    before = mask.copy()
    got = np.asarray(field(mask=mask))
    need(np.array_equal(mask, before), 'the selection was changed')
    need(got.shape == (mask.sum(),), 'shape {} for a selection of {} cells', got.shape, mask.sum())
    Yb = field(grid=mkgrid(Grid, mb))
    exp = Yb[mask[tuple(slice(a, b) for a, b in zip(lo, hi))]]
    need(np.allclose(got, exp, rtol=1e-6, atol=1e-6 * sd), 'selection is not the restriction of the field of its enclosing box')
    if var > 0 and max(shape) > 2:
        if all(c >= .4 * m['d' + k] for c, k in zip(corl, 'xyz')):
            need(np.any(np.abs(Y) > 1e-6 * sd), 'field without variation')
        return ['2d' if two else '3d', cov, 'selection' if not mask.all() else 'all cells']


# ------------------------------------------------------------------------------------------
R = 400


@st.composite
def ens_cases(draw):
    two = draw(st.booleans())
    nn = [9, 13, 17, 21] if two else [7, 9, 11]
    n = [draw(st.sampled_from(nn)) for _ in range(2 if two else 3)]
    if draw(st.integers(0, 3)) == 0:
        n[draw(st.integers(0, len(n) - 1))] = 1
    d = [draw(st.sampled_from([.25, .5, 1., 2.])) for _ in range(3)]
    corl = [gen.rnd(draw(st.sampled_from([.1, .18, .25])) * k * s) if k > 1 else draw(st.sampled_from([.5, 3.])) for k, s in zip(n, d)]
    if two:
        n = n + [draw(st.integers(1, 3))]
    return {'n': n, 'd': d, 'corl': corl, 'two': two, 'cov': draw(st.sampled_from(['gaussian', 'exp'])), 'var': draw(st.sampled_from([.01, 1., 9.])),
            'mask': draw(st.booleans()), 'seed': draw(st.integers(0, 2**20))}


def check_ens(case, env):
    specsim, Grid = tools()
    n, d, corl, var = case['n'], case['d'], case['corl'], case['var']
    g = Grid(0., 0., 0., *d, *[a * b for a, b in zip(n, d)], 0)
    dim = 2 if case['two'] else 3
    shape = tuple(n[:dim])
    seed_all(case['seed'])
    kw = {'two_dim': case['two'], 'covmod': case['cov']}
    if case['mask']:
        kw['selection_mask'] = np.ones(shape, bool)
    Y = np.array([np.asarray(specsim(g, var, corl, **kw)).reshape(shape) for _ in range(R)])
    h2 = np.zeros(shape)
    for k in range(dim):
        i = np.arange(n[k])
        i = np.minimum(i, n[k] - i) * d[k] / corl[k]
        s = [1] * dim
        s[k] = -1
        h2 = h2 + i.reshape(s)**2
    C = np.exp(-h2) if case['cov'] == 'gaussian' else np.exp(-np.sqrt(h2))
    C = C - C.mean()
    ax = tuple(range(1, dim + 1))
    lags = [tuple([0] * dim)]
    for k in range(dim):
        for j in (1, 2, n[k] // 3, n[k] // 2):
            if 0 < j <= n[k] // 2:
                v = [0] * dim
                v[k] = j
                lags.append(tuple(v))
    lags.append(tuple(min(1, k - 1) for k in shape))
    for lag in sorted(set(lags)):
        p = (Y * np.roll(Y, [-l for l in lag], axis=ax)).mean(axis=ax) / var
        se = p.std() / np.sqrt(R)
        need(abs(p.mean() - C[lag]) < .06 + 6 * se, '{} covariance at lag {} is {:.3f} variances instead of {:.3f} (standard error {:.3f})',
             case['cov'], lag, p.mean(), C[lag], se)
    v = (Y**2).mean(axis=0) / var
    need(np.all(np.abs(v - C.flat[0]) < .06 + 7.5 * np.sqrt(2 / R)), 'the variance differs between cells: {:.3f} ... {:.3f}', v.min(), v.max())
    mz = Y.mean(axis=0) / np.sqrt(var)
    need(np.all(np.abs(mz) < 7.5 / np.sqrt(R)), 'the mean differs between cells')
    # realizations are independent
    p = (Y[1:] * Y[:-1]).mean(axis=ax) / var
    need(abs(p.mean()) < .02 + 7 * p.std() / np.sqrt(R - 1), 'consecutive fields are correlated: {:.3f}', p.mean())
    return ['ensemble ' + case['cov'], 'ensemble 2d' if case['two'] else 'ensemble 3d']


SUBS = [Sub('exact', exact_cases(), check_exact, quick=10000),
        Sub('ensemble', ens_cases(), check_ens, quick=200)]
