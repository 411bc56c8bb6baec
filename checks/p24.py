"""P24: channel centrelines."""
import numpy as np
from scipy import stats
from hypothesis import strategies as st
from vp import Sub, Skip, need, Violation
import vp, gen

PROPERTY = 'P24'
RULE = 'the curve is not straight (noise, or several segments of different direction)'
ASSUMPTIONS = ['height of the meander model at most one (its arcsine is taken)', 'noise strength 0 or 1 (variance and standard deviation coincide)',
               'resampled curves have segments of at most five units (points are found with a resolution of a tenth of the spacing times the segment length)']


def get(name, mod):
    import importlib
    try:
        return getattr(importlib.import_module(mod), name)
    except (ImportError, AttributeError):
        raise Skip


def call(f, *a):
    """The functions are internal; another signature is not an error."""
    try:
        return f(*a)
    except TypeError as e:
        if 'argument' in str(e):
            raise Skip
        raise


# ------------------------------------------------------------------------------------------
@st.composite
def ar_cases(draw):
    f = st.floats(-7, 7, allow_nan=False)
    return {'k': draw(st.floats(0, 10)), 'h': draw(st.floats(0, 1)), 't': [[draw(f), draw(f), draw(f)] for _ in range(5)]}


def check_ar(case, env):
    F = get('thetaAR2', 'hyvr.geo.channel_utils')
    k, h = case['k'], case['h']
    om, la = k * np.arcsin(h), k * h
    for t1, t2, eps in case['t']:
        e = 2 * np.exp(-la) * np.cos(om) * t1 - np.exp(-2 * la) * t2 + eps
        v = call(F, t1, t2, k, h, eps)
        need(abs(v - e) < 1e-9 * (1 + abs(t1) + abs(t2) + abs(eps)), 'direction after {} and {} with k {}, h {}, noise {} is {} instead of {}', t1, t2, k, h, eps, v, e)
    return 'AR(2) step' if k * h > 0 else 'no damping'


# ------------------------------------------------------------------------------------------
@st.composite
def theta_cases(draw):
    return {'n': draw(st.sampled_from([1, 2, 3, 50, 400, 1500])), 'ds': draw(st.sampled_from([.1, .5, 1.])), 'k': draw(st.sampled_from([0., .1, .5, 1., 3.])), 'h': draw(st.sampled_from([.05, .3, .7, 1.])),
            'eps': draw(st.sampled_from([0., 1., 1.])), 'seed': draw(st.integers(0, 2**30))}


def check_theta(case, env):
    F = get('ferguson_theta', 'hyvr.geo.channel_utils')
    vp.seed_all(case['seed'])
    n, k, h = case['n'], case['k'], case['h']
    th = np.asarray(call(F, np.arange(n) * case['ds'], case['eps'], k, h), float)
    need(th.shape == (n,), '{} directions for {} points', th.shape, n)
    need(th[0] == 0, 'first direction is {}', th[0])
    if case['eps'] == 0:
        need(np.all(th == 0), 'directions without noise are not constant')
        return None
    b1, b2 = 2 * np.exp(-k * h) * np.cos(k * np.arcsin(h)), -np.exp(-2 * k * h)
    prev = np.concatenate([[0.], th[:-1]])
    pprev = np.concatenate([[0., 0.], th[:-2]])[:n]
    res = (th - b1 * prev - b2 * pprev)[1:]
    need(np.all(np.abs(res[:3]) > 1e-13), 'the first steps of the directions have no noise')
    if n >= 50:
        p = stats.kstest(res, 'norm').pvalue
        need(p > 1e-8, 'noise of the directions is not standard normal: mean {:.3f}, standard deviation {:.3f}', res.mean(), res.std())
        c = np.corrcoef(res[1:], res[:-1])[0, 1]
        need(abs(c) < 7 / np.sqrt(n), 'noise of successive directions is correlated ({:.3f})', c)
        return 'AR(2) series'


# ------------------------------------------------------------------------------------------
@st.composite
def curve_cases(draw):
    g = draw(gen.grids(nx=(1, 9), ny=(1, 9), nz=(1, 2)))
    L = gen.rnd(np.hypot(g['lx'], g['ly']))
    if L > 40:
        g['dx'], g['lx'] = 1., gen.rnd(g['lx'] / g['dx'])
        L = gen.rnd(np.hypot(g['lx'], g['ly']))
    return {'g': g, 'h': draw(st.sampled_from([.05, .3, .7, 1.])), 'k': draw(st.sampled_from([0.05, .1, .5, 1., 3.])), 'ds': draw(st.sampled_from([.05, .1, .2, .3, .5, 1.])),
            'eps': draw(st.sampled_from([0., .01, .1, .5, 1.])), 'angle': draw(st.one_of(st.sampled_from([0., 90., 180., -45.]), st.integers(-180, 180).map(float))),
            'L': max(L, 1.), 'start': [draw(gen.dec(-8, 8, .5)), draw(gen.dec(-8, 8, .5))], 'width': gen.rnd(draw(st.sampled_from([.1, .5, 1.5])) * max(g['ly'], .5)), 'seed': draw(st.integers(0, 2**30))}


def check_curve(case, env):
    F = get('ferguson_curve', 'hyvr.geo.channel_utils')
    Grid = get('Grid', 'hyvr.geo.grid')
    g = case['g']
    grid = Grid(*[g.get(c + '0', 0.) for c in 'xyz'], *[g['d' + c] for c in 'xyz'], *[g['l' + c] for c in 'xyz'], 0)
    al = np.deg2rad(case['angle'])
    xs, ys = case['start']

    def run(width):
        vp.seed_all(case['seed'])
        return np.asarray(call(F, grid, case['h'], case['k'], case['ds'], case['eps'], al, case['L'], xs, ys, width))
    full = run(1e7)
    need(full.ndim == 2 and full.shape[1] == 4 and len(full) >= 2, 'curve has shape {}', full.shape)
    P, V = full[:, :2], full[:, 2:]
    tol = 1e-7 * (1 + np.abs(P).max())
    need(np.all(np.abs(P[0] - [xs, ys]) < tol), 'curve starts at {} instead of {}', P[0], (xs, ys))
    need(np.all(np.abs(np.hypot(*V.T) - case['ds']) < 1e-6), 'length of velocity vectors is {} instead of {}', np.hypot(*V.T)[:3], case['ds'])
    D = np.diff(P, axis=0)
    need(np.all(np.abs(np.hypot(*D.T) - case['ds']) < tol + 1e-6), 'points are {} apart instead of {}', np.hypot(*D.T)[:3], case['ds'])
    need(np.all(np.abs(D - V[:-1]) < tol + 1e-6), 'velocity vectors do not point from point to point')
    # mean direction
    phi = np.unwrap(np.arctan2(V[:, 1], V[:, 0]))
    d = (phi.mean() - al) / 2 / np.pi
    need(abs(d - round(d)) < 1e-6, 'mean direction is {:.4f} degrees instead of {}', np.rad2deg(phi.mean()), case['angle'])
    if case['eps'] == 0:
        need(np.all(np.abs(phi - phi[0]) < 1e-6), 'curve without noise is not straight')
        # it crosses a domain of this length in mean flow direction
        need(len(full) * case['ds'] >= case['L'] * (1 - 1e-9), 'the curve is {} long for a domain of length {}', len(full) * case['ds'], case['L'])
    # the part that is returned for narrow channels
    part = run(case['width'])
    x0, x1 = g.get('x0', 0.), g.get('x0', 0.) + g['lx']
    inside = full[(P[:, 0] >= x0) & (P[:, 0] <= x1)]
    i = 0
    idx = []
    for row in part:
        while i < len(full) and np.any(np.abs(full[i] - row) > 1e-9 * (1 + np.abs(row))):
            i += 1
        need(i < len(full), 'points of a narrow channel are not those of a wide one in the same order')
        idx.append(i)
    have = set(idx)
    for q in np.flatnonzero((P[:, 0] >= x0) & (P[:, 0] <= x1)):
        need(q in have, 'point {} of the curve inside the domain is missing', P[q])
    lab = ['noise' if case['eps'] else None, 'inside' if len(inside) else 'outside']
    # directions follow the meander model
    T = get('ferguson_theta', 'hyvr.geo.channel_utils')
    if case['eps']:
        vp.seed_all(case['seed'])
        s = np.arange(0, 2 * case['L'], case['ds'] + 1e-10)
        th = np.asarray(call(T, s, case['eps'], case['k'], case['h']))
        rel = phi - phi[0]
        need(on_polyline(np.arange(len(th)) * 1., th, rel, 1e-6 * (1 + np.abs(th).max())), 'directions of the curve do not follow those of the meander model')
        lab.append('meander model')
    return [l for l in lab if l] if case['eps'] else None


def on_polyline(s, th, vals, tol):
    """is vals a sequence of values of the piecewise linear function th at nondecreasing positions?"""
    pos = 0.
    n = len(th)
    for v in vals:
        # first position >= pos with th == v
        j = int(pos)
        found = None
        while j < n:
            a = th[j]
            b = th[min(j + 1, n - 1)]
            lo, hi = min(a, b) - tol, max(a, b) + tol
            if lo <= v <= hi:
                f = 0. if abs(b - a) < tol else min(max((v - a) / (b - a), 0), 1)
                if j + f >= pos - 1e-3:
                    found = max(pos, j + f)
                    break
            j += 1
        if found is None:
            return False
        pos = found
    return True


# ------------------------------------------------------------------------------------------
@st.composite
def interp_cases(draw):
    n = draw(st.integers(2, 14))
    f = gen.dec(-3, 3, .25)
    step = [[draw(gen.dec(0, 3, .25)), draw(f)] for _ in range(n - 1)]
    return {'start': [draw(st.one_of(st.just(0.), gen.dec(-5, 12, .5))), draw(f)], 'step': step, 'spacing': draw(st.sampled_from([.1, .2, .35, .5, 1.]))}


def check_interp(case, env):
    F = get('curve_interp', 'hyvr.optimized')
    C = np.cumsum([case['start']] + case['step'], axis=0)
    L = np.hypot(*np.diff(C, axis=0).T)
    if L.sum() == 0:
        return None
    xn, yn = (np.asarray(v) for v in call(F, C[:, 0].copy(), C[:, 1].copy(), case['spacing']))
    need(xn.shape == yn.shape and xn.ndim == 1 and len(xn) >= 1, 'interpolated points have shapes {} {}', xn.shape, yn.shape)
    need(np.allclose([xn[0], yn[0]], C[0], atol=1e-9), 'first interpolated point is {} instead of {}', (xn[0], yn[0]), C[0])
    # arc length of the returned points, in order
    pos = 0.
    arcs = []
    cum = np.concatenate([[0], np.cumsum(L)])
    sp = case['spacing']
    maxstep = .1 * sp * L.max()
    for p in zip(xn, yn):
        found = None
        for j in range(len(L)):
            if cum[j + 1] < pos - 1e-9 or L[j] == 0:
                continue
            d = (C[j + 1] - C[j]) / L[j]
            t = np.dot(np.array(p) - C[j], d)
            q = min(max(t, 0), L[j])
            if np.hypot(*(C[j] + q * d - p)) < 1e-7 and cum[j] + q >= pos - 1e-7:
                # curves may cross themselves: take the first admissible position
                if arcs and cum[j] + q - pos < sp * (1 - 1e-6):
                    continue
                found = cum[j] + q
                break
        need(found is not None, 'point {} is not on the curve after the preceding ones (at least one spacing away)', p)
        arcs.append(found)
        pos = found
    gaps = np.diff(arcs)
    lim = sp + 2.5 * maxstep + 1e-9
    simple = np.all(np.array(case['step'])[:, 0] > 0)           # no self-crossing
    if simple:
        need(np.all(gaps <= lim), 'interpolated points are up to {:.4f} apart along the curve for a spacing of {}', gaps.max() if len(gaps) else 0, sp)
        need(cum[-1] - arcs[-1] <= sp + 2.5 * maxstep, 'the last {:.4f} of the curve are not covered for a spacing of {}', cum[-1] - arcs[-1], sp)
    return ['{} points'.format('1-9' if len(xn) < 10 else '10+'), 'first coordinate not zero' if case['start'][0] else 'starts at zero']


SUBS = [Sub('step', ar_cases(), check_ar, quick=3000),
        Sub('series', theta_cases(), check_theta, quick=800),
        Sub('curve', curve_cases(), check_curve, quick=800),
        Sub('resampling', interp_cases(), check_interp, quick=3000)]
