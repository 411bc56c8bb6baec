"""P12: channels, against parabolic channels with straight (or the generated) centrelines."""
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen

PROPERTY = 'P12'
RULE = 'at least one cell inside and one outside the channels'
ASSUMPTIONS = ['without disturbance (eps_factor 0) the lateral position is random: all cells of a body must agree with one position; '
               'the centreline consists of points that are ds apart, cells closer to the bank than that are not judged',
               'domain of at least 5 ds per direction, ds in [0.05, 1]',
               'disturbed channels are judged with the centreline points that the code has generated']


@st.composite
def cases(draw, kind):
    ds = draw(st.sampled_from([.05, .1, .2, .3, .5]))
    exact = draw(st.integers(0, 3)) == 0
    m = draw(gen.grids(nx=(6, 12), ny=(6, 12), nz=(5, 14), sizes=(.5, .7, 1., 2.), zsizes=(.1, .25, .5), dyadic=exact))
    if exact:
        m['lx'], m['ly'] = max(m['lx'], 3.), max(m['ly'], 3.)
    lx, ly, lz, dz = m['lx'], m['ly'], m['lz'], m['dz']
    p = {'geometry': 'channel', 'structure': draw(st.sampled_from(['massive', 'dip'])), 'contact_model': ['flat'], 'facies': ['f', 'g'],
         'h': .4, 'k': draw(st.sampled_from([.1, .3, 1.])), 'ds': ds, 'eps_factor': 0.,
         'flow_angle': float(draw(st.one_of(st.sampled_from([0, 90, 180, -90]), st.integers(-180, 180)))),
         'channel_no': 1}
    if draw(st.integers(0, 4)) == 0:
        del p['flow_angle']
    p['width'] = gen.rnd(draw(gen.dec(.3, 1.5, .1)) * min(lx, ly))
    depth = draw(gen.dec(.1, .6, .02)) * lz
    p['depth'] = gen.rnd(depth)
    zt = None
    if draw(st.integers(0, 2)) == 0:
        zt = [draw(gen.dec(.4, 1.6, .1)), draw(gen.dec(.4, 1.6, .1))]
        p['size_ztrend'] = zt
    fmax = max(zt) if zt else 1.
    # wider ones begin too far before the domain to reach its other end
    p['width'] = gen.rnd(min(p['width'], 1.5 * min(lx, ly) / fmax))
    if kind == 'levels':
        p['agg'] = gen.rnd(draw(st.sampled_from([1.05, 1.3, 2.])) * depth * fmax)
        p['channel_no'] = draw(st.integers(1, 3))
        if draw(st.booleans()):
            p['mig'] = gen.rnd(draw(st.sampled_from([.1, .4])) * ly)
    else:
        p['agg'] = gen.rnd(draw(st.sampled_from([.9, 1.7, 3.1])) * dz + .0013)
        if kind == 'meander':
            p['eps_factor'] = draw(st.sampled_from([0., .05, .3]))
            p['channel_no'] = draw(st.integers(1, 2))
            p['ds'] = draw(st.sampled_from([.3, .5, 1.]))
    if exact:
        # channel tops in the centres of cells
        p['agg'] = (2 * int(np.ceil(p['agg'] / dz - .5)) + 1) * dz / 2
    if draw(st.booleans()):
        p['buffer'] = draw(gen.dec(0, 1.5, .1))
    d = float(draw(st.one_of(st.integers(0, 50), st.integers(-40, 50))))
    p['dip'] = [d, d + draw(st.sampled_from([0., 20.]))]
    if p['structure'] == 'dip':
        p['dipset_dist'] = draw(st.sampled_from([.1, .6, 4.]))
    if draw(st.integers(0, 2)) == 0:
        p['lag_height'] = gen.rnd(draw(gen.dec(.1, 1., .1)) * p['depth'])
        p['lag_facies'] = 'lag'
    c = {'m': m, 'p': p, 'exact': exact, 'seed': draw(st.integers(0, 2**20))}
    if not exact and draw(st.integers(0, 2)) == 0:
        # other strata below and above the one with the channels
        c['between'] = draw(st.sampled_from([[.31, 1.], [0., .79], [.23, .83]]))
    return c


FACS = ['bg', 'f', 'g', 'lag']


def bounds(case):
    m = case['m']
    a, b = case.get('between') or [0., 1.]
    return gen.rnd(m['z0'] + a * m['lz']), gen.rnd(m['z0'] + b * m['lz'])


def levels(m, p, bnd=None):
    """(z, width, depth) of the channel levels; None if a level is too close to the limit"""
    zt = p.get('size_ztrend')

    def f(z):
        return 1. if zt is None else zt[0] + (z - m['z0']) / m['lz'] * (zt[1] - zt[0])
    bot, top = bnd or (m['z0'], m['z0'] + m['lz'])
    lim = bot + p['depth'] * f((top + bot) / 2) * p.get('buffer', 0.)
    res = []
    k = 1
    while True:
        z = top - k * p['agg']
        if abs(z - lim) < 1e-7:
            return None
        if z < lim:
            return res
        res.append((z, p['width'] * f(z), p['depth'] * f(z)))
        k += 1


def feasible(lo, hi, excl, tol):
    """is there a position in [lo, hi] that is in none of the open intervals excl?"""
    if lo > hi + tol:
        return False
    cand = [lo, hi, (lo + hi) / 2] + [v for a, b in excl for v in (a, b)]
    cand = [min(max(c, lo), hi) for c in cand if lo - tol <= c <= hi + tol]
    ex = np.array([(a, b) for a, b in excl if b - a > 2 * tol])
    if len(ex) == 0:
        return True
    for c in cand:
        if not np.any((ex[:, 0] + tol < c) & (c < ex[:, 1] - tol)):
            return True
    return False


def body_values(r, m, p, lev, cellsets):
    """facies and angles of the cells of every body; cellsets: list of (mask, level)"""
    lagh = p.get('lag_height', 0.)
    x, y, z = gen.cells({'model': m})
    Z = np.broadcast_to(z[None, None, :], r['ha'].shape)
    d0, d1 = p['dip']
    haslag = False
    for mask, k in cellsets:
        zk, w, dep = lev[k]
        lagz = zk - dep + lagh
        sure = mask & (np.abs(Z - lagz) > 1e-9)
        lag = sure & (Z < lagz) & (lagh > 0)
        haslag |= bool(lag.any())
        need(np.all(r['facies'][lag] == 3) and np.all(r['azim'][lag] == 0) and np.all(r['dip'][lag] == 0), 'wrong facies or angles in the lag')
        b = sure & ~lag
        if not b.any():
            continue
        need(np.all(np.isin(r['facies'][b], [1, 2])), 'facies {} in a channel above the lag', np.unique(r['facies'][b]))
        dip = np.unique(r['dip'][b])
        need(len(dip) == 1 and d0 - 1e-9 <= dip[0] <= d1 + 1e-9, 'dip {} of a channel, range {}', dip, p['dip'])
        if p['structure'] == 'massive':
            need(len(np.unique(r['facies'][b])) == 1, 'several facies in a massive channel')
        elif p['eps_factor'] == 0:
            fa = p.get('flow_angle', 0.)
            need(np.all(np.abs((r['azim'][b] - fa + 180) % 360 - 180) < 1e-5), 'azimuth {} for flow angle {}', r['azim'][b][0], fa)
    return haslag


def setup(case, env, sim=True):
    m, p = case['m'], case['p']
    cfg = gen.single(m, p, FACS, seed=case['seed'], bg=('bg', 17., -23.))
    cfg['model']['hydraulics'] = False
    if 'between' in case:
        bot, top = bounds(case)
        st_ = cfg['strata']
        cfg['elements']['o'] = {'geometry': 'sheet', 'structure': 'massive', 'contact_model': ['flat'], 'facies': ['bg'], 'lens_thickness': -1}
        st_['ae'] = ['o', 'e'] if case['seed'] % 2 else ['e', 'o']
        n = 1 + (bot > m['z0']) + (case['between'][1] < 1)
        st_['ae_in_strata'] = [['o']] * (bot > m['z0']) + [['e']] + [['o']] * (case['between'][1] < 1)
        st_['strata'] = ['s%d' % i for i in range(n)]
        st_['strata_contact_models'] = [['flat', v] for v in [bot] * (bot > m['z0']) + [top] * (case['between'][1] < 1)]
        for k in ('ae_prob', 'ae_z_mean', 'avul_prob', 'avul', 'bg_facies', 'bg_azim', 'bg_dip'):
            st_[k] = st_[k] * n
    return cfg


def only_channels(r, case, cfg):
    """numbers of the bodies that are not channels are hidden"""
    r = dict(r)
    if 'between' in case:
        other = r['hat'] == cfg['strata']['ae'].index('o')
        r['ha'] = np.where(other, -1, r['ha'])
        r['other'] = other
        bot, top = bounds(case)
        z = gen.cells(cfg)[2]
        need(not np.any(~other[:, :, z > top]), 'channel element above its stratum')
        need(not np.any(other[:, :, (z < top) & (z > bot)]), 'cells of another stratum between its contacts')
    return r


def straight(m, p):
    x, y, z = gen.cells({'model': m})
    th = np.deg2rad(p.get('flow_angle', 0.))
    xc, yc = m['x0'] + m['lx'] / 2, m['y0'] + m['ly'] / 2
    X, Y = np.meshgrid(x, y, indexing='ij')
    s = -(X - xc) * np.sin(th) + (Y - yc) * np.cos(th)
    W = abs(m['lx'] * np.sin(th)) + abs(m['ly'] * np.cos(th))
    return s, W, z


def radius(dz, w, dep):
    return w / 2 * np.sqrt(np.maximum(0., 1 + dz / dep))


def check_bg(r):
    b = r['ha'] < 0
    if 'other' in r:
        b &= ~r['other']
    need(np.all(r['facies'][b] == 0) and np.all(r['azim'][b] == 17.) and np.all(r['dip'][b] == -23.), 'background cells changed')


def check_levels(case, env):
    """separate levels: every body belongs to one level and has one lateral position"""
    m, p = case['m'], case['p']
    lev = levels(m, p, bounds(case))
    if lev is None:
        return
    cfg = setup(case, env)
    r = only_channels(gen.simulate(cfg, env), case, cfg)
    s, W, z = straight(m, p)
    ha = r['ha']
    check_bg(r)
    tol = 1e-6
    # which level can the rows belong to?
    cellsets = []
    used = np.zeros(ha.shape, bool)
    mig = p.get('mig', 0.)
    lim = W / 2 + mig * max(0, len(lev) - 1)
    for k, (zk, w, dep) in enumerate(lev):
        rows = [j for j in range(len(z)) if zk - dep - 1e-9 <= z[j] <= zk + 1e-9]
        sure = [j for j in rows if zk - dep + 1e-6 < z[j] < zk - 1e-6 or case.get('exact') and z[j] == zk]
        if not rows:
            continue
        sel = np.zeros(ha.shape, bool)
        sel[:, :, rows] = True
        used |= sel
        excl = []
        for j in sure:
            R = radius(z[j] - zk, w, dep)
            if R > p['ds'] / 2:
                R = np.sqrt(R**2 - p['ds']**2 / 4)
                out = s[ha[:, :, j] < 0]
                excl += [(v - R, v + R) for v in np.unique(out)]
        ids = np.unique(ha[sel & (ha >= 0)])
        need(len(ids) <= p['channel_no'], '{} channels on one level instead of {}', len(ids), p['channel_no'])
        for h in ids:
            b = ha == h
            need(not np.any(b & ~sel), 'a channel body extends over several levels or beyond its depth')
            cellsets.append((b, k))
            lo, hi = -lim, lim
            for j in sure:
                R = radius(z[j] - zk, w, dep)
                c = s[b[:, :, j]]
                if len(c):
                    lo, hi = max(lo, c.max() - R), min(hi, c.min() + R)
            need(lo <= hi + tol, 'the cells of a channel do not fit to a parabola of width {} and depth {}', w, dep)
            need(feasible(lo, hi, excl, tol), 'a channel is interrupted or too small for width {} and depth {}', w, dep)
        if len(ids) < p['channel_no']:
            need(feasible(-lim, lim, excl, tol) or len(ids) > 0, 'no channel at elevation {}', zk)
    need(not np.any((ha >= 0) & ~used), 'channel cells outside the expected levels')
    lag = body_values(r, m, p, lev, cellsets)
    if (ha >= 0).any() and (ha < 0).any():
        return ['channels:{}'.format(p['channel_no']), p['structure'], 'lag' if lag else 'no lag'] + (['size trend'] if 'size_ztrend' in p else [])


def check_stack(case, env):
    """overlapping levels with one channel that does not migrate: union of the parabolas at one lateral position"""
    m, p = case['m'], case['p']
    lev = levels(m, p, bounds(case))
    if lev is None:
        return
    cfg = setup(case, env)
    r = only_channels(gen.simulate(cfg, env), case, cfg)
    s, W, z = straight(m, p)
    ha = r['ha']
    check_bg(r)
    lo, hi = -W / 2, W / 2
    excl = []
    tol = 1e-6
    for j in range(len(z)):
        if any(abs(z[j] - zk) < 1e-7 for zk, w, d in lev) and not case.get('exact'):
            continue
        Rs = [radius(z[j] - zk, w, d) for zk, w, d in lev if z[j] <= zk and z[j] >= zk - d]
        c = s[ha[:, :, j] >= 0]
        if not Rs:
            need(len(c) == 0 or any(abs(z[j] - zk + d) < 1e-7 for zk, w, d in lev), 'channel cells at elevation {} outside all levels', z[j])
            continue
        R = max(Rs)
        if len(c):
            lo, hi = max(lo, c.max() - R), min(hi, c.min() + R)
        if R > p['ds'] / 2:
            R = np.sqrt(R**2 - p['ds']**2 / 4)
            excl += [(v - R, v + R) for v in np.unique(s[ha[:, :, j] < 0])]
    need(lo <= hi + tol, 'channel cells do not fit to parabolas at levels {}', [round(l[0], 4) for l in lev[:5]])
    need(feasible(lo, hi, excl, tol), 'channels are interrupted, missing or too small')
    # topmost level first: the number of bodies in a column can not exceed the number of levels
    need(len(np.unique(ha[ha >= 0])) <= len(lev), 'more channels than levels')
    for h in np.unique(ha[ha >= 0]):
        zz = z[np.any(ha == h, axis=(0, 1))]
        need(any(zz.max() <= zk + 1e-7 and zz.min() >= zk - d - 1e-7 for zk, w, d in lev), 'a channel is higher than its depth')
    if (ha >= 0).any() and (ha < 0).any():
        return ['stack', 'levels:{}'.format(min(6, len(lev)))] + (['size trend'] if 'size_ztrend' in p else [])


def check_meander(case, env):
    m, p = case['m'], case['p']
    lev = levels(m, p, bounds(case))
    if lev is None:
        return
    cfg = setup(case, env)
    try:
        model = gen.build_model(cfg, env)
        obj = [(o.x_center, o.y_center, o.vx, o.vy, o.num_ha) for s in model.strata for a in s.aes if a.type_name == 'e' for o in a.object_list]
    except (ImportError, AttributeError):
        raise Skip
    r = only_channels(model.data, case, cfg)
    n = p['channel_no']
    need(len(obj) == n * len(lev), '{} channels on {} levels instead of {} per level', len(obj), len(lev), n)
    x, y, z = gen.cells(cfg)
    X, Y = np.meshgrid(x, y, indexing='ij')
    Z = z[None, None, :]
    done = np.zeros(r['ha'].shape, bool)
    exp = np.full(r['ha'].shape, -1)
    unsure = np.zeros(r['ha'].shape, bool)
    cellsets = []
    az = np.zeros(r['ha'].shape)
    for i, (cx, cy, vx, vy, num) in enumerate(obj):
        zk, w, dep = lev[i // n]
        if len(cx) == 0 and p['eps_factor'] > 0:
            # a strongly disturbed centreline may leave before it reaches the domain
            continue
        need(len(cx) > 0, 'channel without centreline')
        D2 = (X[:, :, None] - np.asarray(cx))**2 + (Y[:, :, None] - np.asarray(cy))**2
        D = np.sqrt(D2)
        f = 4 * dep / w**2 * D2.min(axis=2)[:, :, None] - dep
        dz = Z - zk
        unsure |= (np.abs(dz - f) < 1e-8)
        unsure |= (np.abs(dz) < 1e-8) & ((dz != 0) | (not case.get('exact')))
        ins = (dz <= 0) & (dz >= f) & ~done
        exp[ins] = num
        done |= ins
        wx, wy = (np.asarray(vx) / (D + 1e-20)).sum(axis=2), (np.asarray(vy) / (D + 1e-20)).sum(axis=2)
        a = np.rad2deg(np.arctan2(wy, wx))
        az[ins] = np.broadcast_to(a[:, :, None], az.shape)[ins]
        cellsets.append((ins, i // n))
    bad = (exp != r['ha']) & ~unsure
    need(not bad.any(), 'cell {} is in body {} instead of {}', np.argwhere(bad)[:1].tolist(), r['ha'][bad][:1], exp[bad][:1])
    body_values(r, m, p, lev, [(c & ~unsure, k) for c, k in cellsets])
    if p['structure'] == 'dip':
        lagged = (r['facies'] == 3)
        b = (exp >= 0) & ~unsure & ~lagged
        need(np.all(np.abs((r['azim'][b] - az[b] + 180) % 360 - 180) < 1e-4), 'azimuth is not the local flow direction')
    if (exp >= 0).any() and (exp < 0).any():
        return 'meander' if p['eps_factor'] else 'straight'


# ------------------------------------------------------------------------------------------
@st.composite
def mig_cases(draw):
    m = {'x0': draw(gen.dec(-9, 9, .5)), 'y0': draw(gen.dec(-9, 9, .5)), 'z0': draw(gen.dec(-9, 9, .5)), 'dx': 1., 'dy': 1., 'dz': 1.,
         'lx': float(draw(st.integers(3, 8))), 'ly': float(draw(st.integers(3, 8))), 'lz': 10., 'periodic': draw(st.booleans())}
    p = {'geometry': 'channel', 'structure': draw(st.sampled_from(['massive', 'dip'])), 'dipset_dist': 1., 'contact_model': ['flat'], 'facies': ['f'],
         'h': .4, 'k': .1, 'ds': .3, 'eps_factor': 0., 'channel_no': draw(st.integers(1, 3)), 'agg': .0801, 'width': 1., 'depth': .5, 'buffer': 0.,
         'dip': [0., 10.], 'flow_angle': float(draw(st.integers(-180, 180))), 'mig': draw(st.sampled_from([0., .01, .1, .5]))}
    c = {'m': m, 'p': p, 'seed': draw(st.integers(0, 2**20))}
    if draw(st.integers(0, 2)) == 0:
        # the top (and the bottom) of the stratum are random surfaces
        c['between'] = draw(st.sampled_from([[0., .8], [.2, .8]]))
        c['rough'] = draw(st.sampled_from([.005, .02, .05]))
    return c


def check_mig(case, env):
    """lateral positions of the channels on successive levels"""
    m, p = case['m'], case['p']
    cfg = setup(case, env)
    bnd = None
    if 'rough' in case:
        cfg['strata']['strata_contact_models'] = [['random', v, case['rough'], 3., 3.] for v in bounds(case) if v > m['z0']]
    try:
        model = gen.build_model(cfg, env)
        aes = [a for s in model.strata for a in s.aes if a.type_name == 'e']
        obj = [(np.asarray(o.x_center), np.asarray(o.y_center), o.ztop) for a in aes for o in a.object_list]
        if 'rough' in case:
            top = np.asarray(aes[0].top_surface.surface)
            bot = np.asarray(aes[0].bottom_surface.surface)
            if top.max() >= m['z0'] + m['lz'] - 1e-6 or case['between'][0] > 0 and bot.min() <= m['z0'] + 1e-6 or np.any(top - bot < 1e-6):    # cut off
                return
            bnd = (bot.mean(), top.mean())
    except (ImportError, AttributeError):
        raise Skip
    lev = levels(m, p, bnd)
    if lev is None:
        return
    n = p['channel_no']
    need(len(obj) == n * len(lev), '{} channels on {} levels instead of {} per level', len(obj), len(lev), n)
    th = np.deg2rad(p['flow_angle'])
    W = abs(m['lx'] * np.sin(th)) + abs(m['ly'] * np.cos(th))
    pos = np.full((len(lev), n), np.nan)
    for i, (x, y, z) in enumerate(obj):
        need(abs(z - lev[i // n][0]) < 1e-7, 'channel top at {} instead of {}', z, lev[i // n][0])
        if len(x):
            v = -(x - m['x0'] - m['lx'] / 2) * np.sin(th) + (y - m['y0'] - m['ly'] / 2) * np.cos(th)
            need(np.ptp(v) < 1e-5, 'a channel without disturbance is not straight')
            pos[i // n, i % n] = v[0]
    need(np.all(np.isnan(pos[0]) | (np.abs(pos[0]) <= W / 2 + 1e-9)), 'lateral start {} outside of the domain (width {})', pos[0], W)
    d = np.diff(pos, axis=0)
    mig = p['mig']
    ok = ~np.isnan(d)
    need(np.all(np.abs(d[ok]) <= mig + 1e-6), 'a channel moves by {} with migration {}', np.abs(d[ok]).max(), mig)
    if not mig:
        return 'no migration'
    need(np.all(np.abs(d[ok]) > 1e-12 * mig), 'a channel has not moved after level {}', np.argwhere(ok & (np.abs(d) <= 1e-12 * mig))[:1].tolist())
    for i in range(n):
        e = d[ok[:, i], i] / mig
        if len(e) < 40:
            continue
        need(abs(e.mean()) < 6 / np.sqrt(3 * len(e)), 'channel {} moves by {:.2f} migrations per level on average', i, e.mean())
        need(abs((e**2).mean() - 1 / 3) < 6 * .3 / np.sqrt(len(e)), 'mean square step of channel {} is {:.3f} instead of 0.333', i, (e**2).mean())
        need(abs((e[1:] * e[:-1]).mean()) < 6 / 3 / np.sqrt(len(e)), 'successive steps depend on each other')
    if n > 1 and ok.all():
        need(abs((d[:, 0] * d[:, 1]).mean()) / mig**2 < 6 / 3 / np.sqrt(len(d)), 'channels move together')
    return ['migration'] + (['rough top'] if 'rough' in case else [])


# ------------------------------------------------------------------------------------------
@st.composite
def number_cases(draw):
    m = {'x0': draw(gen.dec(-9, 9, .5)), 'y0': draw(gen.dec(-9, 9, .5)), 'z0': 0., 'dx': 2., 'dy': .5, 'dz': .25, 'lx': 6., 'ly': 30., 'lz': 1.,
         'periodic': False}
    p = {'geometry': 'channel', 'structure': 'massive', 'contact_model': ['flat'], 'facies': ['f'], 'h': .4, 'k': .1, 'ds': .3, 'eps_factor': 0.,
         'channel_no': draw(st.integers(1, 4)), 'agg': .3, 'width': 2., 'depth': .45, 'buffer': 1., 'dip': [0., 0.],
         'flow_angle': float(draw(st.sampled_from([0, 180, 5])))}
    return {'m': m, 'p': p, 'seed': draw(st.integers(0, 2**20))}


def check_number(case, env):
    """number of channels per level: all of them are visible in at least one of 25 runs, never more"""
    best = 0
    pos = []
    s, W, z = straight(case['m'], case['p'])
    for k in range(25):
        r = gen.simulate(setup(dict(case, seed=case['seed'] * 25 + k), env), env)
        ids = np.unique(r['ha'][r['ha'] >= 0])
        best = max(best, len(ids))
        for i in ids[:1]:
            pos.append(s[np.any(r['ha'] == i, axis=2)].mean())
    need(best <= case['p']['channel_no'] * len(levels(case['m'], case['p'])), 'more channels than channel_no')
    need(best == case['p']['channel_no'] * len(levels(case['m'], case['p'])), '{} channels in 25 runs instead of {} per level', best, case['p']['channel_no'])
    # starting points are uniform over the width of the domain
    pos = np.array(pos)
    need(len(pos) >= 23, 'runs without a channel')
    need(abs(pos.mean()) < 6 * W / np.sqrt(12 * 25) and pos.std() > .1 * W, 'lateral positions {} of the first channel are not spread over the domain', np.round(pos, 1).tolist())
    return 'number'


SUBS = [Sub('levels', cases('levels'), check_levels, quick=900),
        Sub('stack', cases('stack'), check_stack, quick=700),
        Sub('meander', cases('meander'), check_meander, quick=300),
        Sub('migration', mig_cases(), check_mig, quick=90),
        Sub('number', number_cases(), check_number, quick=18)]
