"""P13: internal layers of bodies."""
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen

PROPERTY = 'P13'
RULE = 'the body contains cells of at least two different layers'
ASSUMPTIONS = ['the random shift of the layers is unknown: all cells of a body must agree with one shift',
               'cells on a layer boundary (1e-9 relative) are not judged', 'the centreline of curved channels is taken from the generated object']
FACS = ['bg', 'a', 'b', 'c', 'd', 'lag']


@st.composite
def cases(draw, geometry):
    sizes = (.25, .5, 1.)
    m = draw(gen.grids(nx=(3, 9), ny=(3, 8), nz=(3, 12), sizes=sizes, zsizes=(.1, .2, .5),
                       periodic=None if geometry != 'channel' else False))
    if geometry == 'channel':
        m = dict(m, lx=gen.rnd(max(m['lx'], 3 * m['dx'])), ly=gen.rnd(max(m['ly'], 3 * m['dy'])))
    lx, ly, lz, dz = m['lx'], m['ly'], m['lz'], m['dz']
    s = 'dip' if geometry != 'trough' else draw(st.sampled_from(['dip', 'bulb_sets']))
    fl = draw(st.permutations(FACS[1:5]))[:draw(st.integers(2, 4))]
    p = {'geometry': geometry, 'structure': s, 'contact_model': ['flat'], 'facies': fl}
    k = draw(st.integers(0, 3))
    if k >= 2:    # cycle: the layer number is visible modulo the number of facies
        p['altfacies'] = [[fl[(i + 1) % len(fl)]] for i in range(len(fl))]
    elif k == 1:
        p['altfacies'] = [draw(st.lists(st.sampled_from(fl), min_size=1, max_size=2, unique=True)) for _ in fl]
    d = float(draw(st.integers(0, 75)))
    if s == 'dip' and draw(st.integers(0, 4)) == 0:
        d = -d
    p['dip'] = [d, d + draw(st.sampled_from([0., 10.]))]
    az = float(draw(st.integers(-180, 180)))
    p['azimuth'] = [az, az + draw(st.sampled_from([0., 30.]))]
    dist = draw(st.sampled_from([.07, .15, .31, .52, .83, 1.4, 3., 9.]))
    p['dipset_dist'] = dist
    if s == 'bulb_sets':
        p['bulbset_dist'] = dist
    if geometry == 'sheet':
        p['lens_thickness'] = draw(st.sampled_from([-1, gen.rnd(lz * .43)]))
    elif geometry == 'trough':
        c = [draw(gen.dec(-.2, 1.2, .01)), draw(gen.dec(-.2, 1.2, .01)), draw(gen.dec(.3, .98, .01))]
        big = min(lx, ly)
        f = (.3, 1.) if m['periodic'] else (.3, 2.5)
        p.update({'te_xyz': [[gen.rnd(m['x0'] + c[0] * lx), gen.rnd(m['y0'] + c[1] * ly), gen.rnd(m['z0'] + c[2] * lz)]],
                  'agg': 1e3, 'trough_density': 0., 'length': gen.rnd(draw(gen.dec(f[0], f[1], .1)) * big),
                  'width': gen.rnd(draw(gen.dec(f[0], f[1], .1)) * big), 'depth': gen.rnd(draw(gen.dec(.3, 1.5, .1)) * lz),
                  'paleoflow': [float(draw(st.integers(-180, 180)))] * 2})
        if draw(st.integers(0, 3)) == 0:
            p['size_ztrend'] = [draw(gen.dec(.5, 1., .1)), draw(gen.dec(.5, 1., .1))]
    else:
        p.update({'h': .4, 'k': .3, 'ds': draw(st.sampled_from([.2, .3])), 'eps_factor': 0., 'flow_angle': float(draw(st.integers(-180, 180))),
                  'channel_no': 1, 'agg': gen.rnd(draw(st.sampled_from([.51, .12])) * lz + .0013), 'buffer': .01,
                  'width': gen.rnd(draw(gen.dec(.3, 2, .1)) * min(lx, ly)), 'depth': gen.rnd(draw(gen.dec(.2, .9, .1)) * lz)})
    if geometry != 'sheet' and draw(st.integers(0, 4)) == 0:
        p['lag_height'] = gen.rnd(draw(gen.dec(.1, .6, .1)) * p['depth'])
        p['lag_facies'] = 'lag'
    return {'m': m, 'p': p, 'seed': draw(st.integers(0, 2**20))}


def layers_ok(v, fac, dist, allowed, fl):
    """is there a shift such that every layer has one facies and consecutive layers follow the sequence?
    Returns (ok, message)."""
    v = np.asarray(v, float)
    v = v - v.min()
    # merge equal values
    order = np.argsort(v, kind='stable')
    v, fac = v[order], fac[order]
    frac = np.mod(v, dist)
    crit = np.unique(np.round(frac, 12))
    crit = np.r_[crit, crit[0] + dist]
    mids = (crit[:-1] + crit[1:]) / 2
    mids = mids[np.diff(crit) > 1e-9 * max(1., dist)]
    if len(mids) == 0:
        mids = np.array([crit[0] - dist / 2])
    n = len(fl)
    A = np.zeros((n, n), bool)
    for i, l in enumerate(allowed):
        for f in l:
            A[i, f] = True
    powers = {1: A}

    def power(k):
        k = min(k, 60)
        if k not in powers:
            q = power(k - 1)
            powers[k] = (q.astype(int) @ A.astype(int)) > 0
        return powers[k]
    best = 'facies change within a layer'
    tol = 2e-9 * max(1., v.max())
    for b in mids:
        q = (v - b) / dist
        lay = np.floor(q).astype(int)
        # one facies per layer
        change = np.flatnonzero((np.diff(lay) == 0) & (np.diff(fac) != 0))
        # two cells at the same distance up to rounding can be on both sides of a boundary: excluded by the midpoints
        if len(change):
            continue
        idx = np.flatnonzero(np.r_[True, np.diff(lay) != 0])
        L, F = lay[idx], fac[idx]
        good = all(power(int(L[i + 1] - L[i]))[F[i], F[i + 1]] for i in range(len(L) - 1) if L[i + 1] - L[i] <= 60)
        if good:
            return True, len(np.unique(F))
        best = 'facies sequence {} of layers {} is not allowed'.format(F.tolist()[:12], L.tolist()[:12])
    return False, best


def check(case, env):
    m, p = case['m'], case['p']
    cfg = gen.single(m, p, FACS, seed=case['seed'], bg=('bg', 17., -23.))
    cfg['model']['hydraulics'] = False
    r = gen.simulate(cfg, env)
    x, y, z = gen.cells(cfg)
    X, Y, Z = np.meshgrid(x, y, z, indexing='ij')
    ha = r['ha']
    fl = p['facies']
    allowed = [[fl.index(f) for f in l] for l in p.get('altfacies', [fl] * len(fl))]
    islag = r['facies'] == FACS.index('lag')
    labels = []
    for h in np.unique(ha[ha >= 0]):
        b = (ha == h) & ~islag
        if not b.any():
            continue
        azim, dip = r['azim'][b], r['dip'][b]
        a, d = np.deg2rad(azim[0]), np.deg2rad(dip[0])
        if p['structure'] == 'dip':
            need(np.ptp(dip) == 0, 'layers with different dip in one body')
        if p['geometry'] == 'sheet':
            v = -np.sin(d) * np.cos(a) * X[b] + np.sin(d) * np.sin(a) * Y[b] + np.cos(d) * Z[b]
            dist = p['dipset_dist']
        elif p['geometry'] == 'trough':
            dx, dy, dz = X[b] - p['te_xyz'][0][0], Y[b] - p['te_xyz'][0][1], Z[b] - p['te_xyz'][0][2]
            if m['periodic']:
                dx = dx - m['lx'] * np.round(dx / m['lx'])
                dy = dy - m['ly'] * np.round(dy / m['ly'])
            if p['structure'] == 'dip':
                v = np.sin(d) * np.cos(a) * dx - np.sin(d) * np.sin(a) * dy + np.cos(d) * dz
                dist = p['dipset_dist']
            else:
                zt = p.get('size_ztrend')
                zf = 1. if zt is None else zt[0] + (p['te_xyz'][0][2] - m['z0']) / m['lz'] * (zt[1] - zt[0])
                al = np.deg2rad(p['paleoflow'][0])
                u = (np.cos(al) * dx + np.sin(al) * dy) / (p['length'] / 2)
                w = (-np.sin(al) * dx + np.cos(al) * dy) / (p['width'] / 2)
                v = np.sqrt(u**2 + w**2 + (dz / p['depth'])**2) / zf * p['depth'] * zf
                dist = p['bulbset_dist']
        else:
            th = np.deg2rad(p['flow_angle'])
            ds = p['ds'] + 1e-10
            L = abs(m['lx'] * np.cos(th)) + abs(m['ly'] * np.sin(th))
            along = (X - m['x0'] - m['lx'] / 2) * np.cos(th) + (Y - m['y0'] - m['ly'] / 2) * np.sin(th) + (L + p['width']) / 2
            q = along / ds
            b &= np.abs(q - np.floor(q) - .5) > 1e-5       # equally far from two points of the centreline
            if not b.any():
                continue
            v = np.round(q[b]) * ds * np.sin(d) + Z[b] * np.cos(d)
            dist = p['dipset_dist']
        f = r['facies'][b]
        need(np.all(np.isin(f, [FACS.index(n) for n in fl])), 'facies {} not declared for the type', np.unique(f))
        fi = np.array([fl.index(FACS[k]) for k in f])
        ok, msg = layers_ok(v, fi, dist, allowed, fl)
        need(ok, '{} with distance {}: {}', p['geometry'] + ' ' + p['structure'], dist, msg)
        if np.ptp(v) > dist and len(np.unique(fi)) > 1:
            labels.append(p['geometry'] + ' ' + p['structure'] + (' sequence' if 'altfacies' in p else ''))
    return sorted(set(labels))


@st.composite
def meander_cases(draw):
    c = draw(cases('channel'))
    c['p']['eps_factor'] = draw(st.sampled_from([.2, .5, 1.]))
    c['p']['h'] = draw(st.sampled_from([.1, .5, .9]))
    c['p']['k'] = draw(st.sampled_from([.1, .5, 1.5]))
    c['p']['channel_no'] = draw(st.integers(1, 2))
    return c


def check_meander(case, env):
    """layers of curved channels follow the arc length of the centreline"""
    m, p = case['m'], case['p']
    cfg = gen.single(m, p, FACS, seed=case['seed'], bg=('bg', 17., -23.))
    cfg['model']['hydraulics'] = False
    model = gen.build_model(cfg, env)
    try:
        obj = {o.num_ha: (np.asarray(o.x_center, float), np.asarray(o.y_center, float)) for s in model.strata for a in s.aes for o in a.object_list}
    except (AttributeError, TypeError):
        raise Skip
    r = model.data
    x, y, z = gen.cells(cfg)
    X, Y = np.meshgrid(x, y, indexing='ij')
    fl = p['facies']
    allowed = [[fl.index(f) for f in l] for l in p.get('altfacies', [fl] * len(fl))]
    islag = r['facies'] == FACS.index('lag')
    labels = []
    for h in np.unique(r['ha'][r['ha'] >= 0]):
        if h not in obj:
            raise Skip
        cx, cy = obj[h]
        b = (r['ha'] == h) & ~islag
        if not b.any() or not len(cx):
            continue
        need(np.ptp(r['dip'][b]) == 0, 'layers with different dip in one body')
        d = np.deg2rad(r['dip'][b][0])
        D = np.hypot(X[:, :, None] - cx, Y[:, :, None] - cy)
        arc = np.r_[0., np.cumsum(np.hypot(np.diff(cx), np.diff(cy)))]
        i = D.argmin(axis=2)
        srt = np.sort(D, axis=2)
        tie = srt[:, :, 1] - srt[:, :, 0] < 1e-7 if len(cx) > 1 else np.zeros(i.shape, bool)
        b &= ~tie[:, :, None]
        if not b.any():
            continue
        v = (arc[i][:, :, None] * np.sin(d) + z[None, None, :] * np.cos(d))[b]
        fi = np.array([fl.index(FACS[k]) for k in r['facies'][b]])
        ok, msg = layers_ok(v, fi, p['dipset_dist'], allowed, fl)
        need(ok, 'curved channel with distance {}: {}', p['dipset_dist'], msg)
        if np.ptp(v) > p['dipset_dist'] and len(np.unique(fi)) > 1:
            labels.append('curved channel')
    return sorted(set(labels))


SUBS = [Sub('meander', meander_cases(), check_meander, quick=600),
        Sub('trough', cases('trough'), check, quick=1800),
        Sub('sheet', cases('sheet'), check, quick=1000),
        Sub('channel', cases('channel'), check, quick=700)]
