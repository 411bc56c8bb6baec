"""P10: shape, orientation and angles of troughs, against the analytical ellipsoid."""
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen

PROPERTY = 'P10'
RULE = 'at least one cell inside and one outside the trough'
ASSUMPTIONS = ['troughs are placed with te_xyz', 'in periodic domains troughs are not larger than the domain',
               'cells closer than 1e-9 (relative) to the ellipsoid or to the lag surface are not judged']


@st.composite
def cases(draw):
    exact = draw(st.integers(0, 3)) == 0
    m = draw(gen.grids(nx=(3, 14), ny=(3, 12), nz=(3, 12), zsizes=(.1, .25, .5), dyadic=exact))
    s = draw(st.sampled_from(['massive', 'dip', 'bulb', 'bulb_sets', 'flat', 'random']))
    zt = None
    if draw(st.integers(0, 2)) == 0:
        zt = [draw(gen.dec(.3, 2, .1)), draw(gen.dec(.3, 2, .1))]
    f = draw(st.one_of(gen.dec(.05, .97, .01), gen.dec(.05, .97, .01), gen.dec(.98, 1.25, .01)))
    if zt and zt[0] + f * (zt[1] - zt[0]) < .1:
        zt = zt[::-1]
    zf = 1. if zt is None else zt[0] + f * (zt[1] - zt[0])
    if m['periodic']:
        big = min(m['lx'], m['ly']) / zf
        length, width = draw(gen.dec(.2, 1., .05)) * big * .999, draw(gen.dec(.2, 1., .05)) * big * .999
        c = [draw(gen.dec(-3, 4, .01)), draw(gen.dec(-3, 4, .01))]
    else:
        length, width = draw(gen.dec(.2, 2.4, .1)) * m['lx'], draw(gen.dec(.2, 2.4, .1)) * m['ly']
        c = [draw(gen.dec(-.3, 1.3, .01)), draw(gen.dec(-.3, 1.3, .01))]
    p = {'geometry': 'trough', 'structure': s, 'contact_model': ['flat'], 'facies': ['f', 'g'],
         'agg': 1e3, 'trough_density': 0., 'length': gen.rnd(length), 'width': gen.rnd(width),
         'depth': gen.rnd(draw(gen.dec(.1, 1.3, .05)) * m['lz']),
         'te_xyz': [[gen.rnd(m['x0'] + c[0] * m['lx']), gen.rnd(m['y0'] + c[1] * m['ly']), gen.rnd(m['z0'] + f * m['lz'])]]}
    if exact or draw(st.integers(0, 3)) == 0:
        # centre in the centre of a cell: cells straight below have no azimuth
        t = p['te_xyz'][0]
        for i, a in enumerate('xyz'):
            # the size of troughs in periodic domains is limited at the elevation drawn above
            if draw(st.integers(0, 3)) > 0 and not (a == 'z' and zt and m['periodic']):
                n = int(round(m['l' + a] / m['d' + a]))
                k = min(max(int((t[i] - m[a + '0']) / m['d' + a]), 0), n - 1)
                t[i] = gen.rnd(m[a + '0'] + (k + .5) * m['d' + a])
    al = draw(st.one_of(st.integers(-180, 180), gen.dec(-360, 360, .7)))
    # unknown angle within a range: recovered from the azimuth
    rng = draw(st.booleans()) and s in ('massive', 'dip', 'flat')
    p['paleoflow'] = [float(al), float(al) + (draw(st.integers(1, 120)) if rng else 0.)]
    if draw(st.booleans()):
        p['azimuth'] = [float(draw(st.integers(-180, 180)))] * 2
    d = float(draw(st.integers(1, 60)))
    if s in ('massive', 'dip', 'flat') and draw(st.integers(0, 4)) == 0:
        d = -d
    p['dip'] = draw(st.sampled_from([[d, d], [d, d + 13.], [80., 80.]]))
    if draw(st.integers(0, 6)) == 0:
        del p['dip']
    p['dipset_dist'] = draw(st.sampled_from([.07, .3, 2.]))
    p['bulbset_dist'] = draw(st.sampled_from([.07, .3, 2.]))
    if zt:
        p['size_ztrend'] = zt
    if draw(st.integers(0, 2)) == 0:
        p['lag_height'] = gen.rnd(draw(gen.dec(.05, 1.2, .05)) * p['depth'])
        p['lag_facies'] = 'lag'
    return {'m': m, 'p': p, 'exact': exact, 'seed': draw(st.integers(0, 2**20))}


def near(a, b, tol=1e-6):
    return np.abs(a - b) <= tol


def near180(a, b, tol=1e-6):
    return np.abs((a - b + 90.) % 180. - 90.) <= tol


def check(case, env):
    m, p = case['m'], case['p']
    facs = ['bg', 'f', 'g', 'lag']
    cfg = gen.single(m, p, facs, seed=case['seed'], bg=('bg', 17., -23.))
    cfg['model']['hydraulics'] = False
    r = gen.simulate(cfg, env)
    x, y, z = gen.cells(cfg)
    X, Y, Z = np.meshgrid(x, y, z, indexing='ij')
    zc = p['te_xyz'][0][2]
    zt = p.get('size_ztrend')
    zf = 1. if zt is None else zt[0] + (zc - m['z0']) / m['lz'] * (zt[1] - zt[0])
    a, b, c = p['length'] / 2 * zf, p['width'] / 2 * zf, p['depth'] * zf
    ins = r['ha'] >= 0
    need(len(np.unique(r['ha'][ins])) <= 1, 'one trough, but several bodies')
    az0 = p.get('azimuth', [0., 0.])[0]
    d0, d1 = p.get('dip', [0., 0.])
    dx, dy, dz = X - p['te_xyz'][0][0], Y - p['te_xyz'][0][1], Z - zc
    if m['periodic']:
        dx = dx - m['lx'] * np.round(dx / m['lx'])
        dy = dy - m['ly'] * np.round(dy / m['ly'])
    lagz = zc - c + p.get('lag_height', 0.)
    haslag = p.get('lag_height', 0.) > 0
    unsure_lag = np.abs(Z - lagz) < 1e-9
    lag = ins & (Z < lagz) if haslag else np.zeros_like(ins)
    body = ins & ~lag & ~unsure_lag
    s = p['structure']
    alpha = p['paleoflow'][0]
    if p['paleoflow'][1] != alpha:
        if not body.any():
            return
        av = np.unique(r['azim'][body])
        need(len(av) == 1, 'different azimuths in a {} trough', s)
        alpha = av[0] - az0
        need(p['paleoflow'][0] - 1e-9 <= alpha <= p['paleoflow'][1] + 1e-9, 'azimuth {} for azimuth setting {} and paleoflow {}', av[0], az0, p['paleoflow'])
    al = np.deg2rad(alpha)
    u = (np.cos(al) * dx + np.sin(al) * dy) / a
    v = (-np.sin(al) * dx + np.cos(al) * dy) / b
    w = dz / c
    d2 = u * u + v * v + w * w
    e = (d2 <= 1) & (dz <= 0)
    unsure = (np.abs(d2 - 1) < 1e-9) | (np.abs(dz) < 1e-9)
    if case.get('exact'):
        # all coordinates are multiples of 1/16: the plane through the centre belongs to the trough
        unsure &= dz != 0
    bad = (e != ins) & ~unsure
    need(not bad.any(), 'cell {} is {} the trough, normalized distance {:.6f}, {:.4f} below the centre',
         *((np.argwhere(bad)[0].tolist(), 'inside' if ins[bad][0] else 'outside', float(np.sqrt(d2[bad][0])), float(-dz[bad][0])) if bad.any() else (0, 0, 0, 0)))
    # background
    need(np.all(r['facies'][~ins] == 0) and np.all(r['azim'][~ins] == 17.) and np.all(r['dip'][~ins] == -23.), 'background cells changed')
    l = lag & ~unsure_lag
    need(np.all(r['facies'][l] == 3) and np.all(r['azim'][l] == 0) and np.all(r['dip'][l] == 0), 'wrong lag cells')
    need(np.all(np.isin(r['facies'][body], [1, 2])), 'wrong facies {} above the lag', np.unique(r['facies'][body]))
    labels = []
    if body.any():
        az, dip, fac = r['azim'][body], r['dip'][body], r['facies'][body]

        def const():
            need(np.all(near(az, az0 + alpha)), 'azimuth {} instead of {} + {}', az[0], az0, alpha)
            need(len(np.unique(dip)) == 1 and d0 - 1e-9 <= dip[0] <= d1 + 1e-9, 'dip {} outside {}', dip[0], [d0, d1])

        def bulb():
            # gradient of the quadratic form
            gx = (np.cos(al) * u / a - np.sin(al) * v / b)[body]
            gy = (np.sin(al) * u / a + np.cos(al) * v / b)[body]
            gz = (w / c)[body]
            g = np.sqrt(gx**2 + gy**2 + gz**2)
            gh = np.hypot(gx, gy)
            sure = (gh > 1e-9 * np.maximum(1e-300, g)) & (np.hypot(u, v) > 1e-6)[body]
            full = np.rad2deg(np.arctan2(gh, np.abs(gz)))
            # one common limit within the range
            lim = np.max(np.abs(dip[sure])) if sure.any() else 0.
            need(lim <= d1 + 1e-6, 'dip {} above the limit {}', lim, d1)
            capped = np.minimum(full, max(lim, d0))
            # (straight below the centre the normal is vertical, in the centre there is none)
            some = (np.sqrt(d2) > 1e-6)[body]
            need(np.all(near(np.abs(dip), capped, 1e-5)[some]), 'dip of a bulb does not follow the normal of the ellipsoid')
            need(np.all(near180(az, -np.rad2deg(np.arctan2(gy, gx)), 1e-5)[sure]), 'azimuth of a bulb does not follow the normal of the ellipsoid')
            sg = sure & (np.abs(gx) > 1e-9 * g) & (gz < -1e-9 * g) & (np.abs(dip) > 1e-9)
            need(np.all((np.sign(dip) == np.sign(gx) * np.where(np.cos(np.deg2rad(az)) >= 0, 1, -1))[sg]), 'dip direction of a bulb')
        if s in ('massive', 'flat', 'dip'):
            const()
        elif s == 'random':
            try:
                const()
                labels.append('random: constant')
            except AssertionError:
                bulb()
                labels.append('random: bulb')
        else:
            bulb()
        if s in ('massive', 'flat', 'bulb'):
            need(len(np.unique(fac)) == 1, 'several facies in a {} trough', s)
    if ins.any() and not ins.all():
        labels += [s, 'periodic' if m['periodic'] else 'open']
        if zt:
            labels.append('size trend')
        if l.any():
            labels.append('lag')
        return labels


SUBS = [Sub('trough', cases(), check, quick=5000)]
