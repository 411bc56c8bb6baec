"""P22: random placement of troughs."""
import os
import numpy as np
from scipy import stats
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen

PROPERTY = 'P22'
RULE = 'there is at least one plane with a positive expected number of troughs'
ASSUMPTIONS = ['elements are flat or (sub rough) bounded by random contacts with a buffer of at least one depth; for shifted patterns the troughs are smaller than the periodic domain and less deep than the distance of planes',
               'ensembles of 60-150 realizations; distribution tests report at p < 1e-8 or 6.5 standard errors',
               'spreads of the migration are 0 or 1 (variance and standard deviation coincide)']


def trough(**kw):
    e = {'geometry': 'trough', 'structure': 'massive', 'contact_model': ['flat'], 'facies': ['a'], 'bg_facies': 'bg', 'paleoflow': [0., 0.]}
    e.update(kw)
    return e


def ensemble(cfg, R, seed, env):
    cfg = dict(cfg)
    cfg['run'] = {'outputs': ['npz'], 'runname': 'r', 'numsim': R}
    cfg['model'] = dict(cfg['model'], hydraulics=False)
    out = []
    with env.scratch() as d:
        ini = os.path.join(d, 'c.ini')
        with open(ini, 'w') as fh:
            fh.write(gen.render(cfg))
        gen.run_hyvr(ini, None, seed)
        for k in range(1, R + 1):
            sub = os.path.join('r', 'real_{:03d}'.format(k)) if R > 1 else 'r'
            out.append(gen.load_npz(os.path.join(d, sub, 'r.npz')))
    return out


# ------------------------------------------------------------------------------------------
# planes: exact elevations, and migration without spread moves the whole pattern
# ------------------------------------------------------------------------------------------
@st.composite
def plane_cases(draw):
    dx, dy, dz = draw(st.sampled_from([.5, 1.])), draw(st.sampled_from([.5, 1.])), draw(st.sampled_from([.25, .5]))
    nx, ny, na = draw(st.integers(4, 8)), draw(st.integers(4, 7)), draw(st.integers(2, 4))
    nz = draw(st.integers(2, 14))
    if draw(st.integers(0, 9)) == 0:
        # many planes
        nz, na = draw(st.integers(60, 160)), draw(st.integers(1, 2))
        nx, ny = 4, 4
    m = {'x0': draw(st.sampled_from([0., -3., 12.5])), 'y0': draw(st.sampled_from([0., 7.25])), 'z0': draw(st.sampled_from([0., -2., 31.])),
         'dx': dx, 'dy': dy, 'dz': dz, 'lx': nx * dx, 'ly': ny * dy, 'lz': nz * dz, 'periodic': True}
    agg = na * dz
    depth = gen.rnd(agg * draw(st.sampled_from([.3, .6, .9])))
    e = trough(agg=agg, depth=depth, length=gen.rnd(m['lx'] * draw(st.sampled_from([.3, .6, .9]))), width=gen.rnd(m['ly'] * draw(st.sampled_from([.3, .6, .9]))),
               trough_density=gen.rnd(draw(st.sampled_from([3., 8., 30.])) / (m['lx'] * m['ly'])), paleoflow=[0., 0.])
    mig = None
    if draw(st.integers(0, 3)):
        mig = [draw(st.integers(-9, 9)), draw(st.integers(-8, 8))]
        e['migrate'] = [mig[0] * dx, 0., mig[1] * dy, 0.]
    if draw(st.booleans()):
        e['buffer'] = draw(gen.dec(0, 3, .25))
    return {'m': m, 'e': e, 'mig': mig, 'na': na, 'seed': draw(st.integers(0, 2**20))}


def check_planes(case, env):
    m, e, na = case['m'], case['e'], case['na']
    cfg = gen.single(m, e, ['a', 'bg'], seed=case['seed'])
    cfg['model']['hydraulics'] = False
    r = gen.simulate(cfg, env)
    body = r['ha'] != -1
    nz = body.shape[2]
    bottom = m['z0'] + e['depth'] * e.get('buffer', 0.)
    top = m['z0'] + m['lz']
    planes = []
    k = 0
    while top - k * e['agg'] > bottom + 1e-9:
        planes.append(k)
        k += 1
    if abs(top - k * e['agg'] - bottom) < 1e-9 or (planes and abs(top - planes[-1] * e['agg'] - bottom) < 1e-9):
        tie = True
    else:
        tie = False
    z = m['z0'] + (np.arange(nz) + .5) * m['dz']
    possible = np.zeros(nz, bool)
    for k in planes:
        zc = top - k * e['agg']
        possible |= (z <= zc + 1e-9) & (z >= zc - e['depth'] - 1e-9)
    if not tie:
        got = body.any(axis=(0, 1))
        need(not np.any(got & ~possible), 'troughs at z = {} although the planes are at {}', z[got & ~possible][:3], [top - k * e['agg'] for k in planes])
        if e['trough_density'] * m['lx'] * m['ly'] >= 29 and e['length'] >= .6 * m['lx'] and e['width'] >= .6 * m['ly']:
            # 30 expected troughs of at least 60 % extent: exp(-30 * pi/4 * .36 * 3/4) = 1.7e-3 per cell, all cells of one layer uncovered is impossible
            full = np.zeros(nz, bool)
            for k in planes:
                zc = top - k * e['agg']
                full |= (z < zc - 1e-9) & (z > zc - e['depth'] * .5)
            need(np.all(got[full]), 'no troughs at z = {} although there is a plane above', z[full & ~got][:3])
    if case['mig'] is not None and len(planes) > 1:
        lab = None
        for k in planes[1:]:
            if tie and k == planes[-1]:
                continue
            for i in range(na):
                up, lo = nz - 1 - (k - 1) * na - i, nz - 1 - k * na - i
                if lo < 0:
                    continue
                ex = np.roll(body[:, :, up], (case['mig'][0], case['mig'][1]), axis=(0, 1))
                need(np.array_equal(ex, body[:, :, lo]), 'the troughs {} below the top are not those of the plane above moved by {} cells', k * e['agg'], case['mig'])
                if body[:, :, lo].any() and not body[:, :, lo].all():
                    lab = 'migrated'
        return lab or ('planes' if planes else None)
    return 'planes' if planes else None


# ------------------------------------------------------------------------------------------
# coverage of the Boolean model
# ------------------------------------------------------------------------------------------
@st.composite
def cover_cases(draw):
    dx, dy = draw(st.sampled_from([.5, 1., 2.])), draw(st.sampled_from([.5, 1., 2.]))
    nx, ny = draw(st.integers(5, 9)), draw(st.integers(5, 9))
    dz = .25
    m = {'x0': draw(st.sampled_from([0., -30., 12.5])), 'y0': draw(st.sampled_from([0., 70.25])), 'z0': draw(st.sampled_from([0., -2.])),
         'dx': dx, 'dy': dy, 'dz': dz, 'lx': nx * dx, 'ly': ny * dy, 'lz': 6 * dz, 'periodic': draw(st.booleans())}
    s = min(m['lx'], m['ly'])
    length, width = gen.rnd(s * draw(st.sampled_from([.3, .6, .9]))), gen.rnd(s * draw(st.sampled_from([.3, .6, .9])))
    area = np.pi * length * width / 4
    al = draw(st.sampled_from([0., 30., -75., 140.]))
    e = trough(agg=.75, depth=.75, length=length, width=width, trough_density=gen.rnd(draw(st.sampled_from([.3, .7, 1.5])) / area), paleoflow=[al, al])
    return {'m': m, 'e': e, 'seed': draw(st.integers(0, 2**20))}


def check_cover(case, env):
    m, e = case['m'], case['e']
    R = 80
    cfg = gen.single(m, e, ['a', 'bg'])
    res = ensemble(cfg, R, case['seed'], env)
    x, y, z = gen.cells(cfg)
    nx, ny, nz = len(x), len(y), len(z)
    occ = np.array([r['ha'] != -1 for r in res], float)                    # R, nx, ny, nz
    a, b, c = e['length'] / 2, e['width'] / 2, e['depth']
    al = np.deg2rad(e['paleoflow'][0])
    rs = np.random.RandomState(7)
    for lay in range(nz):
        # elevation below the plane that is responsible for this layer
        k = (nz - 1 - lay) // 3
        dz = m['z0'] + m['lz'] - k * e['agg'] - z[lay]
        f2 = 1 - (dz / c)**2
        # area of centres that cover a cell, inside the domain
        u = np.sqrt(rs.rand(4000))
        ph = rs.rand(4000) * 2 * np.pi
        px, py = a * np.sqrt(f2) * u * np.cos(ph), b * np.sqrt(f2) * u * np.sin(ph)
        qx, qy = px * np.cos(al) - py * np.sin(al), px * np.sin(al) + py * np.cos(al)
        A = np.pi * a * b * f2
        if m['periodic']:
            frac = np.ones((nx, ny))
        else:
            ix = (x[:, None] + qx > m['x0']) & (x[:, None] + qx < m['x0'] + m['lx'])
            iy = (y[:, None] + qy > m['y0']) & (y[:, None] + qy < m['y0'] + m['ly'])
            frac = (ix[:, None, :] & iy[None, :, :]).mean(axis=2)
        p = 1 - np.exp(-e['trough_density'] * A * frac)
        for name, sel in (('all cells', np.ones((nx, ny), bool)), ('low x', np.arange(nx)[:, None] < 2 + 0 * np.arange(ny)), ('high x', np.arange(nx)[:, None] >= nx - 2 + 0 * np.arange(ny)),
                          ('low y', np.arange(ny)[None] < 2 + 0 * np.arange(nx)[:, None]), ('high y', np.arange(ny)[None] >= ny - 2 + 0 * np.arange(nx)[:, None])):
            w = occ[:, sel, lay].mean(axis=1)
            pe = p[sel].mean()
            # the estimated standard error fails for rare events: bound it by that of the fully correlated model
            se = max(w.std() / np.sqrt(R), np.sqrt(pe * (1 - pe) / R) * .35)
            need(abs(w.mean() - pe) < .015 + 6.5 * se, '{} of the cells ({}) in layer {} are in a trough instead of {:.3f} (standard error {:.4f})', round(w.mean(), 3), name, lay, pe, se)
    return 'periodic' if m['periodic'] else 'not periodic'


# ------------------------------------------------------------------------------------------
# orientation (azimuth of massive troughs)
# ------------------------------------------------------------------------------------------
@st.composite
def angle_cases(draw):
    lo = draw(st.integers(-180, 150))
    w = draw(st.sampled_from([1, 10, 45, 90, 170]))
    return {'lo': float(lo), 'hi': float(lo + w), 'az': float(draw(st.integers(-60, 60))), 'dip': draw(st.sampled_from([0., 15.])), 'seed': draw(st.integers(0, 2**20)),
            'structure': draw(st.sampled_from(['massive', 'dip'])), 'daz': draw(st.sampled_from([0., 20.])), 'ddip': draw(st.sampled_from([0., 10.]))}


def check_angles(case, env):
    m = {'x0': 0., 'y0': 5., 'z0': 0., 'dx': 1., 'dy': 1., 'dz': .5, 'lx': 9., 'ly': 9., 'lz': 2., 'periodic': True}
    # either the orientation or the azimuth varies
    pal, az = [case['lo'], case['hi']], [case['az'], case['az']]
    if case['daz']:
        pal, az = [case['lo'], case['lo']], [case['az'], case['az'] + case['daz']]
    e = trough(structure=case['structure'], agg=.5, depth=.4, length=4., width=2.5, trough_density=.2, paleoflow=pal, azimuth=az, dip=[case['dip'], case['dip'] + case['ddip']], dipset_dist=.3)
    cfg = gen.single(m, e, ['a', 'bg'])
    A, D = [], []
    for r in ensemble(cfg, 12, case['seed'], env):
        for h in np.unique(r['ha']):
            if h == -1:
                continue
            s = r['ha'] == h
            v = np.unique(r['azim'][s])
            w = np.unique(r['dip'][s])
            need(np.ptp(v) < 1e-9 and np.ptp(w) < 1e-9, 'several angles in one trough: {} {}', v, w)
            A.append(v[0])
            D.append(w[0])
    A, D = np.array(A), np.array(D)
    lo, hi = pal[0] + az[0], pal[1] + az[1]
    need(len(A) > 40, 'only {} troughs in 12 realizations with 64.8 expected each', len(A))
    need(A.min() >= lo - 1e-9 and A.max() <= hi + 1e-9, 'azimuths {} ... {} are outside of {} ... {}', A.min(), A.max(), lo, hi)
    need(stats.kstest((A - lo) / (hi - lo), 'uniform').pvalue > 1e-8, 'azimuths are not uniform in {} ... {}', lo, hi)
    d0, d1 = case['dip'], case['dip'] + case['ddip']
    need(D.min() >= d0 - 1e-9 and D.max() <= d1 + 1e-9, 'dips {} ... {} are outside of {} ... {}', D.min(), D.max(), d0, d1)
    if d1 > d0:
        need(stats.kstest((D - d0) / (d1 - d0), 'uniform').pvalue > 1e-8, 'dips are not uniform in {} ... {}', d0, d1)
        need(abs(np.corrcoef(A, D)[0, 1]) < 7 / np.sqrt(len(A)), 'dip and azimuth are correlated')
    return 'angles of {} troughs'.format(len(A) // 100 * 100)


# ------------------------------------------------------------------------------------------
# positions, numbers and migration of the generated objects
# ------------------------------------------------------------------------------------------
@st.composite
def obj_cases(draw):
    nx, ny, nz = draw(st.integers(1, 5)), draw(st.integers(1, 5)), draw(st.integers(4, 8))
    d = [draw(st.sampled_from([.5, 1., 3.])) for _ in range(3)]
    m = {'x0': draw(st.sampled_from([0., -30., 12.5])), 'y0': draw(st.sampled_from([0., 70.25])), 'z0': draw(st.sampled_from([0., -2., 5.])),
         'dx': d[0], 'dy': d[1], 'dz': d[2], 'lx': nx * d[0], 'ly': ny * d[1], 'lz': nz * d[2], 'periodic': draw(st.booleans())}
    lam = draw(st.sampled_from([.6, 2.5, 7., 12., 31.5]))
    e = trough(agg=gen.rnd(m['lz'] / draw(st.sampled_from([1.5, 2.5, 4.5]))), depth=gen.rnd(d[2] * .5), length=d[0], width=d[1], trough_density=gen.rnd(lam / (m['lx'] * m['ly'])), paleoflow=[0., 90.],
               buffer=draw(st.sampled_from([0., 1.])))
    mig = draw(st.sampled_from([None, 0., 1.]))
    if mig is not None:
        e['migrate'] = [draw(st.sampled_from([0., 2., -5.])), draw(st.sampled_from([0., 1.])), draw(st.sampled_from([0., 3.])), mig]
    return {'m': m, 'e': e, 'lam': lam, 'seed': draw(st.integers(0, 2**20))}


def check_objects(case, env):
    m, e, lam = case['m'], case['e'], case['lam']
    cfg = gen.single(m, e, ['a', 'bg'])
    cfg['model']['hydraulics'] = False
    R = 120
    N, X, Y, AL, DX, DY = [], [], [], [], [], []
    import vp
    setup_from_inifile, _ = gen.internals()
    with env.scratch() as d:
        ini = os.path.join(d, 'c.ini')
        cfg['run'] = {'outputs': ['npz'], 'runname': 'r'}
        with open(ini, 'w') as f:
            f.write(gen.render(cfg))
        run, model, hyd = setup_from_inifile(ini, None)
    vp.seed_all(case['seed'])
    top, bottom = m['z0'] + m['lz'], m['z0'] + e['depth'] * e['buffer']
    planes = []
    while top - len(planes) * e['agg'] > bottom:
        planes.append(top - len(planes) * e['agg'])
    for k in range(R):
        model.generate_model()
        try:
            ae = model.strata[0].aes[0]
            P = np.array([[o.x, o.y, o.z, o.alpha] for o in ae.object_list]).reshape(-1, 4)
        except AttributeError:
            raise Skip
        need(len(model.strata[0].aes) == 1, 'more than one element')
        pl = np.round((top - P[:, 2]) / e['agg']).astype(int)
        need(np.all(np.abs(top - pl * e['agg'] - P[:, 2]) < 1e-6) and np.all(pl >= 0) and np.all(pl < len(planes)), 'trough at z {} is not on one of the planes {}', P[:, 2], planes)
        AL += list(P[:, 3])
        per = [P[pl == q] for q in range(len(planes))]
        if 'migrate' in e:
            N.append(len(per[0]))
            X += list(per[0][:, 0])
            Y += list(per[0][:, 1])
            for q in range(1, len(planes)):
                need(len(per[q]) == len(per[0]), 'number of troughs changes from {} to {} although they migrate', len(per[0]), len(per[q]))
                DX += list(per[q][:, 0] - per[q - 1][:, 0])
                DY += list(per[q][:, 1] - per[q - 1][:, 1])
        else:
            for q in per:
                N.append(len(q))
                X += list(q[:, 0])
                Y += list(q[:, 1])
    N = np.array(N)
    n = len(N)
    need(abs(N.mean() - lam) < 6.5 * np.sqrt(lam / n), 'mean number of troughs on a plane {:.3f} instead of {}', N.mean(), lam)
    sv = np.sqrt((2 * lam**2 + lam) / n)
    need(abs(N.var() - lam) < 8 * sv, 'variance of the number of troughs {:.3f} instead of {}', N.var(), lam)
    for v, o, l, c in ((X, m['x0'], m['lx'], 'x'), (Y, m['y0'], m['ly'], 'y')):
        u = (np.array(v) - o) / l
        need(np.all((u >= 0) & (u <= 1)), '{} of a trough is outside of the domain', c)
        need(stats.kstest(u, 'uniform').pvalue > 1e-8, 'centres are not uniform in {}', c)
    if len(X) > 50:
        need(abs(np.corrcoef(X, Y)[0, 1]) < 7 / np.sqrt(len(X)), 'x and y of the centres are correlated')
    a = np.rad2deg(AL) if np.max(AL) < 1.6 else np.array(AL)
    need(stats.kstest(a / 90, 'uniform').pvalue > 1e-8, 'orientations are not uniform')
    if DX:
        for v, mu, sd, c in ((DX, e['migrate'][0], e['migrate'][1], 'x'), (DY, e['migrate'][2], e['migrate'][3], 'y')):
            v = np.array(v)
            if sd == 0:
                need(np.all(np.abs(v - mu) < 1e-9), 'migration in {} by {} instead of {}', c, v[:3], mu)
            else:
                need(stats.kstest((v - mu) / sd, 'norm').pvalue > 1e-8, 'migration in {}: mean {:.3f}, standard deviation {:.3f} instead of {} and {}', c, v.mean(), v.std(), mu, sd)
    return 'migration' if DX else 'no migration'


# ------------------------------------------------------------------------------------------
# migration with spread, seen in the output: positions of single troughs
# ------------------------------------------------------------------------------------------
@st.composite
def walk_cases(draw):
    return {'mig': [draw(st.sampled_from([0., 3., -4.])), draw(st.sampled_from([0., 1.])), draw(st.sampled_from([0., 2.])), draw(st.sampled_from([0., 1.]))],
            'x0': draw(st.sampled_from([0., 50.])), 'seed': draw(st.integers(0, 2**20))}


def check_walk(case, env):
    n = 20
    m = {'x0': case['x0'], 'y0': -10., 'z0': 0., 'dx': 1., 'dy': 1., 'dz': .5, 'lx': float(n), 'ly': float(n), 'lz': 1., 'periodic': True}
    e = trough(agg=.5, depth=.4, length=6., width=6., trough_density=1.2 / n**2, migrate=case['mig'])
    cfg = gen.single(m, e, ['a', 'bg'])
    D = []
    w = np.exp(2j * np.pi * np.arange(n) / n)
    for r in ensemble(cfg, 60, case['seed'], env):
        c = []
        for lay in (1, 0):
            h = r['ha'][:, :, lay]
            if len(np.unique(h[h != -1])) == 1 and 8 <= (h != -1).sum():
                o = h != -1
                c.append([np.angle((o.sum(axis=1) * w).sum()) * n / 2 / np.pi, np.angle((o.sum(axis=0) * w).sum()) * n / 2 / np.pi])
        if len(c) == 2 and abs(int((r['ha'][:, :, 0] != -1).sum()) - int((r['ha'][:, :, 1] != -1).sum())) < 8:
            D.append(np.array(c[1]) - c[0])
    if len(D) < 8:
        return None
    D = np.array(D)
    D = D - n * np.round((D - [case['mig'][0], case['mig'][2]]) / n)
    for i, c in enumerate('xy'):
        mu, sd = case['mig'][2 * i], case['mig'][2 * i + 1]
        # centroids of discretized discs deviate by less than half a cell
        need(np.all(np.abs(D[:, i] - mu) < .5 + 6.5 * sd), 'troughs of successive planes are moved by {} in {} instead of {} (spread {})', D[:, i][:4], c, mu, sd)
        need(abs(D[:, i].mean() - mu) < .3 + 6.5 * sd / np.sqrt(len(D)), 'mean migration in {} is {:.3f} instead of {}', c, D[:, i].mean(), mu)
        if sd:
            s = np.sqrt(((D[:, i] - mu)**2).mean())
            need(.35 * sd < s < 2. * sd + .2, 'spread of the migration in {} is {:.3f} instead of {}', c, s, sd)
    return 'migration of {} single troughs'.format(len(D) // 5 * 5)


# ------------------------------------------------------------------------------------------
# planes between rough contacts: from the mean of the top down to the highest point of the bottom
# ------------------------------------------------------------------------------------------
@st.composite
def rough_cases(draw):
    dz = .125
    nz = draw(st.integers(50, 70))
    m = {'x0': draw(st.sampled_from([0., -3.])), 'y0': 0., 'z0': draw(st.sampled_from([0., -20., 31.])), 'dx': 1., 'dy': 1., 'dz': dz,
         'lx': float(draw(st.integers(5, 9))), 'ly': float(draw(st.integers(5, 9))), 'lz': nz * dz, 'periodic': True}
    agg = draw(st.sampled_from([.3, .5, .7]))
    e = trough(agg=agg, depth=gen.rnd(agg * draw(st.sampled_from([.4, .6, .9]))), length=gen.rnd(.8 * m['lx']), width=gen.rnd(.8 * m['ly']),
               trough_density=gen.rnd(30. / (m['lx'] * m['ly'])), buffer=draw(st.sampled_from([1., 1., 1.5, 2.5])))
    var = [draw(st.sampled_from([0., .1, .3])), draw(st.sampled_from([0., .1, .3]))]
    corl = [draw(st.sampled_from([1.5, 3.])), draw(st.sampled_from([1.5, 3.]))]
    return {'m': m, 'e': e, 'var': var, 'corl': corl, 'lo': gen.rnd(draw(st.integers(26, 34)) / 100), 'hi': gen.rnd(draw(st.integers(66, 74)) / 100), 'seed': draw(st.integers(0, 2**20))}


def check_rough(case, env):
    m, e = case['m'], case['e']
    cfg = gen.single(m, e, ['a', 'bg'], seed=case['seed'])
    cfg['model']['hydraulics'] = False
    lo, hi = m['z0'] + case['lo'] * m['lz'], m['z0'] + case['hi'] * m['lz']
    con = [['random', gen.rnd(z), v, case['corl'][0], case['corl'][1]] if v else ['flat', gen.rnd(z)] for z, v in zip((lo, hi), case['var'])]
    s = cfg['strata']
    s.update({'strata': ['a', 'b', 'c'], 'strata_contact_models': con, 'ae': ['sh', 'e'], 'ae_in_strata': [['sh'], ['e'], ['sh']], 'ae_prob': [[1.]] * 3,
              'ae_z_mean': [[1e4]] * 3, 'avul_prob': [[0.]] * 3, 'avul': [[0., 0.]] * 3, 'bg_facies': ['bg'] * 3, 'bg_azim': [0.] * 3, 'bg_dip': [0.] * 3})
    cfg['elements'] = {'sh': {'geometry': 'sheet', 'structure': 'massive', 'contact_model': ['flat'], 'facies': ['a'], 'lens_thickness': -1}, 'e': e}
    r = gen.simulate(cfg, env)
    z = gen.cells(cfg)[2]
    dz = m['dz']
    here = r['hat'] == 1
    if not (here.any(axis=2).all()):
        return None
    body = here & (r['ha'] != -1)
    got = body.any(axis=(0, 1))
    # highest point of the bottom: it lies within the cell below the lowest cell of some column
    low = np.array([[z[here[i, j]].min() for j in range(here.shape[1])] for i in range(here.shape[0])])
    bmin, bmax = low.max() - dz, low.max() + 1e-9
    if case['var'][0] == 0:
        bmin = bmax = lo
    sure, maybe, k = [], [], 0
    while hi - k * e['agg'] > bmin + e['depth'] * e['buffer'] - 1e-9:
        (sure if hi - k * e['agg'] > bmax + e['depth'] * e['buffer'] + 1e-9 else maybe).append(hi - k * e['agg'])
        k += 1
    possible, full = np.zeros(len(z), bool), np.zeros(len(z), bool)
    for zc in sure + maybe:
        possible |= (z <= zc + 1e-9) & (z >= zc - e['depth'] - 1e-9)
    for zc in sure:
        full |= (z < zc - 1e-9) & (z > zc - e['depth'] * .6)
    full &= here.all(axis=(0, 1))
    need(not np.any(got & ~possible), 'troughs at z = {} although the planes are at {}', z[got & ~possible][:3], sure + maybe)
    need(np.all(got[full]), 'no troughs at z = {} although the planes are at {}', z[full & ~got][:3], sure)
    if not full.any():
        return None
    return 'rough bottom' if case['var'][0] else 'rough top' if case['var'][1] else 'flat'


SUBS = [Sub('rough', rough_cases(), check_rough, quick=600),
        Sub('planes', plane_cases(), check_planes, quick=1000),
        Sub('coverage', cover_cases(), check_cover, quick=60),
        Sub('angles', angle_cases(), check_angles, quick=72),
        Sub('objects', obj_cases(), check_objects, quick=120),
        Sub('walk', walk_cases(), check_walk, quick=12)]
