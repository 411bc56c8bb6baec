"""P09: overlapping bodies, against brute force."""
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen

PROPERTY = 'P09'
RULE = 'at least one cell lies in two or more bodies, or a body erodes a lower stratum'
ASSUMPTIONS = ['manually placed troughs have different elevations (ties have no defined order)',
               'columns in which the top of a body lies below the bottom of its own element are not judged: the search from top to bottom has left the element there',
               'in periodic domains troughs are not larger than the domain',
               'cells closer than 1e-9 (relative) to the surface of a body are not judged']


def inside_ellipsoid(X, Y, Z, c, axes, alpha, period=None):
    """normalized squared distance (inf above the centre)"""
    dx, dy, dz = X - c[0], Y - c[1], Z - c[2]
    if period is not None:
        dx = dx - period[0] * np.round(dx / period[0])
        dy = dy - period[1] * np.round(dy / period[1])
    al = np.deg2rad(alpha)
    u = np.cos(al) * dx + np.sin(al) * dy
    v = -np.sin(al) * dx + np.cos(al) * dy
    d2 = (u / axes[0])**2 + (v / axes[1])**2 + (dz / axes[2])**2
    return np.where(dz > 1e-9, np.inf, np.where(dz > -1e-9, np.where(d2 > 1 + 1e-6, np.inf, 1.), d2))


@st.composite
def manual(draw, ns_max=3):
    m = draw(gen.grids(nx=(2, 10), ny=(2, 9), nz=(5, 16), zsizes=(.1, .25, .5)))
    ns = draw(st.integers(1, ns_max))
    fr = [0.] + sorted(draw(st.lists(st.sampled_from([.21, .37, .52, .68, .83]), min_size=ns - 1, max_size=ns - 1, unique=True))) + [1.]
    types = []
    for i in range(ns):
        n = draw(st.integers(0 if ns > 1 else 1, 7))
        zs = draw(st.lists(st.integers(1, 39), min_size=n, max_size=n, unique=True))
        lo, hi = m['z0'] + fr[i] * m['lz'], m['z0'] + fr[i + 1] * m['lz']
        if draw(st.integers(0, 2)) == 0:
            # also above their own stratum
            hi = m['z0'] + m['lz']
        pts = []
        for k in zs:
            pts.append([gen.rnd(m['x0'] + draw(gen.dec(-.3, 1.3, .01)) * m['lx']), gen.rnd(m['y0'] + draw(gen.dec(-.3, 1.3, .01)) * m['ly']),
                        gen.rnd(lo + (hi - lo) * (k + .013) / 40)])
        big = min(m['lx'], m['ly'])
        if m['periodic']:
            length, width = draw(gen.dec(.2, 1., .1)) * big, draw(gen.dec(.2, 1., .1)) * big
        else:
            length, width = draw(gen.dec(.2, 1.6, .1)) * m['lx'], draw(gen.dec(.2, 1.6, .1)) * m['ly']
        types.append({'te_xyz': pts, 'length': gen.rnd(length), 'width': gen.rnd(width), 'depth': gen.rnd(draw(gen.dec(.1, 1.2, .05)) * m['lz']),
                      'alpha': float(draw(st.integers(-180, 180)))})
    return {'m': m, 'fr': fr, 'types': types, 'seed': draw(st.integers(0, 2**20)),
            'perm': draw(st.integers(0, 2**20))}


def config(case, shuffle=None):
    m = case['m']
    ns = len(case['types'])
    facs = ['b%d' % i for i in range(ns)] + ['t%d' % i for i in range(ns)]
    els = {}
    for i, t in enumerate(case['types']):
        pts = list(t['te_xyz'])
        if shuffle is not None:
            pts = [pts[k] for k in np.random.RandomState(shuffle + i).permutation(len(pts))]
        e = {'geometry': 'trough', 'structure': 'massive', 'contact_model': ['flat'], 'facies': ['t%d' % i],
             'agg': 1e3, 'width': t['width'], 'length': t['length'], 'depth': t['depth'], 'paleoflow': [t['alpha'], t['alpha']],
             'trough_density': 0.}
        if pts:
            e['te_xyz'] = pts
        els['e%d' % i] = e
    cfg = gen.single(m, None, facs, seed=case['seed'])
    cfg['model']['hydraulics'] = False
    cfg['elements'] = els
    s = cfg['strata']
    s['strata'] = ['s%d' % i for i in range(ns)]
    s['strata_contact_models'] = [['flat', gen.rnd(m['z0'] + f * m['lz'])] for f in case['fr'][1:-1]]
    s['ae'] = list(els)
    s['ae_in_strata'] = [[n] for n in els]
    for k in ('ae_prob', 'ae_z_mean', 'avul_prob', 'avul', 'bg_azim', 'bg_dip'):
        s[k] = s[k] * ns
    s['bg_facies'] = ['b%d' % i for i in range(ns)]
    return cfg


def check_manual(case, env):
    cfg = config(case)
    r = gen.simulate(cfg, env)
    m = case['m']
    x, y, z = gen.cells(cfg)
    X, Y, Z = np.meshgrid(x, y, z, indexing='ij')
    ns = len(case['types'])
    period = (m['lx'], m['ly']) if m['periodic'] else None
    # expected: stratum (0 = top), body label
    es = np.full(X.shape, -1)
    eb = np.full(X.shape, -1)
    unsure = np.zeros(X.shape, bool)
    label = 0
    overlaps = np.zeros(X.shape, int)
    eroded = False
    for k in range(ns):
        i = ns - 1 - k
        t = case['types'][i]
        lo, hi = m['z0'] + case['fr'][i] * m['lz'], m['z0'] + case['fr'][i + 1] * m['lz']
        for p in sorted(t['te_xyz'], key=lambda p: -p[2]):
            d = inside_ellipsoid(X, Y, Z, p, (t['length'] / 2, t['width'] / 2, t['depth']), t['alpha'], period)
            unsure |= np.abs(d - 1) < 1e-9
            ins = d <= 1
            overlaps += ins
            free = ins & (es == -1)
            es[free] = k
            eb[free] = label
            eroded |= bool(np.any(free & (Z < lo)))
            label += 1
        bg = (Z >= lo) & (Z <= hi) & (es == -1)
        es[bg] = k
        label += 1
    ok = ~unsure
    need(np.all((r['strata'] == es)[ok]), 'wrong stratum at {}: {} instead of {}', *first(r['strata'], es, ok))
    need(np.all(((r['ha'] >= 0) == (eb >= 0))[ok]), 'body/background differ at {}: {} expected {}', *first((r['ha'] >= 0), (eb >= 0), ok))
    # bijection between bodies
    pairs = set(zip(r['ha'][ok].tolist(), eb[ok].tolist()))
    need(len(pairs) == len({a for a, b in pairs}) == len({b for a, b in pairs}),
         'cells of overlapping bodies belong to the wrong body: {}', sorted(pairs)[:10])
    fac = np.where(eb >= 0, ns + (ns - 1 - es), ns - 1 - es)
    need(np.all((r['facies'] == fac)[ok]), 'wrong facies at {}: {} instead of {}', *first(r['facies'], fac, ok))
    # independent of the order of the list
    r2 = gen.simulate(config(case, shuffle=case['perm']), env)
    for k in ('strata', 'ae', 'facies', 'azim', 'dip', 'hat'):
        need(np.array_equal(r[k], r2[k]), '{} depends on the order of te_xyz', k)
    need(len(set(zip(r['ha'].ravel().tolist(), r2['ha'].ravel().tolist()))) == len(np.unique(r['ha'])) == len(np.unique(r2['ha'])),
         'bodies depend on the order of te_xyz')
    lab = []
    if np.any(overlaps > 1):
        lab.append('overlap')
    if eroded:
        lab.append('erosion of a lower stratum')
    if lab and m['periodic']:
        lab.append('periodic')
    return lab


def first(a, b, ok):
    idx = np.argwhere((a != b) & ok)
    if len(idx) == 0:
        return (), None, None
    i = tuple(idx[0].tolist())
    return i, a[i], b[i]


# ------------------------------------------------------------------------------------------
def check_any(cfg, env):
    """brute force over the generated bodies of arbitrary models"""
    try:
        model = gen.build_model(cfg, env)
        g = model.grid
        X, Y, Z = g.X, g.Y, g.Z
        bodies = []
        for s in model.strata:
            for a in s.aes:
                a.num, a.object_list, a.top_surface.surface, a.bottom_surface.surface
    except (ImportError, AttributeError):
        raise Skip
    period = (g.lx, g.ly) if g.periodic else None
    es = np.full(X.shape, -1)
    ea = np.full(X.shape, -1)
    cand = {}
    done = np.zeros(X.shape, bool)
    unsure = np.zeros(X.shape, bool)
    multi = np.zeros(X.shape, int)
    ha = model.data['ha']
    hamatch = np.zeros(X.shape, bool)
    for si, s in enumerate(model.strata):
        for a in s.aes:
            top, bot = a.top_surface.surface[:, :, None], a.bottom_surface.surface[:, :, None]
            geo = cfg['elements'][a.type_name]['geometry']
            objs = []
            for o in a.object_list:
                try:
                    if geo == 'trough':
                        if period is not None and 2 * max(o.a, o.b) > min(period):
                            return
                        d = inside_ellipsoid(X, Y, Z, (o.x, o.y, o.z), (o.a, o.b, o.c), o.alpha, period)
                        unsure |= np.abs(d - 1) < 1e-9
                        ins, ztop = d <= 1, o.z
                    elif geo == 'sheet':
                        t, b = o.top_surface.surface[:, :, None], o.bottom_surface.surface[:, :, None]
                        unsure |= (np.abs(Z - t) < 1e-9) | (np.abs(Z - b) < 1e-9)
                        ins, ztop = (Z >= b) & (Z <= t), np.max(t)
                    else:
                        f = 4 * o.depth / o.width**2 * o.xy_dist[:, :, None]**2 - o.depth
                        dz = Z - o.ztop
                        unsure |= (np.abs(dz) < 1e-9) | (np.abs(dz - f) < 1e-9)
                        ins, ztop = (dz <= 0) & (dz >= f), o.ztop
                    # detached from the element: not judged
                    unsure |= ins.any(axis=2, keepdims=True) & (ztop < bot)
                    objs.append((ztop, ins, o.num_ha))
                except AttributeError:
                    raise Skip
            need(all(u[0] >= v[0] - 1e-9 for u, v in zip(objs, objs[1:])), 'bodies are not ordered from top to bottom')
            for ztop, ins, num in objs:
                multi += ins
                new = ins & ~done
                es[new], ea[new] = si, a.num
                done |= new
                # bodies with the same top: any of them
                same = np.zeros(X.shape, bool)
                hamatch |= new & (ha == num)
                for z2, ins2, n2 in objs:
                    if abs(z2 - ztop) < 1e-9:
                        hamatch |= new & ins2 & (ha == n2)
            unsure |= (np.abs(Z - top) < 1e-9) | (np.abs(Z - bot) < 1e-9)
            if geo != 'sheet':
                new = (Z >= bot) & (Z <= top) & ~done
                es[new], ea[new] = si, a.num
                done |= new
                hamatch |= new & (ha == -1)
    ok = ~unsure
    for name, e in (('strata', es), ('ae', ea)):
        need(np.all((model.data[name] == e)[ok]), name + ' at {}: {} instead of {}', *first(model.data[name], e, ok))
    need(np.all(hamatch[ok]), 'a cell at {} does not belong to the topmost body that contains it', np.argwhere(~hamatch & ok)[:1].tolist())
    if np.any(multi > 1):
        return 'overlap'


@st.composite
def any_cases(draw, rough):
    cfg = draw(gen.models(rough=rough, hydro=False, sig=False, grid=gen.grids(nx=(2, 8), ny=(2, 8), nz=(4, 14))))
    m = cfg['model']
    for e in cfg['elements'].values():
        if e['geometry'] == 'trough' and draw(st.integers(0, 3)) == 0:
            # every element of this type has these troughs, wherever it lies
            zs = draw(st.lists(st.integers(1, 39), min_size=1, max_size=4, unique=True))
            e['te_xyz'] = [[gen.rnd(m['x0'] + draw(gen.dec(0, 1, .01)) * m['lx']), gen.rnd(m['y0'] + draw(gen.dec(0, 1, .01)) * m['ly']), gen.rnd(m['z0'] + (k + .013) / 40 * m['lz'])] for k in zs]
    return cfg


SUBS = [Sub('manual', manual(), check_manual, quick=1200),
        Sub('any', any_cases(False), check_any, quick=500),
        Sub('any_rough', any_cases(True), check_any, quick=500)]
