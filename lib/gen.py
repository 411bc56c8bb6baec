"""
Generators for HyVR configurations (JSON-able dictionaries), rendering to parameter files, and
running the real code on them.

A configuration is {'run': {...}, 'model': {...}, 'strata': {...}, 'elements': {name: {...}},
'hydraulics': {...}, 'flowtrans': {...}, 'seed': int}.  Only keys that are present are written.
"""
import os, sys, shutil
import vp
from vp import Violation, Skip, need
import numpy as np
from hypothesis import strategies as st


# ------------------------------------------------------------------------------------------
# rendering
# ------------------------------------------------------------------------------------------
def fmt(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(fmt(x) for x in v) + ']'
    if isinstance(v, float):
        return repr(v)
    return str(v)


def render_section(name, d):
    lines = ['[{}]'.format(name)]
    for k, v in d.items():
        if v is None:
            continue
        lines.append('{} = {}'.format(k, fmt(v)))
    return '\n'.join(lines) + '\n'


def render(cfg):
    parts = []
    for s in ['run', 'model', 'strata']:
        if s in cfg:
            parts.append((s, cfg[s]))
    for name in cfg.get('order', list(cfg['elements'])):
        parts.append((name, cfg['elements'][name]))
    for s in ['hydraulics', 'flowtrans']:
        if s in cfg:
            parts.append((s, cfg[s]))
    style = cfg.get('style')
    if not style:
        return '\n'.join(render_section(*p) for p in parts)
    # the same content, written differently
    import random
    rng = random.Random(style['seed'])
    if style.get('shuffle'):
        rng.shuffle(parts)
    lines = ['# comment = 1'] if style.get('comments') else []
    for name, d in parts:
        lines.append('[{}]'.format(name))
        items = [(k, v) for k, v in d.items() if v is not None]
        if style.get('shuffle'):
            rng.shuffle(items)
        for k, v in items:
            if style.get('upper') and rng.random() < .3:
                k = k.upper()
            if style.get('comments') and rng.random() < .3:
                lines.append(rng.choice(['# {} = 99', '; {}', '', '#']).format(k))
            t = fmt(v)
            if style.get('breaks') and isinstance(v, list):
                t = ''.join(c + rng.choice(['', '', ' ', '\n    ', '\t']) if c in '[,' else c for c in t)
            lines.append(k + rng.choice(style.get('delims') or [' = ']) + t)
    return style.get('eol', '\n').join(lines).replace('\n', style.get('eol', '\n')).replace('\r\r', '\r') + '\n'


def write_ini(path, cfg):
    enc = (cfg.get('style') or {}).get('encoding', 'utf-8')
    with open(path, 'w', encoding=enc, newline='') as f:
        f.write(render(cfg))


@st.composite
def styles(draw):
    if draw(st.booleans()):
        return None
    return {'seed': draw(st.integers(0, 999)), 'shuffle': draw(st.booleans()), 'comments': draw(st.booleans()),
            'upper': draw(st.booleans()), 'breaks': draw(st.booleans()), 'delims': draw(st.sampled_from([[' = '], ['=', ' : ', '\t=  ']])),
            'eol': draw(st.sampled_from(['\n', '\r\n'])), 'encoding': draw(st.sampled_from(['utf-8', 'utf-8', 'utf-8-sig']))}


# ------------------------------------------------------------------------------------------
# running
# ------------------------------------------------------------------------------------------
def load_npz(path):
    with np.load(path) as f:
        return {k: f[k] for k in f.files}


def run_hyvr(inifile, flag=None, seed=0):
    import hyvr
    vp.seed_all(seed)
    hyvr.run(inifile, flag)


def simulate(cfg, env, seed=None, text=None, real=None):
    """Runs hyvr on the configuration and returns the arrays of the (first) realization."""
    seed = cfg.get('seed', 0) if seed is None else seed
    with env.scratch() as d:
        ini = os.path.join(d, 'case.ini')
        if text is None:
            cfg = dict(cfg)
            cfg['run'] = dict({'outputs': ['npz'], 'runname': 'r'}, **cfg.get('run', {}))
            text = render(cfg)
        with open(ini, 'w') as f:
            f.write(text)
        run_hyvr(ini, None, seed)
        sub = 'r' if real is None else os.path.join('r', 'real_{:03d}'.format(real))
        p = os.path.join(d, sub, 'r.npz')
        need(os.path.exists(p), 'the run has not written its npz file ' + sub + '/r.npz')
        return load_npz(p)


def internals():
    try:
        from hyvr.input.parameters import setup_from_inifile
        from hyvr.assign_points import assign_points
    except ImportError:
        raise Skip
    return setup_from_inifile, assign_points


def build_model(cfg, env, seed=None):
    """Generates and assigns a model in memory and returns the model object (uses internals)."""
    setup_from_inifile, assign_points = internals()
    seed = cfg.get('seed', 0) if seed is None else seed
    with env.scratch() as d:
        ini = os.path.join(d, 'case.ini')
        cfg = dict(cfg)
        cfg['run'] = dict({'outputs': ['npz'], 'runname': 'r'}, **cfg.get('run', {}))
        with open(ini, 'w') as f:
            f.write(render(cfg))
        run, model, hydraulics = setup_from_inifile(ini, None)
        vp.seed_all(seed)
        model.generate_model()
        assign_points(model)
        if model.generate_hydraulics is True:
            model.generate_hydraulic_parameters(hydraulics)
        return model


def rnd(x):
    """Removes floating point noise of computed decimal settings."""
    return float('{:.10g}'.format(x))


def cells(cfg):
    m = cfg['model']
    dx = m['dx']
    dy = m.get('dy', dx)
    dz = m.get('dz', dx)
    nx = int(round(m['lx'] / dx))
    ny = int(round(m['ly'] / dy))
    nz = int(round(m['lz'] / dz))
    x = m.get('x0', 0.) + (np.arange(nx) + .5) * dx
    y = m.get('y0', 0.) + (np.arange(ny) + .5) * dy
    z = m.get('z0', 0.) + (np.arange(nz) + .5) * dz
    return x, y, z


def diff_arrays(a, b, keys=None, what='results differ'):
    ka, kb = set(a), set(b)
    if keys is None:
        need(ka == kb, what + ': arrays {} / {}', sorted(ka), sorted(kb))
        keys = sorted(ka)
    for k in keys:
        need(k in a and k in b, what + ': array {} is missing', k)
        need(a[k].shape == b[k].shape, what + ': shape of {}: {} / {}', k, a[k].shape, b[k].shape)
        if not np.array_equal(a[k], b[k], equal_nan=True):
            i = np.argwhere(~((a[k] == b[k]) | ((a[k] != a[k]) & (b[k] != b[k]))))[0]
            raise Violation(what + ': {}{}: {} / {}'.format(k, tuple(i.tolist()), a[k][tuple(i)], b[k][tuple(i)]))


# ------------------------------------------------------------------------------------------
# strategies
# ------------------------------------------------------------------------------------------
FAC = ['cS', 'SG', 'S', 'sG', 's', 'bG', 'sGc', 'bGs', 'S1', 'S10', 'S11', '2']


def dec(lo, hi, step):
    """decimal numbers lo, lo+step, ..., hi"""
    n = int(round((hi - lo) / step))
    return st.integers(0, n).map(lambda k: rnd(lo + k * step))


@st.composite
def grids(draw, nx=(1, 9), ny=(1, 8), nz=(1, 12), periodic=None, origin=True, sizes=(.1, .25, .3, .5, 1., 2.),
          zsizes=(.1, .2, .25, .5), dyadic=False):
    if dyadic:
        sizes = [s for s in (.25, .5, 1., 2.)]
        zsizes = [.125, .25, .5]
    dx = draw(st.sampled_from(list(sizes)))
    m = {}
    if origin:
        o = dec(-20, 20, .25) if dyadic else st.one_of(st.just(0.), dec(-5, 5, .1), st.sampled_from([100., -1000.5]))
        m['x0'] = draw(o)
        m['y0'] = draw(o)
        m['z0'] = draw(o)
    m['dx'] = dx
    dy, dz = dx, dx
    dy = draw(st.sampled_from(list(sizes)))
    m['dy'] = dy
    dz = draw(st.sampled_from(list(zsizes)))
    m['dz'] = dz
    m['lx'] = rnd(draw(st.integers(*nx)) * dx)
    m['ly'] = rnd(draw(st.integers(*ny)) * dy)
    m['lz'] = rnd(draw(st.integers(*nz)) * dz)
    if periodic is None:
        m['periodic'] = draw(st.booleans())
    else:
        m['periodic'] = periodic
    return m


def contact(draw, dz, rough, depth=None):
    cm = ['flat'] if not (rough and draw(st.booleans())) else None
    if cm is None:
        var = draw(st.sampled_from([0.01, .05, .3])) * dz * 4
        cm = ['random', rnd(var), draw(st.sampled_from([.7, 2., 6.])), draw(st.sampled_from([.5, 3., 6.]))]
    if depth is not None:
        cm.insert(1, depth)
    return cm


def facies_options(draw, facs, d):
    fl = draw(st.lists(st.sampled_from(facs), min_size=1, max_size=draw(st.sampled_from([3, 3, 3, 7])), unique=True))
    d['facies'] = fl
    if draw(st.booleans()):
        d['altfacies'] = [draw(st.lists(st.sampled_from(fl), min_size=1, max_size=2, unique=True)) for _ in fl]


def angle_range(draw, lo, hi, fixed=False):
    a = draw(st.integers(lo, hi))
    if fixed or draw(st.booleans()):
        return [float(a), float(a)]
    b = draw(st.integers(lo, hi))
    return sorted([float(a), float(b)])


def trends(draw, d, keys):
    for k in keys:
        if draw(st.integers(0, 3)) == 0:
            d[k] = [draw(dec(.1, 3, .1)), draw(dec(.1, 3, .1))]


def element(draw, geometry, m, facs, rough=True, structures=None, hmean=None, allow_trend=True, lag=True, bg=True,
            hydro_trends=False):
    lx, ly, lz, dz = m['lx'], m['ly'], m['lz'], m['dz']
    d = {'geometry': geometry}
    if structures is None:
        structures = {'sheet': ['massive', 'dip'],
                      'trough': ['massive', 'dip', 'bulb', 'bulb_sets', 'random', 'flat'],
                      'channel': ['massive', 'dip']}[geometry]
    s = draw(st.sampled_from(structures))
    d['structure'] = s
    d['contact_model'] = contact(draw, dz, rough)
    facies_options(draw, facs, d)
    if draw(st.booleans()):
        d['dip'] = angle_range(draw, 0, 60)
    if draw(st.booleans()):
        d['azimuth'] = angle_range(draw, -180, 180)
    if s in ('dip', 'random'):
        d['dipset_dist'] = draw(st.sampled_from([.05, .2, .5, 1.5, 30.]))
    if s in ('bulb_sets', 'random'):
        d['bulbset_dist'] = draw(st.sampled_from([.05, .2, .7, 5.]))
    if allow_trend and draw(st.integers(0, 3)) == 0:
        d['size_ztrend'] = [draw(dec(.3, 2, .1)), draw(dec(.3, 2, .1))]
    if hydro_trends:
        trends(draw, d, ['k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'])
    if geometry == 'sheet':
        d['lens_thickness'] = draw(st.sampled_from([-1, rnd(dz * 1.3), rnd(dz * 2.7), rnd(lz), rnd(lz * .4)]))
        return d
    if bg:
        if draw(st.booleans()):
            d['bg_facies'] = draw(st.sampled_from(facs))
        if draw(st.booleans()):
            d['bg_azim'] = float(draw(st.integers(-90, 90)))
        if draw(st.booleans()):
            d['bg_dip'] = float(draw(st.integers(-40, 40)))
    d['agg'] = rnd(draw(st.sampled_from([.7, 1.3, 2.5, 6.])) * dz)
    if draw(st.booleans()):
        d['buffer'] = draw(dec(0, 1, .1))
    d['width'] = rnd(draw(st.sampled_from([.2, .5, 1.1])) * max(ly, m['dy'] * 2))
    d['depth'] = rnd(draw(st.sampled_from([.1, .3, .6])) * max(lz, 2 * dz))
    if lag and draw(st.integers(0, 2)) == 0:
        d['lag_height'] = rnd(draw(st.sampled_from([.1, .4, .9])) * d['depth'])
        d['lag_facies'] = draw(st.sampled_from(facs))
    if geometry == 'trough':
        d['length'] = rnd(draw(st.sampled_from([.2, .5, 1.3])) * max(lx, m['dx'] * 2))
        d['trough_density'] = rnd(draw(st.sampled_from([.3, 1., 3.])) / (lx * ly))
        d['paleoflow'] = angle_range(draw, -180, 180)
        if draw(st.booleans()):
            d['migrate'] = [rnd(draw(dec(-.5, .5, .1)) * lx), 0., rnd(draw(dec(-.5, .5, .1)) * ly), draw(st.sampled_from([0., .3]))]
    else:
        # 'h' is also the start value of a small meander, 'k' the wave number
        d['h'] = draw(st.sampled_from([.1, .4, .9]))
        d['k'] = draw(st.sampled_from([0., .1, 1.]))
        d['ds'] = draw(st.sampled_from([.3, .5, 1.]))
        d['eps_factor'] = draw(st.sampled_from([0., .01, .3]))
        d['channel_no'] = draw(st.integers(1, 2))
        if draw(st.booleans()):
            d['flow_angle'] = float(draw(st.integers(-180, 180)))
        if draw(st.booleans()):
            d['mig'] = rnd(draw(st.sampled_from([0., .2])) * ly)
    return d


def hydraulics(draw, facs, sig=True, trends_=False, mincorl=.2):
    n = len(facs)
    h = {'hydrofacies': facs}
    h['k_h'] = [draw(st.sampled_from([1e-13, 1e-8, 2.5e-6, 1e-5, 4.1e-4, 2e-3, 1e-2, .75])) for _ in facs]
    h['sig_y'] = [draw(st.sampled_from([0., .05, .3, 1.2])) if sig else 0. for _ in facs]
    h['k_ratio'] = [draw(st.sampled_from([1., 1.5, 2.3, 4., 10., .4])) for _ in facs]
    h['n'] = [draw(st.sampled_from([.05, .12, .25, .31, .4])) for _ in facs]
    h['sig_n'] = [draw(st.sampled_from([0., 1e-4, 5e-4])) if sig else 0. for _ in facs]
    c = st.sampled_from([mincorl, .8, 2., 5., 11.])
    h['ycorlengths'] = [[draw(c), draw(c), draw(c)] for _ in facs]
    h['ncorlengths'] = [[draw(c), draw(c), draw(c)] for _ in facs]
    if trends_:
        trends(draw, h, ['k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'])
    return h


DEPTHS = [.13, .27, .41, .63, .77, .91]


@st.composite
def models(draw, geometries=('sheet', 'trough', 'channel'), rough=True, max_strata=3, grid=None, het=None,
           sig=True, trends_=False, hydro=None, max_types=3, structures=None, allow_trend=True, nfac=(1, 5),
           bigz=False, lag=True, ties=False, depths=None):
    m = draw(grid if grid is not None else grids())
    facs = FAC[:draw(st.integers(*nfac))]
    if draw(st.booleans()):
        facs = facs[::-1]
    cfg = {'run': {}, 'model': dict(m)}
    if hydro is not None:
        cfg['model']['hydraulics'] = hydro
    if het is not None:
        cfg['model'].update(het)
    else:
        k = draw(st.integers(0, 3))
        if k == 0:
            cfg['model']['heterogeneity'] = False
        elif k == 1:
            cfg['model']['heterogeneity_level'] = 'facies'
        elif k == 2:
            cfg['model']['heterogeneity_level'] = 'internal'
    ntypes = draw(st.integers(1, max_types))
    names = ['ae{}'.format(i) for i in range(ntypes)]
    els = {}
    for nm in names:
        els[nm] = element(draw, draw(st.sampled_from(list(geometries))), m, facs, rough=rough,
                          structures=structures, allow_trend=allow_trend, hydro_trends=trends_, lag=lag)
    ns = draw(st.integers(1, max_strata))
    z0 = m.get('z0', 0.)
    depths = sorted(draw(st.lists(st.sampled_from(depths or DEPTHS), min_size=ns - 1, max_size=ns - 1, unique=True)))
    if ties:
        # exactly in the centres or on the faces of cells
        n = int(round(m['lz'] / m['dz']))
        k = draw(st.lists(st.integers(1, 2 * n - 1), max_size=ns - 1, unique=True))
        depths = [j / (2 * n) for j in sorted(k)]
        ns = len(depths) + 1
    s = {'strata': ['s{}'.format(i) for i in range(ns)]}
    s['strata_contact_models'] = [contact(draw, m['dz'], rough, rnd(z0 + f * m['lz'])) for f in depths]
    s['ae'] = list(draw(st.permutations(names))) if ntypes > 1 else names
    s['ae_in_strata'] = [draw(st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True)) for _ in range(ns)]
    s['ae_prob'] = [[draw(st.sampled_from([.2, .5, 1.])) for _ in l] for l in s['ae_in_strata']]
    zc = [30.] if bigz else [.35, .6, 1.1, 30.]
    s['ae_z_mean'] = [[rnd(draw(st.sampled_from(zc)) * m['lz']) for _ in l] for l in s['ae_in_strata']]
    s['avul_prob'] = [[draw(st.sampled_from([0., .5, 1.]))] for _ in range(ns)]
    s['avul'] = []
    for i in range(ns):
        hm = min(s['ae_z_mean'][i])
        lo = rnd(draw(st.sampled_from([0., .1])) * hm)
        s['avul'].append([lo, rnd(lo + draw(st.sampled_from([0., .2])) * hm)])
    s['bg_facies'] = [draw(st.sampled_from(facs)) for _ in range(ns)]
    s['bg_azim'] = [float(draw(st.integers(-90, 90))) for _ in range(ns)]
    s['bg_dip'] = [float(draw(st.integers(-40, 40))) for _ in range(ns)]
    cfg['strata'] = s
    cfg['elements'] = els
    cfg['hydraulics'] = hydraulics(draw, facs, sig=sig, trends_=trends_)
    cfg['seed'] = draw(st.integers(0, 2**20))
    return cfg


# ------------------------------------------------------------------------------------------
# configuration of a single stratum with one element (analytical oracles)
# ------------------------------------------------------------------------------------------
def single(m, elem, facs, seed=0, bg=('bg', 0., 0.), hyd=None, contacts=None):
    facs = list(facs)
    n = len(facs)
    h = hyd or {'hydrofacies': facs, 'k_h': 1e-3, 'sig_y': 0., 'k_ratio': 1., 'n': .3, 'sig_n': 0.,
                'ycorlengths': 1., 'ncorlengths': 1.}
    return {
        'run': {}, 'model': dict(m),
        'strata': {'strata': ['s'], 'strata_contact_models': [], 'ae': ['e'], 'ae_in_strata': [['e']],
                   'ae_prob': [[1.]], 'ae_z_mean': [[1e4]], 'avul_prob': [[0.]], 'avul': [[0., 0.]],
                   'bg_facies': [bg[0]], 'bg_azim': [float(bg[1])], 'bg_dip': [float(bg[2])]},
        'elements': {'e': elem}, 'hydraulics': h, 'seed': seed,
    }
