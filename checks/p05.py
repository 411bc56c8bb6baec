"""P05: the grid tiles the requested domain exactly."""
import os
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen

PROPERTY = 'P05'
RULE = 'the domain has more than one cell'
ASSUMPTIONS = ['cell sizes 1/3 ... 1000 with up to 400 cells per direction for the grid itself, up to 40 cells for whole runs',
               'the domain size is the decimal product of cell size and number of cells']

SIZES = [2.5e-6, .0001, .0123457, .1234567, .01, .05, .1, .2, .25, .3, .35, .7, .9, 1., 1.1, 1.3, 2., 2.5, 3.3, 7., 10., 33.3, 1000.]
ORIGINS = st.one_of(st.just(0.), gen.dec(-10, 10, .1), gen.dec(-1000, 1000, 7.3), st.sampled_from([1e4, -12345.6, 500000.]))


@st.composite
def axes(draw, nmax):
    d = draw(st.sampled_from(SIZES))
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, nmax)))
    o = draw(ORIGINS)
    # keep coordinates representable relative to the cell size
    if abs(o) > 1e5 * d:
        o = 0.
    return {'o': o, 'd': d, 'n': n, 'l': gen.rnd(n * d)}


@st.composite
def grid_cases(draw):
    long = draw(st.integers(0, 2))
    ax = [draw(axes(400 if i == long else 8)) for i in range(3)]
    return {'axes': ax, 'periodic': draw(st.booleans())}


def check_grid(case, env):
    try:
        from hyvr.geo.grid import Grid
    except ImportError:
        raise Skip
    a = case['axes']
    g = Grid(*[x['o'] for x in a], *[x['d'] for x in a], *[x['l'] for x in a], int(case['periodic']))
    shape = tuple(x['n'] for x in a)
    if not all(hasattr(g, k) for k in ('nx', 'ny', 'nz', 'x', 'y', 'z', 'X', 'Y', 'Z')):
        raise Skip
    need((g.nx, g.ny, g.nz) == shape, 'number of cells {} instead of {}', (g.nx, g.ny, g.nz), shape)
    for k, name in enumerate('xyz'):
        c = a[k]['o'] + (np.arange(a[k]['n']) + .5) * a[k]['d']
        tol = 1e-8 * a[k]['d']
        v = np.asarray(getattr(g, name))
        need(v.shape == c.shape and np.all(np.abs(v - c) < tol), 'cell centres {}: {} instead of {}', name, v[:3], c[:3])
        V = np.asarray(getattr(g, name.upper()))
        need(V.shape == shape, 'shape of {} is {}', name.upper(), V.shape)
        s = [1, 1, 1]
        s[k] = -1
        need(np.all(np.abs(V - c.reshape(s)) < tol), 'coordinates {} of the cells are wrong', name.upper())
        C = getattr(g, name.upper() + '_centered', None)
        if C is not None:
            m = (c - (c[0] + c[-1]) / 2).reshape(s)
            need(C.shape == shape and np.all(np.abs(C - m) < tol), 'centred coordinates {} are wrong', name)
        for attr, val in ((name + '0', a[k]['o']), ('d' + name, a[k]['d']), ('l' + name, a[k]['l']),
                          (name + 'max', a[k]['o'] + a[k]['l'])):
            if hasattr(g, attr):
                need(abs(getattr(g, attr) - val) < tol, '{} is {} instead of {}', attr, getattr(g, attr), val)
    if max(shape) > 1:
        return ['cells<=12' if max(shape) <= 12 else 'cells>12', 'origin' if any(x['o'] for x in a) else 'no origin']


@st.composite
def run_cases(draw):
    long = draw(st.integers(0, 2))
    ax = [draw(axes(40 if i == long else 5)) for i in range(3)]
    for x in ax:
        x['n'] = min(x['n'], 40)
        x['l'] = gen.rnd(x['n'] * x['d'])
    omit = draw(st.sampled_from(['', '', 'dy', 'dz', 'dydz']))
    m = {}
    for i, c in enumerate('xyz'):
        m['d' + c] = ax[i]['d']
        if not (ax[i]['o'] == 0. and draw(st.booleans())):
            m[c + '0'] = ax[i]['o']
    for c in 'yz':
        if 'd' + c in omit:
            del m['d' + c]
    dx = m['dx']
    for i, c in enumerate('xyz'):
        m['l' + c] = gen.rnd(ax[i]['n'] * m.get('d' + c, dx))
        if abs(m.get(c + '0', 0.)) > 1e5 * m.get('d' + c, dx):
            m[c + '0'] = 0.
    m['periodic'] = draw(st.booleans())
    return {'m': m, 'n': [x['n'] for x in ax], 'hydro': draw(st.booleans()), 'marker': draw(st.integers(0, 10**6))}


def read_vtr(path):
    """independent reader of the appended raw format written by pyevtk"""
    import struct, re
    with open(path, 'rb') as f:
        raw = f.read()
    head, _, rest = raw.partition(b'<AppendedData encoding="raw">')
    data = rest[rest.index(b'_') + 1:]
    text = head.decode('latin-1')
    arrays = {}
    for m in re.finditer(r'<DataArray([^>]*)>', text):
        at = dict(re.findall(r'(\w+)="([^"]*)"', m.group(1)))
        off = int(at['offset'])
        size, = struct.unpack('<Q', data[off:off + 8])
        dt = {'Float64': '<f8', 'Int32': '<i4', 'Int64': '<i8', 'Float32': '<f4'}[at['type']]
        arrays[at['Name']] = np.frombuffer(data[off + 8:off + 8 + size], dt)
    ext = re.search(r'WholeExtent="([^"]*)"', text).group(1)
    return [int(v) for v in ext.split()], arrays


def check_run(case, env):
    m = case['m']
    e = {'geometry': 'sheet', 'structure': 'massive', 'contact_model': ['flat'], 'facies': ['a'], 'lens_thickness': -1}
    cfg = gen.single(m, e, ['a'], bg=('a', 0., 0.))
    cfg['strata']['ae_z_mean'] = [[1e7]]
    cfg['model']['hydraulics'] = case['hydro']
    cfg['run'] = {'runname': 'r', 'outputs': ['npz', 'vtr']}
    with env.scratch() as d:
        ini = os.path.join(d, 'c.ini')
        with open(ini, 'w') as f:
            f.write(gen.render(cfg))
        gen.run_hyvr(ini, None, 0)
        r = gen.load_npz(os.path.join(d, 'r', 'r.npz'))
        ext, arrays = read_vtr(os.path.join(d, 'r', 'r.vtr'))
    shape = tuple(case['n'])
    for k, v in r.items():
        need(v.shape[:3] == shape, 'array {} has shape {}, the domain has {} cells', k, v.shape, shape)
    need(np.all(r['ha'] == r['ha'][0, 0, 0]) and np.all(r['strata'] == 0), 'a single sheet does not fill the domain')
    need(ext == [0, shape[0], 0, shape[1], 0, shape[2]], 'extent of the vtr file {} for {} cells', ext, shape)
    dx = m['dx']
    for i, c in enumerate('xyz'):
        key = c + '_coordinates'
        need(key in arrays, 'vtr file has no {}', key)
        d_ = m.get('d' + c, dx)
        edges = m.get(c + '0', 0.) + np.arange(shape[i] + 1) * d_
        need(arrays[key].shape == edges.shape and np.all(np.abs(arrays[key] - edges) < 1e-8 * d_),
             'vtr cell edges in {}: {} ... {}', c, arrays[key][:2], arrays[key][-1:])
    if max(shape) > 1:
        return ['run', 'omitted sizes' if ('dy' not in m or 'dz' not in m) else 'all sizes']


SUBS = [Sub('grid', grid_cases(), check_grid, quick=6000),
        Sub('run', run_cases(), check_run, quick=1400)]
