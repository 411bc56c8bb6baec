"""P17: all data formats carry the same model."""
import os, pickle
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen
from p05 import read_vtr

PROPERTY = 'P17'
RULE = 'at least two data formats are written for a model in which some array is not constant'
ASSUMPTIONS = ['files are read with numpy, pickle, scipy.io, h5py and an own reader of the vtr format']

FMT = ['npz', 'py', 'mat', 'h5', 'vtr']
GEO = {'facies', 'ae', 'ha', 'hat', 'strata', 'azim', 'dip'}
HYD = {'k_iso', 'poros', 'anirat', 'ktensors'}


@st.composite
def cases(draw):
    long = draw(st.integers(0, 5))
    g = gen.grids(nx=(1, 7), ny=(1, 6), nz=(1, 8))
    if long == 0:
        g = gen.grids(nx=(1, 2), ny=(1, 30), nz=(1, 3))
    elif long == 1:
        g = gen.grids(nx=(1, 7), ny=(1, 6), nz=(1, 8), sizes=(.0125, .00625, .0031, 12.5, 125.), zsizes=(.0125, .0031, .00125, 12.5))
    cfg = draw(gen.models(grid=g, hydro=draw(st.booleans())))
    fm = draw(st.lists(st.sampled_from(FMT), min_size=2, max_size=5, unique=True))
    numsim = draw(st.sampled_from([1, 1, 1, 2, 3]))
    return {'cfg': cfg, 'fmt': fm, 'numsim': numsim, 'name': draw(st.sampled_from(['r', 'my run', 'v1.5', 'R-x'])),
            'hgs': cfg['model']['hydraulics'] and draw(st.booleans())}


def read(fmt, base):
    if fmt == 'npz':
        return gen.load_npz(base + '.npz')
    if fmt == 'py':
        with open(base + '.pickle', 'rb') as f:
            return pickle.load(f)
    if fmt == 'mat':
        import scipy.io as sio
        return {k: v for k, v in sio.loadmat(base + '.mat').items() if not k.startswith('__')}
    if fmt == 'h5':
        import h5py
        with h5py.File(base + '.h5', 'r') as f:
            return {k: np.array(f[k]) for k in f}


def same(ref, name, got, fmt):
    need(set(got) == set(ref), '{} file has arrays {}, {} has {}', fmt, sorted(got), name, sorted(ref))
    for k, v in ref.items():
        w = np.asarray(got[k])
        s = v.shape
        need(w.shape == s, '{}: shape of {} is {} instead of {}', fmt, k, w.shape, s)
        need(w.dtype == v.dtype, '{}: type of {} is {} instead of {}', fmt, k, w.dtype, v.dtype)
        need(np.array_equal(w, v, equal_nan=v.dtype.kind == 'f'), '{}: values of {} differ from those in {}', fmt, k, name)


def check_vtr(ref, path, cfg):
    ext, arr = read_vtr(path)
    m = cfg['model']
    x, y, z = gen.cells(cfg)
    shape = (len(x), len(y), len(z))
    need(ext == [0, shape[0], 0, shape[1], 0, shape[2]], 'extent of the vtr file {} for {} cells', ext, shape)
    for i, c in enumerate('xyz'):
        e = arr.pop(c + '_coordinates')
        d = m.get('d' + c, m['dx'])
        w = m.get(c + '0', 0.) + np.arange(shape[i] + 1) * d
        need(e.shape == w.shape and np.all(np.abs(e - w) < 1e-6 * d), 'vtr cell edges in {}: {}', c, e[:3])
    names = {k for k, v in ref.items() if v.ndim == 3}
    need(set(arr) == names, 'vtr file has arrays {} instead of {}', sorted(arr), sorted(names))
    for k in names:
        need(arr[k].size == ref[k].size, 'vtr: {} has {} values for {} cells', k, arr[k].size, ref[k].size)
        w = arr[k].reshape(shape, order='F')
        need(np.array_equal(w, ref[k], equal_nan=ref[k].dtype.kind == 'f'), 'vtr: values of {} are not those of their cells', k)


def check(case, env):
    cfg = dict(case['cfg'])
    nm = case['name']
    cfg['run'] = {'runname': nm, 'outputs': case['fmt'] + (['hgs'] if case['hgs'] else []), 'numsim': case['numsim']}
    x, y, z = gen.cells(cfg)
    shape = (len(x), len(y), len(z))
    if case['hgs']:
        cfg['flowtrans'] = {'hin': [2., 0., 0.], 'hout': [1., 0., 0.]}
    lab = None
    with env.scratch() as d:
        ini = os.path.join(d, 'c.ini')
        with open(ini, 'w') as f:
            f.write(gen.render(cfg))
        gen.run_hyvr(ini, None, cfg['seed'])
        for k in range(1, case['numsim'] + 1):
            sub = os.path.join(d, nm) if case['numsim'] == 1 else os.path.join(d, nm, 'real_{:03d}'.format(k))
            data = {f: read(f, os.path.join(sub, nm)) for f in case['fmt'] if f != 'vtr'}
            ref, rname = None, None
            for f in ('npz', 'py', 'h5', 'mat'):
                if f in data:
                    ref, rname = data[f], f
                    break
            if ref is None:
                continue
            need(set(ref) >= GEO | (HYD if cfg['model']['hydraulics'] else set()), '{} file has only the arrays {}', rname, sorted(ref))
            for a, v in ref.items():
                need(v.shape[:3] == shape, '{}: shape of {} is {}', rname, a, v.shape)
            for f, got in data.items():
                if f != rname:
                    same(ref, rname, got, f)
            if 'vtr' in case['fmt']:
                check_vtr(ref, os.path.join(sub, nm + '.vtr'), cfg)
            if any(np.ptp(v) > 0 for v in ref.values()):
                lab = ['fmt ' + f for f in case['fmt']] + ['hydraulics' if cfg['model']['hydraulics'] else 'geology only', '{} realizations'.format(case['numsim'])]
    return lab


SUBS = [Sub('formats', cases(), check, quick=1800)]
