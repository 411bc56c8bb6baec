"""P16: conductivity tensors."""
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen

PROPERTY = 'P16'
RULE = 'some cell has an anisotropy ratio different from one and a nonzero dip'
ASSUMPTIONS = ['relative tolerance 1e-9 of the conductivity', 'function alone: anisotropy ratios 0.01 ... 1000, angles in several full turns']


def model(k, azim, dip, anirat):
    """Rotation of diag(K, K, K/ratio): azimuth clockwise, dip tilts the vertical towards the azimuth."""
    c, s = np.cos(azim), np.sin(azim)
    cp, sp = np.cos(dip), np.sin(dip)
    z, o = np.zeros_like(c), np.ones_like(c)
    Ra = np.array([[c, s, z], [-s, c, z], [z, z, o]])           # x -> direction of the azimuth
    Rd = np.array([[cp, z, sp], [z, o, z], [-sp, z, cp]])       # z -> tilted towards x
    R = np.einsum('ab...,bc...->ac...', Ra, Rd)
    D = np.array([k, k, k / anirat])
    return np.einsum('ab...,b...,cb...->...ac', R, D, R)


def verify(T, k, azim, dip, anirat):
    need(T.shape == k.shape + (3, 3), 'shape of the tensors {} for {} cells', T.shape, k.shape)
    E = model(k, azim, dip, anirat)
    tol = 1e-9 * np.maximum(k, k / anirat)[..., None, None]
    bad = ~(np.abs(T - E) <= tol)
    if bad.any():
        i = tuple(np.argwhere(bad)[0].tolist())
        c = i[:-2]
        need(False, 'tensor component {} of cell {} is {:.6g} instead of {:.6g} (K {}, azimuth {:.6g}, dip {:.6g} rad, ratio {})', i[-2:], c, T[i], E[i],
             k[c], azim[c], dip[c], anirat[c])
    need(np.array_equal(T, np.swapaxes(T, -1, -2)) or np.all(np.abs(T - np.swapaxes(T, -1, -2)) <= tol), 'tensor is not symmetric')
    ev = np.linalg.eigvalsh(T)
    ex = np.sort(np.stack([k, k, k / anirat], -1), -1)
    need(np.all(np.abs(ev - ex) <= 1e-8 * ex.max(-1)[..., None]), 'eigenvalues of the tensor')


ANG = st.one_of(st.sampled_from([0., 30., 45., 90., 180., -90., 360., 720., 1e-3]), st.floats(-720, 720, allow_nan=False))
DIP = st.one_of(st.sampled_from([0., 30., 45., 90., -15., 150.]), st.floats(-90, 90, allow_nan=False), st.floats(-400, 400, allow_nan=False))
RAT = st.one_of(st.sampled_from([1., 2., 10., .5]), st.floats(.01, 1000))
KK = st.one_of(st.sampled_from([1., 1e-5, 3.7e-3]), st.floats(1e-12, 1e3))


@st.composite
def func_cases(draw):
    shape = [draw(st.integers(1, 3)) for _ in range(3)]
    n = int(np.prod(shape))
    cells = [[draw(KK), draw(ANG), draw(DIP), draw(RAT)] for _ in range(n)]
    return {'shape': shape, 'cells': cells, 'garbage': draw(st.sampled_from([0., 7., float(10**9)]))}


def check_func(case, env):
    try:
        from hyvr.optimized import set_anisotropic_ktensor
    except ImportError:
        raise Skip
    shape = tuple(case['shape'])
    c = np.array(case['cells']).reshape(shape + (4,))
    k, az, dip, rat = (np.ascontiguousarray(c[..., i]) for i in range(4))
    az, dip = np.deg2rad(az), np.deg2rad(dip)
    T = np.full(shape + (3, 3), case['garbage'])
    ins = [a.copy() for a in (k, az, dip, rat)]
    out = set_anisotropic_ktensor(T, k, az, dip, rat)
    if out is not None:
        T = out
    for a, b in zip(ins, (k, az, dip, rat)):
        need(np.array_equal(a, b), 'an input array was changed')
    verify(T, k, az, dip, rat)
    if np.any((rat != 1) & (dip != 0)):
        return 'function, {} cells'.format('1' if len(case['cells']) == 1 else '>1')


@st.composite
def run_cases(draw):
    return draw(gen.models(grid=gen.grids(nx=(1, 7), ny=(1, 6), nz=(1, 9)), trends_=draw(st.booleans())))


def check_run(cfg, env):
    r = gen.simulate(cfg, env)
    need('ktensors' in r, 'no tensors in the output')
    verify(r['ktensors'], r['k_iso'], np.deg2rad(r['azim']), np.deg2rad(r['dip']), r['anirat'])
    a = r['anirat'] != 1
    if np.any(a & (r['dip'] != 0)):
        return ['run', 'azimuth' if np.any(a & (r['dip'] != 0) & (r['azim'] != 0)) else 'no azimuth', 'angles:{}'.format(min(4, len(np.unique(r['dip']))))]


SUBS = [Sub('function', func_cases(), check_func, quick=6000),
        Sub('run', run_cases(), check_run, quick=1600)]
