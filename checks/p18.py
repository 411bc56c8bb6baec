"""P18: inputs of flow models."""
import os
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen

PROPERTY = 'P18'
RULE = 'the conductivity is not constant and the domain has at least two different numbers of cells'
ASSUMPTIONS = ['at least two columns (inlet and outlet are different cells)', 'MODFLOW files are read with flopy; relative tolerance 1e-5 (single precision in the files)',
               'run names without blanks (a restriction of MODFLOW)']


@st.composite
def cases(draw, fmts):
    nx, ny = draw(st.sampled_from([((2, 7), (1, 6))] * 3 + [((2, 3), (1, 30)), ((2, 30), (1, 3))]))
    cfg = draw(gen.models(grid=gen.grids(nx=nx, ny=ny, nz=(1, 8), zsizes=(.1, .2, .25, .5, .0125, .0031, 7.)), max_strata=2, max_types=2))
    hin, hout = draw(gen.dec(-3, 30, .5)), draw(gen.dec(-3, 30, .25))
    kind = draw(st.sampled_from(['heads', 'heads', 'gradh'])) if fmts == ['mf6'] else 'heads'
    if kind == 'heads':
        cfg['flowtrans'] = {'hin': [hin, draw(gen.dec(0, 5, 1)), 0.], 'hout': [hout, 0., draw(gen.dec(0, 5, 1))]}
    else:
        cfg['flowtrans'] = {'gradh': draw(st.sampled_from([.001, .01, -.02, .3, 0.]))}
    numsim = draw(st.sampled_from([1, 1, 2]))
    return {'cfg': cfg, 'fmt': fmts, 'numsim': numsim, 'name': draw(st.sampled_from(['r', 'run2', 'R_x']))}


def close(a, b):
    return a.shape == b.shape and np.all(np.abs(a - b) <= 1e-5 * np.abs(b) + 1e-30)


def layers(a):
    """model order (x, y, z) -> layer from the top, row along y, column along x"""
    nx, ny, nz = a.shape
    out = np.empty((nz, ny, nx))
    for l in range(nz):
        for j in range(ny):
            out[l, j, :] = a[:, j, nz - 1 - l]
    return out


def where(got, exp):
    got = np.asarray(got, float)
    if got.shape != exp.shape:
        return 'shape {} instead of {}'.format(got.shape, exp.shape)
    i = tuple(np.argwhere(~(np.abs(got - exp) <= 1e-5 * np.abs(exp) + 1e-30))[0].tolist())
    return 'cell (layer, row, column) {}: {} instead of {}'.format(i, got[i], exp[i])


def extent(m, shape, top, botm, delr, delc, what):
    nx, ny, nz = shape
    z0, dz = m.get('z0', 0.), m['dz']
    ctol = 1e-5 * max(dz, abs(z0), abs(z0 + m['lz']))
    need(np.shape(delr) == (nx,) and np.allclose(delr, m['dx'], rtol=1e-5), '{}: column widths {} for dx {}', what, delr, m['dx'])
    need(np.shape(delc) == (ny,) and np.allclose(delc, m['dy'], rtol=1e-5), '{}: row widths {} for dy {}', what, delc, m['dy'])
    need(np.shape(top) == (ny, nx) and np.all(np.abs(top - (z0 + m['lz'])) <= ctol), '{}: top {}', what, np.ravel(top)[0])
    exp = z0 + m['lz'] - dz * (np.arange(nz) + 1)
    need(np.shape(botm) == (nz, ny, nx) and np.all(np.abs(botm - exp[:, None, None]) <= ctol), '{}: layer bottoms {} instead of {}', what, np.array(botm)[:, 0, 0], exp)


def check_mf(case, sub, r):
    import flopy
    cfg, m = case['cfg'], case['cfg']['model']
    shape = r['k_iso'].shape
    ws = os.path.join(sub, 'MODFLOW')
    mf = flopy.modflow.Modflow.load(case['name'] + '.nam', model_ws=ws, check=False, verbose=False)
    need((mf.nlay, mf.nrow, mf.ncol) == shape[::-1], 'MODFLOW: layers, rows, columns {} for {} cells', (mf.nlay, mf.nrow, mf.ncol), shape)
    extent(m, shape, mf.dis.top.array, mf.dis.botm.array, mf.dis.delr.array, mf.dis.delc.array, 'MODFLOW')
    hk = mf.lpf.hk.array
    e = layers(r['k_iso'])
    need(close(hk, e), 'MODFLOW: conductivity, {}', '' if close(hk, e) else where(hk, e))
    need(np.all(mf.lpf.layvka.array != 0), 'MODFLOW: layvka {} although ratios are written', mf.lpf.layvka.array)
    e = layers(r['anirat'])
    v = mf.lpf.vka.array
    need(close(v, e), 'MODFLOW: anisotropy, {}', '' if close(v, e) else where(v, e))
    ib = mf.bas6.ibound.array
    need(np.all(ib[:, :, [0, -1]] < 0) and np.all(ib[:, :, 1:-1] > 0), 'MODFLOW: fixed heads are not in the first and last column')
    s = mf.bas6.strt.array
    ft = cfg['flowtrans']
    need(np.allclose(s[:, :, 0], ft['hin'][0], rtol=1e-5), 'MODFLOW: inlet head {} instead of {}', s[0, 0, 0], ft['hin'][0])
    need(np.allclose(s[:, :, -1], ft['hout'][0], rtol=1e-5), 'MODFLOW: outlet head {} instead of {}', s[0, 0, -1], ft['hout'][0])


def check_mf6(case, sub, r):
    import flopy
    cfg, m = case['cfg'], case['cfg']['model']
    shape = r['k_iso'].shape
    sim = flopy.mf6.MFSimulation.load(sim_ws=os.path.join(sub, 'mf6'), verbosity_level=0)
    g = sim.get_model(case['name'])
    need((g.dis.nlay.get_data(), g.dis.nrow.get_data(), g.dis.ncol.get_data()) == shape[::-1], 'MODFLOW 6: layers, rows, columns')
    extent(m, shape, g.dis.top.array, g.dis.botm.array, g.dis.delr.array, g.dis.delc.array, 'MODFLOW 6')
    for name, got, exp in (('k', g.npf.k, r['k_iso']), ('k33', g.npf.k33, r['k_iso'] / r['anirat']), ('angle1', g.npf.angle1, r['azim']), ('angle2', g.npf.angle2, r['dip'])):
        e = layers(exp)
        v = got.array
        need(v is not None, 'MODFLOW 6: {} is missing', name)
        need(close(v, e), 'MODFLOW 6: {}, {}', name, '' if close(v, e) else where(v, e))
    with open(os.path.join(sub, 'mf6', case['name'] + '.npf')) as f:
        opts = f.read().lower().split('end options')[0].split()
    need('xt3d' in opts, 'MODFLOW 6: XT3D is not switched on for inclined layers: options {}', opts)
    if g.npf.angle3.array is not None:
        need(np.all(g.npf.angle3.array == 0), 'MODFLOW 6: angle3 is not zero')
    ft = cfg['flowtrans']
    if 'hin' in ft:
        hin, hout = ft['hin'][0], ft['hout'][0]
    else:
        hin, hout = 1 + m['lx'] * ft['gradh'], 1.
    s = g.ic.strt.array
    need(s is not None and np.shape(s) == shape[::-1], 'MODFLOW 6: shape of the initial heads {}', np.shape(s))
    lin = hin + (hout - hin) * np.arange(shape[0]) / (shape[0] - 1)
    need(np.all(np.abs(s - lin) <= 1e-5 * max(1, abs(hin), abs(hout))), 'MODFLOW 6: initial heads along x are {} instead of {}', np.ravel(s[0, 0]), lin)
    rec = g.chd.stress_period_data.get_data(0)
    heads = {}
    for q in rec:
        need(tuple(q[0]) not in heads, 'MODFLOW 6: cell {} has two heads', q[0])
        heads[tuple(int(v) for v in q[0])] = float(q[1])
    nz, ny, nx = shape[::-1]
    exp = {}
    for l in range(nz):
        for j in range(ny):
            exp[(l, j, 0)] = hin
            exp[(l, j, nx - 1)] = hout
    need(set(heads) == set(exp), 'MODFLOW 6: heads are not given in the first and last column: {}', sorted(set(heads) ^ set(exp))[:4])
    for c, v in exp.items():
        need(abs(heads[c] - v) <= 1e-5 * max(1, abs(v)), 'MODFLOW 6: head of cell {} is {} instead of {}', c, heads[c], v)


def check_hgs(case, sub, r):
    n = r['poros'].size
    T = np.loadtxt(os.path.join(sub, 'HGS', 'ktensors.txt'), ndmin=2)
    P = np.loadtxt(os.path.join(sub, 'HGS', 'porosity.txt'), ndmin=2)
    need(T.shape == (n, 7) and P.shape == (n, 2), 'HGS: tables of shape {} and {} for {} cells', T.shape, P.shape, n)
    need(np.array_equal(T[:, 0], np.arange(1, n + 1)) and np.array_equal(P[:, 0], np.arange(1, n + 1)), 'HGS: running numbers')
    for c, (i, j) in enumerate([(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]):
        e = r['ktensors'][..., i, j].reshape(n)
        need(np.all(np.abs(T[:, c + 1] - e) <= 6e-4 * np.abs(e) + 1e-300), 'HGS: component {}{} of the tensors', 'xyz'[i], 'xyz'[j])
    e = r['poros'].reshape(n)
    need(np.all(np.abs(P[:, 1] - e) <= 5.01e-4 + 1e-9), 'HGS: porosity')


WHAT = {'mf': check_mf, 'mf6': check_mf6, 'hgs': check_hgs}


def check(case, env):
    cfg = dict(case['cfg'])
    nm = case['name']
    cfg['run'] = {'runname': nm, 'outputs': case['fmt'] + ['npz'], 'numsim': case['numsim']}
    lab = None
    with env.scratch() as d:
        ini = os.path.join(d, 'c.ini')
        with open(ini, 'w') as f:
            f.write(gen.render(cfg))
        gen.run_hyvr(ini, None, cfg['seed'])
        for k in range(1, case['numsim'] + 1):
            sub = os.path.join(d, nm) if case['numsim'] == 1 else os.path.join(d, nm, 'real_{:03d}'.format(k))
            r = gen.load_npz(os.path.join(sub, nm + '.npz'))
            for f in case['fmt']:
                WHAT[f](case, sub, r)
            s = r['k_iso'].shape
            if np.ptp(r['k_iso']) > 0 and len(set(s)) > 1:
                lab = ['fmt ' + f for f in case['fmt']] + [list(cfg['flowtrans'])[0], 'three sizes' if len(set(s)) == 3 else 'two sizes']
    return lab


SUBS = [Sub('mf2005', cases(['mf']), check, quick=300),
        Sub('mf6', cases(['mf6']), check, quick=200),
        Sub('hgs', cases(['hgs']), check, quick=1200),
        Sub('mixed', cases(['hgs', 'mf6', 'mf']), check, quick=80)]
