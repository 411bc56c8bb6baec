"""P11: sheets and lenses."""
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import gen

PROPERTY = 'P11'
RULE = 'an element of sheets with lenses that spans at least two lenses'
ASSUMPTIONS = ['lens thickness from 0.3 cells to more than the element', 'with rough or random element contacts the elevation of the '
               'highest point is only known up to one cell: the lens boundaries must agree with some elevation in that interval']


def sheet(draw, m, facs, trend):
    dz, lz = m['dz'], m['lz']
    e = {'geometry': 'sheet', 'structure': draw(st.sampled_from(['massive', 'dip'])), 'contact_model': ['flat'],
         'facies': draw(st.lists(st.sampled_from(facs), min_size=1, max_size=3, unique=True)),
         'lens_thickness': draw(st.one_of(st.just(-1), st.sampled_from([.7, 1.3, 1.9, 2.7, 4.1]).map(lambda f: gen.rnd(f * dz)),
                                          gen.dec(.15, 1.2, .07).map(lambda f: gen.rnd(f * lz))))}
    if e['structure'] == 'dip':
        e['dipset_dist'] = draw(st.sampled_from([.1, .4, 3.]))
    e['dip'] = sorted([float(draw(st.integers(-50 if e['structure'] == 'massive' or draw(st.booleans()) else 0, 50))), float(draw(st.integers(0, 50)))])
    e['azimuth'] = sorted([float(draw(st.integers(-180, 180))), float(draw(st.integers(-180, 180)))])
    if trend and draw(st.booleans()):
        e['size_ztrend'] = [draw(gen.dec(.4, 2, .1)), draw(gen.dec(.4, 2, .1))]
    return e


@st.composite
def cases(draw, mode):
    m = draw(gen.grids(nx=(1, 6), ny=(1, 5), nz=(4, 24), zsizes=(.1, .2, .25, .5)))
    facs = ['a', 'b', 'c', 'd']
    ns = draw(st.integers(1 if mode != 'rough' else 2, 3))
    fr = sorted(draw(st.lists(st.sampled_from([.21, .38, .52, .66, .83]), min_size=ns - 1, max_size=ns - 1, unique=True)))
    els = {'e%d' % i: sheet(draw, m, facs, mode == 'flat') for i in range(ns)}
    cms = []
    for f in fr:
        z = gen.rnd(m['z0'] + f * m['lz'])
        if mode == 'rough':
            cms.append(['random', z, gen.rnd((draw(st.sampled_from([.02, .05, .1])) * m['lz'])**2),
                        gen.rnd(m['lx'] * draw(st.sampled_from([.2, .6]))), gen.rnd(m['ly'] * draw(st.sampled_from([.2, .6])))])
        else:
            cms.append(['flat', z])
    zm = [[1e4]] * ns
    if mode == 'elements':
        zm = [[gen.rnd(draw(st.sampled_from([.2, .4, .7])) * m['lz'])] for _ in range(ns)]
    cfg = gen.single(m, None, facs, seed=draw(st.integers(0, 2**20)), bg=('a', 0., 0.))
    cfg['model']['hydraulics'] = False
    cfg['elements'] = els
    s = cfg['strata']
    s['strata'] = ['s%d' % i for i in range(ns)]
    s['strata_contact_models'] = cms
    s['ae'] = list(els)
    s['ae_in_strata'] = [[n] for n in els]
    s['ae_z_mean'] = zm
    for k in ('ae_prob', 'avul_prob', 'avul', 'bg_facies', 'bg_azim', 'bg_dip'):
        s[k] = s[k] * ns
    return {'mode': mode, 'cfg': cfg}


def partition_ok(zz, ids, zmax, t):
    """are the ids (per row, from top to bottom) the lenses that start at zmax?"""
    q = (zmax - zz) / t
    ok = np.abs(q - np.round(q)) > 1e-6
    lev = np.floor(q).astype(int)[ok]
    return np.array_equal(np.diff(lev) != 0, np.diff(ids[ok]) != 0)


def check(case, env):
    cfg, mode = case['cfg'], case['mode']
    m = cfg['model']
    r = gen.simulate(cfg, env)
    x, y, z = gen.cells(cfg)
    dz = m['dz']
    ns = len(cfg['strata']['strata'])
    facs = cfg['hydraulics']['hydrofacies']
    need(np.all(r['ha'] >= 0), 'sheets leave cells unfilled')
    ha, ae = r['ha'], r['ae']
    labels = set()
    nontrivial = False
    zb = [m['z0']] + [c[1] for c in cfg['strata']['strata_contact_models']] + [m['z0'] + m['lz']]
    for a in np.unique(ae):
        sel = ae == a
        k = int(r['strata'][sel][0])
        i = ns - 1 - k
        e = cfg['elements']['e%d' % i]
        need(np.all(r['hat'][sel] == i), 'wrong element type')
        rows = [j for j in range(len(z) - 1, -1, -1) if sel[:, :, j].any()]
        zz = z[rows]
        ids = []
        for j in rows:
            u = np.unique(ha[:, :, j][sel[:, :, j]])
            need(len(u) == 1, 'several sheets at the same elevation of one element')
            ids.append(int(u[0]))
        ids = np.array(ids)
        need(len(set(ids.tolist())) == 1 + np.count_nonzero(np.diff(ids)), 'a sheet is not connected: {}', ids.tolist())
        t = e['lens_thickness']
        if t == -1:
            need(len(set(ids.tolist())) == 1, 'several sheets without lens thickness')
            labels.add('single')
        elif mode == 'flat':
            lo, hi = zb[i], zb[i + 1]
            zt = e.get('size_ztrend')
            if zt is not None:
                t = t * (zt[0] + ((lo + hi) / 2 - m['z0']) / m['lz'] * (zt[1] - zt[0]))
                labels.add('size trend')
            q = (hi - zz) / t
            need(np.all(zz <= hi) and np.all(zz >= lo), 'sheet outside its stratum')
            ok = np.abs(q - np.round(q)) > 1e-6
            lev = np.floor(q).astype(int)[ok]
            got = ids[ok]
            need(np.array_equal(np.diff(lev) != 0, np.diff(got) != 0), 'lenses of thickness {:.4f} from {}: sheets {} at elevations {}',
                 t, hi, got.tolist(), zz[ok].tolist())
            labels.add('flat')
            nontrivial |= len(set(ids.tolist())) > 1
        else:
            # unknown elevation of the highest point
            if k == 0 and (mode == 'rough' or a == 0):
                c0 = c1 = m['z0'] + m['lz']
            elif mode == 'elements':
                c0, c1 = zz[0], min(zz[0] + dz, zb[i + 1])
            else:
                # above every cell, not above the lowest cell of the stratum on top in every column
                c0 = zz[0]
                up = np.where(ae < a, z[None, None, :], m['z0'] + m['lz']).min(axis=2)
                c1 = up[sel.any(axis=2)].max()
                # columns without a cell of this element can have higher contacts
                if not sel.any(axis=2).all():
                    c1 = max(c1, up.max())
            crit = [c0, c1]
            for zj in zz:
                n0, n1 = int(np.floor((c0 - zj) / t)), int(np.ceil((c1 - zj) / t))
                crit += [zj + n * t for n in range(max(0, n0), n1 + 1) if c0 < zj + n * t < c1]
            crit = np.unique(crit)
            cand = [(u + v) / 2 for u, v in zip(crit[:-1], crit[1:])] + list(crit + 1e-7) + list(crit - 1e-7)
            need(any(partition_ok(zz, ids, c, t) for c in cand), 'lenses of thickness {:.4f}: sheets {} at elevations {}, highest point in {}',
                 t, ids.tolist(), zz.tolist(), (c0, c1))
            labels.add(mode)
            nontrivial |= len(set(ids.tolist())) > 1
        ok = [facs.index(f) for f in e['facies']]
        for h in np.unique(ids):
            b = ha == h
            need(np.all(ae[b] == a), 'a sheet lies in several elements')
            az, dip, fac = [np.unique(r[q][b]) for q in ('azim', 'dip', 'facies')]
            need(len(az) == 1 and len(dip) == 1, 'angles differ within a sheet')
            need(e['azimuth'][0] - 1e-9 <= az[0] <= e['azimuth'][1] + 1e-9, 'azimuth {} outside {}', az[0], e['azimuth'])
            need(e['dip'][0] - 1e-9 <= dip[0] <= e['dip'][1] + 1e-9, 'dip {} outside {}', dip[0], e['dip'])
            need(np.all(np.isin(fac, ok)), 'facies {} not in {}', fac, ok)
            if e['structure'] == 'massive':
                need(len(fac) == 1, 'several facies in a massive sheet')
    if nontrivial:
        return sorted(labels)


SUBS = [Sub('flat', cases('flat'), check, quick=2000),
        Sub('elements', cases('elements'), check, quick=1200),
        Sub('rough', cases('rough'), check, quick=1800)]
