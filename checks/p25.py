"""P25: plotted cross sections."""
import os, sys, io, types
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import vp, gen

PROPERTY = 'P25'
RULE = 'at least one slice is drawn'
ASSUMPTIONS = ['the drawing is read from the matplotlib axes (quadrilateral collections or images)', 'positions on the face between two cells may show either of them; positions on the outer boundary are not generated']


@st.composite
def cases(draw):
    g = draw(gen.grids(nx=(1, 8), ny=(1, 7), nz=(1, 6)))
    pos = {}
    zero = []
    for c in 'xy':
        n = int(round(g['l' + c] / g['d' + c]))
        inside = st.integers(0, n * 20 - 1).map(lambda i: (i + .5) / 20)                       # in units of cells
        outside = st.sampled_from([-3.3, -.7, -.05, n + .05, n + .8, n + 40.2])
        kind = draw(st.sampled_from(['none', 'scalar', 'list', 'list', 'empty']))
        if kind == 'none':
            pos[c] = None
        elif kind == 'empty':
            pos[c] = []
        elif kind == 'scalar':
            pos[c] = draw(st.one_of(inside, inside, outside))
            if 0 < pos[c] < n and draw(st.integers(0, 2)) == 0:
                # at the coordinate zero
                g[c + '0'] = -pos[c] * g['d' + c]
                zero.append(c)
        else:
            pos[c] = draw(st.lists(st.one_of(inside, inside, inside, outside, st.integers(1, max(n - 1, 1)).map(float) if n > 1 else inside), min_size=1, max_size=3))
    return {'g': g, 'pos': pos, 'zero': zero, 'seq': draw(st.sampled_from(['list', 'tuple', 'array'])), 'field': draw(st.sampled_from(['k_iso', 'ae', 'facies'])), 'seed': draw(st.integers(0, 10**6)),
            'lim': draw(st.lists(st.sampled_from(['xlim_x', 'ylim_x', 'xlim_y', 'ylim_y']), max_size=4, unique=True)),
            'cmap': draw(st.sampled_from([None, None, 'prism', 'gray'])), 'offset': draw(st.sampled_from([0, 0, 2.**25, 2.**40, -2.**33])),
            'log': draw(st.sampled_from([None, None, False, True]))}


def drawn(ax):
    """cells of the axes: (centre, centre, value) or None if nothing is drawn"""
    from matplotlib.collections import QuadMesh, PolyCollection
    out = []
    for col in ax.collections:
        arr = col.get_array()
        if arr is None:
            continue
        vals = np.ma.filled(np.ma.asarray(arr, float), np.nan).ravel()
        if isinstance(col, QuadMesh):
            co = np.asarray(col.get_coordinates())
            cen = (co[:-1, :-1] + co[1:, :-1] + co[:-1, 1:] + co[1:, 1:]) / 4
            cen = cen.reshape(-1, 2)
        elif isinstance(col, PolyCollection):
            cen = []
            for p in col.get_paths():
                v = p.vertices[:4]
                cen.append([(v[:, 0].min() + v[:, 0].max()) / 2, (v[:, 1].min() + v[:, 1].max()) / 2])
            cen = np.array(cen).reshape(-1, 2)
            vals = vals[~np.isnan(vals)] if len(cen) != len(vals) else vals
        else:
            raise Skip
        if len(cen) != len(vals):
            raise Skip
        out.append(np.column_stack([cen, vals]))
    for im in ax.images:
        a = np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)
        x0, x1, y0, y1 = im.get_extent()
        if im.origin == 'upper':
            a = a[::-1]
        nr, nc = a.shape
        X = x0 + (np.arange(nc) + .5) * (x1 - x0) / nc
        Y = y0 + (np.arange(nr) + .5) * (y1 - y0) / nr
        out.append(np.column_stack([np.tile(X, nr), np.repeat(Y, nc), a.ravel()]))
    if not out:
        return None
    return np.concatenate(out)


def check(case, env):
    try:
        from hyvr.postprocess.plotting import cross_section_pcolor
        from hyvr.geo.grid import Grid
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        from matplotlib.colors import LogNorm
    except ImportError:
        raise Skip
    g = case['g']
    grid = Grid(*[g.get(c + '0', 0.) for c in 'xyz'], *[g['d' + c] for c in 'xyz'], *[g['l' + c] for c in 'xyz'], 0)
    n = {c: int(round(g['l' + c] / g['d' + c])) for c in 'xyz'}
    rs = np.random.RandomState(case['seed'])
    F = rs.permutation(n['x'] * n['y'] * n['z']).reshape(n['x'], n['y'], n['z'])
    other = -1 - F
    data = {k: other for k in ('k_iso', 'ae', 'facies')}
    data[case['field']] = F.astype(float) if case['field'] == 'k_iso' else F
    log = case.get('log')
    if log:
        F = F + 1
        data[case['field']] = F * 1e-4 if case['field'] == 'k_iso' else F
        F = data[case['field']]
    elif case.get('offset') and case['field'] == 'k_iso':
        # values that differ by much less than their size
        F = data['k_iso'] = F + case['offset']
    before = F.copy()
    model = types.SimpleNamespace(grid=grid, data=data)
    cen = {c: g.get(c + '0', 0.) + (np.arange(n[c]) + .5) * g['d' + c] for c in 'xyz'}
    kw = {}
    expected = {'x': [], 'y': []}
    nout = 0
    for c in 'xy':
        p = case['pos'][c]
        o, d = g.get(c + '0', 0.), g['d' + c]
        if p is None:
            pp = [n[c] / 2]
        else:
            if isinstance(p, list):
                v = [o + q * d for q in p]
                v = {'list': v, 'tuple': tuple(v), 'array': np.array(v)}[case['seq']]
            else:
                v = o + p * d if c not in case.get('zero', []) else 0
            kw[c] = v
            pp = p if isinstance(p, list) else [p]
        for q in pp:
            if q < 0 or q > n[c]:
                nout += 1
                continue
            i = int(np.floor(q))
            tol = 1e-6 * max(1, (abs(o) + g['l' + c]) / d * 1e-6)
            cand = {i}
            if abs(q - round(q)) < 1e-6:
                cand = {int(round(q)) - 1, int(round(q))}
            expected[c].append({j for j in cand if 0 <= j < n[c]})
    # axis limits for each kind of cross section
    lims = {}
    for k, name in enumerate(case['lim'] or []):
        h = 'z' if name[0] == 'y' else ('x' if name[-1] == 'y' else 'y')
        lims[name] = kw[name] = [float(cen[h][0] - g['d' + h] * (1 + k)), float(cen[h][-1] + g['d' + h] * (5 - k) / 3)]
    if case.get('cmap'):
        kw['cmap'] = case['cmap']
    if log is not None:
        kw['log'] = log
    plt.close('all')
    err = io.StringIO()
    old = sys.stderr, plt.show
    plt.show = lambda *a, **k: None
    sys.stderr = err
    try:
        cross_section_pcolor(model, case['field'], **kw)
        got = []
        for num in plt.get_fignums():
            for ax in plt.figure(num).axes:
                if ax.get_label() == '<colorbar>':
                    continue
                r = drawn(ax)
                if r is not None:
                    if any(isinstance(a.norm, LogNorm) for a in list(ax.collections) + list(ax.images)):
                        # logarithmic colours
                        r[:, 2] = np.log10(r[:, 2])
                    got.append((ax.get_xlabel(), r, ax.get_xlim(), ax.get_ylim(), {a.get_cmap().name for a in list(ax.collections) + list(ax.images) if a.get_array() is not None}))
    finally:
        sys.stderr, plt.show = old
        plt.close('all')
    need(np.array_equal(F, before) and np.array_equal(data[case['field']], before), 'plotting changes the data')
    need(len(got) == len(expected['x']) + len(expected['y']), '{} slices are drawn instead of {}', len(got), len(expected['x']) + len(expected['y']))
    if nout:
        need(err.getvalue().strip() != '', 'no warning for a position outside of the domain')
    todo = [('y', e) for e in expected['y']] + [('x', e) for e in expected['x']]
    for k, (lab, r, xl, yl, cms) in enumerate(got):
        ok = None
        # those of the labelled direction first
        for t, (c, cand) in sorted(enumerate(todo), key=lambda e: e[1][0] == lab):
            h = 'x' if c == 'y' else 'y'
            for j in cand:
                S = F[:, j, :] if c == 'y' else F[j, :, :]
                if log:
                    S = np.log10(S)
                ref = np.column_stack([np.repeat(cen[h], n['z']), np.tile(cen['z'], n[h]), S.ravel()])
                if r.shape == ref.shape:
                    a, b = r[np.lexsort(r.T[[2]])], ref[np.lexsort(ref.T[[2]])]
                    if (np.array_equal(a[:, 2], b[:, 2]) or log and any(np.allclose(a[:, 2] * f, b[:, 2], rtol=1e-9, atol=1e-12) for f in (1, np.log10(np.e), np.log10(2)))) and np.all(np.abs(a[:, :2] - b[:, :2]) < 1e-6 * (1 + np.abs(b[:, :2]))):
                        ok = t
                        if lab:
                            need(lab == h, 'axis of the cross section at {} is labelled {}', c, lab)
                        break
            if ok is not None:
                break
        if ok is not None:
            for name, have in (('xlim_' + todo[ok][0], xl), ('ylim_' + todo[ok][0], yl)):
                if name in lims:
                    need(np.allclose(have, lims[name], rtol=1e-9, atol=1e-9), 'cross section at {} has limits {} instead of {} = {}', todo[ok][0], have, name, lims[name])
            if case.get('cmap'):
                need(cms == {case['cmap']}, 'colour map {} instead of {}', cms, case['cmap'])
        need(ok is not None, 'drawing {} of {} is not one of the requested slices {} (positions in cells {})', k, len(got), [(c, sorted(e)) for c, e in todo], case['pos'])
        todo.pop(ok)
    if got:
        return ['{} slices'.format(len(got))] + (['logarithm'] if log else []) + (['outside'] if nout else [])


SUBS = [Sub('slices', cases(), check, quick=1600)]
