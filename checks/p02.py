"""P02: a parameter file is interpreted completely, inconsistent files are rejected."""
import os, math, copy
from hypothesis import strategies as st
from vp import Sub, Skip, need, Violation
import gen

PROPERTY = 'P02'
RULE = 'every valid file (all options compared) and every file with an injected defect counts'
ASSUMPTIONS = ['the parsed dictionaries use the option names of the file as keys']

# documented options: name -> (required, default, kind)
RUN = {'runname': None, 'modeldir': None, 'numsim': 1, 'outputs': [], 'overwrite_old_output': False}
MODEL = {'x0': 0., 'y0': 0., 'z0': 0., 'periodic': False, 'hydraulics': True, 'anisotropy': True,
         'heterogeneity': True, 'heterogeneity_level': 'internal'}
ELEM = {'size_ztrend': None, 'k_ztrend': None, 'k_xtrend': None, 'n_ztrend': None, 'n_xtrend': None,
        'dip': [0., 0.], 'azimuth': [0., 0.]}
EROS = {'buffer': 0., 'lag_height': 0.}
TROUGH = {'te_xyz': None, 'migrate': None}
CHANNEL = {'mig': 0., 'flow_angle': 0.}
REQ = {
    'model': ['dx', 'lx', 'ly', 'lz'],
    'strata': ['strata', 'strata_contact_models', 'ae', 'ae_in_strata', 'ae_prob', 'ae_z_mean', 'avul_prob', 'avul',
               'bg_facies', 'bg_azim', 'bg_dip'],
    'hydraulics': ['hydrofacies', 'k_h', 'sig_y', 'k_ratio', 'n', 'sig_n', 'ycorlengths', 'ncorlengths'],
    'sheet': ['geometry', 'contact_model', 'facies', 'structure', 'lens_thickness'],
    'trough': ['geometry', 'contact_model', 'facies', 'structure', 'agg', 'length', 'width', 'depth', 'trough_density', 'paleoflow'],
    'channel': ['geometry', 'contact_model', 'facies', 'structure', 'agg', 'width', 'depth', 'h', 'k', 'ds', 'eps_factor', 'channel_no'],
}


@st.composite
def files(draw):
    cfg = draw(gen.models(trends_=True))
    m = cfg['model']
    # the same setting written differently: leave out defaults, scalars instead of lists
    for k in ('dy', 'dz'):
        if draw(st.booleans()):
            m.pop(k)
    for k in ('x0', 'y0', 'z0', 'periodic'):
        if draw(st.booleans()):
            m.pop(k, None)
    if draw(st.booleans()):
        m['anisotropy'] = draw(st.booleans())
    if draw(st.booleans()):
        m['hydraulics'] = draw(st.booleans())
    r = cfg['run']
    if draw(st.booleans()):
        r['runname'] = draw(st.sampled_from(['abc', 'run 1', 'r.2']))
    if draw(st.booleans()):
        r['numsim'] = draw(st.integers(1, 40))
    if draw(st.booleans()):
        r['outputs'] = draw(st.lists(st.sampled_from(['vtr', 'py', 'mat', 'npz', 'h5', 'mf', 'mf6', 'hgs']), max_size=4, unique=True))
    if draw(st.booleans()):
        r['overwrite_old_output'] = draw(st.booleans())
    if draw(st.booleans()) or set(r.get('outputs', [])) & {'mf', 'mf6', 'hgs'}:
        f = cfg['flowtrans'] = {}
        if draw(st.booleans()):
            f['hin'] = [draw(gen.dec(-5, 5, .5)) for _ in range(3)]
        if draw(st.booleans()):
            f['hout'] = draw(gen.dec(-5, 5, .5))           # scalar is repeated
        for k in ('gradh', 'q_in', 'kw_gradh', 'kw_q_in'):
            if draw(st.booleans()):
                f[k] = draw(gen.dec(-1, 1, .25))
    s = cfg['strata']
    for k in ('bg_facies', 'bg_azim', 'bg_dip'):
        if draw(st.booleans()):
            s[k] = s[k][0]
    for k, v in (('ae_prob', .5), ('ae_z_mean', 1.5), ('avul_prob', .25), ('avul', [.1, .2]), ('avul', .3)):
        if draw(st.integers(0, 3)) == 0:
            s[k] = v
    h = cfg['hydraulics']
    for k in ('k_h', 'sig_y', 'k_ratio', 'n', 'sig_n'):
        if draw(st.integers(0, 2)) == 0:
            h[k] = h[k][0]
    for k in ('ycorlengths', 'ncorlengths'):
        i = draw(st.integers(0, 3))
        if i == 0:
            h[k] = h[k][0]
        elif i == 1:
            h[k] = h[k][0][0]
    for e in cfg['elements'].values():
        if e['geometry'] == 'trough' and draw(st.booleans()):
            e['te_xyz'] = draw(st.lists(st.lists(gen.dec(-9, 9, .5), min_size=3, max_size=3), min_size=1, max_size=3))
    for e in cfg['elements'].values():
        if 'altfacies' in e and draw(st.integers(0, 2)) == 0:
            e['altfacies'] = e['altfacies'][0]             # the same list for every facies
        for k in ('dip', 'azimuth', 'paleoflow', 'size_ztrend', 'k_ztrend', 'n_xtrend'):
            if k in e and draw(st.integers(0, 5)) == 0:
                e[k] = e[k][0]
    for cm in s['strata_contact_models'] + [e['contact_model'] for e in cfg['elements'].values()]:
        if draw(st.integers(0, 4)) == 0:
            cm[0] = draw(st.sampled_from(['{}', '"{}"', "'{}'"])).format(draw(st.sampled_from([cm[0], cm[0].upper(), cm[0].capitalize()])))
    cfg['style'] = draw(gen.styles())
    return cfg


def rep(v, n):
    return v if isinstance(v, list) else [v] * n


def rep2(v, struct):
    """v scalar, flat list or nested over the structure (list of lengths)"""
    if not isinstance(v, list):
        return [[v] * n for n in struct]
    if not isinstance(v[0], list):
        return [v] * len(struct)
    return v


def same(a, b):
    if isinstance(b, list):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if b is None:
        return a is None
    if isinstance(b, bool) or isinstance(a, bool):
        return type(a) is type(b) and a == b
    if isinstance(b, float):
        if not isinstance(a, float):
            return False
        return a == b or (math.isnan(a) and math.isnan(b))
    return type(a) is type(b) and a == b


def eq(where, got, exp):
    for k, v in exp.items():
        need(k in got, '{}: option {} is missing in the parsed parameters', where, k)
        need(same(got[k], v), '{}: option {} is {!r}, expected {!r}', where, k, got[k], v)


def contact(cm, depth):
    d = {'mode': cm[0].strip('"\'').lower()}
    rest = cm[1:]
    if depth:
        d['z'] = float(rest[0])
        rest = rest[1:]
    if d['mode'] == 'random':
        d['var'], d['corlx'], d['corly'] = map(float, rest)
    return d


def parsed(cfg, env):
    try:
        from hyvr.input.parameters import parameters
    except ImportError as e:
        raise Skip(str(e))
    with env.scratch() as d:
        ini = os.path.join(d, 'file.ini')
        gen.write_ini(ini, cfg)
        out = parameters(ini)
        need(sorted(os.listdir(d)) == ['file.ini'], 'parsing created files: {}', os.listdir(d))
        return out, d


def check_values(cfg, env):
    (run, model, strata, hyd, flow, elements), d = parsed(cfg, env)
    r = dict(RUN, **cfg['run'])
    eq('run', run, {k: r[k] for k in ('numsim', 'outputs', 'overwrite_old_output')})
    need(run['runname'] == (r['runname'] if r['runname'] is not None else 'file'), 'run name {!r}', run['runname'])
    m = dict(MODEL, **cfg['model'])
    m.setdefault('dy', m['dx'])
    m.setdefault('dz', m['dx'])
    eq('model', model, m)
    facs = cfg['hydraulics']['hydrofacies']
    s = dict(cfg['strata'])
    ns = len(s['strata'])
    lens = [len(l) for l in s['ae_in_strata']]
    s['ae_prob'] = rep2(s['ae_prob'], lens)
    s['ae_z_mean'] = rep2(s['ae_z_mean'], lens)
    s['avul_prob'] = rep2(s['avul_prob'], [1] * ns)
    s['avul'] = rep2(s['avul'], [2] * ns)
    s['bg_facies'] = [facs.index(f) for f in rep(s['bg_facies'], ns)]
    s['bg_azim'] = rep(s['bg_azim'], ns)
    s['bg_dip'] = rep(s['bg_dip'], ns)
    cms = s.pop('strata_contact_models')
    eq('strata', strata, s)
    if 'contact_models' in strata:
        got = strata['contact_models']
        need(len(got) == len(cms), 'number of contact models: {}', got)
        for g, c in zip(got, cms):
            eq('contact model', g, contact(c, True))
    h = dict(cfg['hydraulics'])
    n = len(facs)
    for k in ('k_h', 'sig_y', 'k_ratio', 'n', 'sig_n'):
        h[k] = rep(h[k], n)
    for k in ('ycorlengths', 'ncorlengths'):
        h[k] = rep2(h[k], [3] * n)
    for k in ('k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'):
        h.setdefault(k, None)
    eq('hydraulics', hyd, h)
    if 'flowtrans' in cfg:
        f = {k: None for k in ('hin', 'hout', 'gradh', 'q_in', 'kw_gradh', 'kw_q_in')}
        f.update(cfg['flowtrans'])
        if f['hout'] is not None:
            f['hout'] = rep(f['hout'], 3)
        eq('flowtrans', flow, f)
    need(sorted(elements) == sorted(cfg['elements']), 'element sections {}', sorted(elements))
    for name, e in cfg['elements'].items():
        x = dict(ELEM)
        if e['geometry'] != 'sheet':
            x.update(EROS)
        if e['geometry'] == 'trough':
            x.update(TROUGH)
        if e['geometry'] == 'channel':
            x.update(CHANNEL)
        x.update(e)
        x['facies'] = [facs.index(f) for f in x['facies']]
        if 'altfacies' in x:
            x['altfacies'] = [[facs.index(f) for f in l] for l in rep2(x['altfacies'], x['facies'])]
        else:
            x['altfacies'] = None
        x['bg_facies'] = facs.index(x['bg_facies']) if 'bg_facies' in x else -1
        x.setdefault('bg_azim', float('nan'))
        x.setdefault('bg_dip', float('nan'))
        if 'lag_facies' in x:
            x['lag_facies'] = facs.index(x['lag_facies'])
        x['contact_model'] = contact(x['contact_model'], False)
        if 'lens_thickness' in x:
            x['lens_thickness'] = float(x['lens_thickness'])
        for k in ('dip', 'azimuth', 'paleoflow', 'size_ztrend', 'k_ztrend', 'n_xtrend'):
            if x.get(k) is not None:
                x[k] = rep(x[k], 2)
        x.pop('structure')
        eq(name, elements[name], x)
        need(elements[name]['structure'] in ([e['structure']] if e['structure'] != 'flat' else ['flat', 'massive']),
             'structure of {}: {}', name, elements[name]['structure'])
    return ['valid'] + (['other spelling'] if cfg['style'] else [])


# ---------------------------------------------------------------------------------------------
@st.composite
def defects(draw, kinds=None):
    cfg = draw(gen.models(hydro=False, grid=gen.grids(nx=(1, 3), ny=(1, 3), nz=(1, 4))))
    els = cfg['elements']
    name = draw(st.sampled_from(sorted(els)))
    e = els[name]
    g = e['geometry']
    kinds = kinds or ['section', 'option', 'option', 'element option', 'element option', 'facies', 'facies', 'geometry', 'structure', 'output', 'hetlev',
             'contact', 'contact', 'ncontacts', 'layerdist', 'number', 'flowtrans', 'noelement', 'shape', 'shape', 'undeclared']
    kind = draw(st.sampled_from(kinds))
    what = kind
    if kind == 'section':
        s = draw(st.sampled_from(['run', 'model', 'strata', 'hydraulics']))
        cfg['defect'] = {'drop': s}
        what = 'section ' + s
    elif kind == 'option':
        s = draw(st.sampled_from(['model', 'strata', 'hydraulics']))
        o = draw(st.sampled_from(REQ[s]))
        cfg[s].pop(o)
        what = 'option {}/{}'.format(s, o)
    elif kind == 'element option':
        o = draw(st.sampled_from(REQ[g]))
        e.pop(o)
        what = 'option {}/{}'.format(g, o)
    elif kind == 'facies':
        k = draw(st.sampled_from(['strata', 'facies', 'altfacies', 'bg', 'lag']))
        facs = cfg['hydraulics']['hydrofacies']
        f = draw(st.sampled_from(facs))
        nope = draw(st.sampled_from([x for x in ('nope', f[0], f[-1], f.lower(), f.upper(), f + '1', f + f[-1], '0', '-1')
                                     if x not in facs]))
        if k == 'strata':
            cfg['strata']['bg_facies'][draw(st.integers(0, len(cfg['strata']['bg_facies']) - 1))] = nope
        elif k == 'altfacies':
            e['altfacies'] = [[f] for f in e['facies']]
            l = e['altfacies'][draw(st.integers(0, len(e['altfacies']) - 1))]
            l.insert(draw(st.integers(0, 1)), nope)
        elif k == 'bg' and g != 'sheet':
            e['bg_facies'] = nope
        elif k == 'lag' and g != 'sheet':
            e['lag_height'] = .1
            e['lag_facies'] = nope
            if draw(st.booleans()):
                e.pop('lag_facies')
        else:
            k = 'facies'
            e['facies'] = draw(st.sampled_from([e['facies'] + [nope], [nope] + e['facies']]))
            e.pop('altfacies', None)
        what = 'facies ' + k
    elif kind == 'geometry':
        e['geometry'] = draw(st.sampled_from(['through', 'trunc_ellip', 'ext_par', 'Sheet', 'x']))
    elif kind == 'structure':
        e['structure'] = draw(st.sampled_from({'sheet': ['bulb', 'bulb_sets', 'random', 'flat', 'x'],
                                               'trough': ['bulb_l', 'x', 'Massive'],
                                               'channel': ['bulb', 'bulb_sets', 'random', 'flat', 'x']}[g]))
        e['dipset_dist'] = .5
        if g == 'trough':
            e['bulbset_dist'] = .5
    elif kind == 'output':
        l = draw(st.lists(st.sampled_from(['vtr', 'py', 'mat', 'npz', 'h5']), max_size=8))
        l.insert(draw(st.integers(0, len(l))), draw(st.sampled_from(['csv', 'x', 'NPZ', 'hdf5', 'vtk', 'mf2005'])))
        cfg['run']['outputs'] = l
    elif kind == 'hetlev':
        cfg['model']['heterogeneity_level'] = draw(st.sampled_from(['ae', 'x', 'Facies']))
    elif kind == 'contact':
        k = draw(st.sampled_from(['mode', 'few', 'many', 'flatextra', 'nan', 'strata']))
        e['contact_model'] = {'mode': ['wavy'], 'few': ['random', .1, 2.], 'many': ['random', .1, 2., 2., 2.],
                              'flatextra': ['flat', 3.], 'nan': ['random', 'x', 1., 1.], 'strata': ['flat']}[k]
        if k == 'strata':
            cms = cfg['strata']['strata_contact_models']
            if not cms:
                e['contact_model'] = ['wavy']
            else:
                cms[draw(st.integers(0, len(cms) - 1))] = draw(st.sampled_from([['flat'], ['random', 1., .1, 2.], ['random', 1., .1, 2., 2., 2.],
                                                ['flat', 1., 2.], ['wavy', 1.], ['flat', 'x']]))
        what = 'contact ' + k
    elif kind == 'ncontacts':
        cms = cfg['strata']['strata_contact_models']
        if cms and draw(st.booleans()):
            cms.pop()
        else:
            cms.append(['flat', 99.])
    elif kind == 'layerdist':
        e['structure'] = draw(st.sampled_from(['dip', 'bulb_sets', 'random'] if g == 'trough' else ['dip']))
        drop = {'dip': ['dipset_dist'], 'bulb_sets': ['bulbset_dist'], 'random': ['dipset_dist', 'bulbset_dist']}[e['structure']]
        e['dipset_dist'] = .5
        if g == 'trough':
            e['bulbset_dist'] = .5
        e.pop(draw(st.sampled_from(drop)))
        what = 'layer distance ' + e['structure']
    elif kind == 'number':
        s, o = draw(st.sampled_from([('model', 'dx'), ('model', 'lz'), ('run', 'numsim'), ('model', 'periodic'),
                                     ('hydraulics', 'k_h'), ('strata', 'ae_prob')]))
        cfg[s][o] = 'abc'
        what = 'number ' + o
    elif kind == 'flowtrans':
        cfg['run']['outputs'] = ['npz', draw(st.sampled_from(['mf', 'mf6', 'hgs']))]
    elif kind == 'shape':
        sec = draw(st.sampled_from(['strata', 'strata', 'hydraulics', 'element', 'trough', 'flowtrans']))
        if sec == 'trough' and g != 'trough':
            sec = 'element'
        if sec == 'flowtrans':
            cfg['flowtrans'] = {'hin': [1., 0., 0.], 'hout': [0., 0., 0.]}
        d = e if sec == 'trough' or sec == 'element' else cfg[sec]
        o = draw(st.sampled_from({'strata': ['ae_in_strata', 'ae_prob', 'ae_z_mean', 'avul', 'avul_prob', 'bg_facies', 'bg_azim', 'bg_dip'],
                                  'hydraulics': ['k_h', 'sig_y', 'k_ratio', 'n', 'sig_n', 'ycorlengths', 'ncorlengths', 'k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'],
                                  'element': ['altfacies', 'altfacies', 'dip', 'azimuth', 'size_ztrend', 'k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'],
                                  'trough': ['te_xyz', 'te_xyz', 'migrate', 'paleoflow'], 'flowtrans': ['hin', 'hout']}[sec]))
        if o == 'te_xyz':
            d[o] = draw(st.lists(st.just([1., 1., 1.]), max_size=2))
            d[o].insert(draw(st.integers(0, len(d[o]))), draw(st.sampled_from([[1., 1.], [1.], [1., 1., 1., 1.]])))
        elif o == 'migrate':
            d[o] = draw(st.sampled_from([[1.], [1., 0.], [1., 0., 1.], [1., 0., 1., 0., 1.]]))
        elif sec == 'flowtrans':
            d[o] = draw(st.sampled_from([[1.], [1., 0.], [1., 0., 1., 0.]]))
        elif o == 'altfacies':
            n = draw(st.sampled_from([k for k in range(1, 6) if k != len(e['facies'])]))
            d[o] = [draw(st.lists(st.sampled_from(e['facies']), min_size=1, max_size=2)) for _ in range(n)]
            if n == 1:
                d[o].append(d[o][0])
            if len(d[o]) == len(e['facies']):
                d[o].append(d[o][0])
        elif sec in ('element', 'trough') or o.endswith('trend'):
            d[o] = draw(st.sampled_from([[1.], [1., 2., 3.]]))
        elif isinstance(d[o][0], list) and draw(st.booleans()):
            i = draw(st.integers(0, len(d[o]) - 1))
            d[o][i] = draw(st.sampled_from([d[o][i] + d[o][i][-1:], d[o][i][:-1]]))
        else:
            d[o] = d[o] + d[o][-1:]
            if len(d[o]) > 2 and draw(st.booleans()):
                d[o] = d[o][:-2]
        what = 'shape ' + o
    elif kind == 'undeclared':
        # an element that is used, but not in the list of elements
        cfg['strata']['ae'] = [a if a != name else name + 'x' for a in cfg['strata']['ae']]
    elif kind == 'noelement':
        nm = draw(st.sampled_from(sorted({a for l in cfg['strata']['ae_in_strata'] for a in l})))
        if draw(st.booleans()):
            # only named at the end of the list of one stratum
            nm = 'unknown'
            ss = cfg['strata']
            k = draw(st.integers(0, len(ss['strata']) - 1))
            ss['ae_in_strata'][k] = ss['ae_in_strata'][k] + [nm]
            for o in ('ae_prob', 'ae_z_mean'):
                ss[o][k] = ss[o][k] + [1.]
            ss['ae'] = ss['ae'] + [nm]
        cfg['defect'] = {'dropel': nm}
    cfg['what'] = what
    return cfg


def check_defect(cfg, env):
    c = copy.deepcopy(cfg)
    df = c.pop('defect', {})
    if 'drop' in df:
        c.pop(df['drop'])
    if 'dropel' in df:
        c['elements'].pop(df['dropel'], None)
        if not c['elements']:
            c['elements'] = {}
    if 'run' in c:
        c['run'] = dict({'outputs': ['npz']}, **c['run'])
    with env.scratch() as d:
        ini = os.path.join(d, 'file.ini')
        with open(ini, 'w') as f:
            f.write(gen.render(c))
        try:
            gen.run_hyvr(ini, None, 1)
        except Exception as e:
            left = [x for x in os.listdir(d) if x != 'file.ini']
            need(not left, 'the file was rejected ({}), but only after {} was created: {}', type(e).__name__, left, e)
            return cfg['what']
        raise Violation('a file with a defect was accepted: ' + cfg['what'])


SUBS = [Sub('values', files(), check_values, quick=2400),
        Sub('defects', defects(), check_defect, quick=2400),
        Sub('shapes', defects(['shape']), check_defect, quick=1200)]
