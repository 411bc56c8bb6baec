"""P20: files in the deprecated format."""
import os
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need
import vp, gen

PROPERTY = 'P20'
RULE = 'the file has an alternative option name, several strata or several elements'
ASSUMPTIONS = ['configurations that can be written in both formats: one background for all strata, one mode for the contacts between strata, '
               'channels in x direction without migration between levels, all three background settings of an element or none']

ALT = {
    'run': {'anisotropy': 'flag_anisotropy', 'het': 'flag_het', 'dataoutputs': 'l_dataoutputs', 'modeloutputs': 'l_modeloutputs'},
    'model': {'periodic': 'flag_periodic', 'display': 'flag_display'},
    'strata': {'ssm': ['l_ssm', 'l_seq'], 'ssm_top': 'r_ssm_top', 'ssm_contact_model': 'll_ssm_contact_model', 'ae': 'l_ae', 'ssm_ae': 'll_ssm_ae',
               'ae_prob': 'll_ae_prob', 'ae_z_mean': 'll_ae_z_mean', 'avul_prob': 'll_avul_prob', 'avul': 'll_avul'},
    'element': {'contact_model': 'r_contact_model', 'facies': 'l_facies', 'altfacies': 'll_altfacies', 'geo_ztrend': 'r_geo_ztrend', 'k_ztrend': 'r_k_ztrend',
                'k_xtrend': 'r_k_xtrend', 'n_ztrend': 'r_n_ztrend', 'n_xtrend': 'r_n_xtrend', 'migrate': 'r_migrate', 'lag': 'r_lag', 'dip': 'r_dip',
                'azimuth': 'r_azimuth', 'paleoflow': 'r_paleoflow', 'te_xyz': 'll_te_xyz'},
    'hydraulics': {'gen': 'flag_gen', 'hydro': 'l_hydro', 'k_h': 'r_k_h', 'sig_y': 'r_sig_y', 'k_ratio': 'r_k_ratio', 'n': 'r_n', 'sig_n': 'r_sig_n',
                   'ycorlengths': 'll_ycorlengths', 'ncorlengths': 'll_ncorlengths', 'k_ztrend': 'r_k_ztrend', 'k_xtrend': 'r_k_xtrend', 'n_ztrend': 'r_n_ztrend',
                   'n_xtrend': 'r_n_xtrend'},
}


def contact_(draw, dz, mode):
    c = contact_model(draw, dz)
    return (['flat'] if mode == 'flat' else ['random'] + c), c


def contact_model(draw, dz):
    return [gen.rnd(draw(st.sampled_from([.01, .05, .3])) * dz * 4), draw(st.sampled_from([.7, 2., 6.])), draw(st.sampled_from([.5, 3.]))]


@st.composite
def cases(draw):
    """generates the new format and, alongside, the sections of the old one"""
    cfg = draw(gen.models(grid=gen.grids(nx=(1, 7), ny=(1, 6), nz=(1, 9)), trends_=True, rough=False))
    m, s, h = cfg['model'], cfg['strata'], cfg['hydraulics']
    facs = h['hydrofacies']
    ns = len(s['strata'])
    anis = draw(st.sampled_from([None, True, False]))
    level = draw(st.sampled_from(['facies', 'internal', 'internal']))
    het = draw(st.sampled_from([None, True, True, False]))
    hyd = draw(st.sampled_from([None, True, True, False]))
    for k, v in (('anisotropy', anis), ('heterogeneity', het), ('heterogeneity_level', level), ('hydraulics', hyd)):
        m.pop(k, None)
        if v is not None:
            m[k] = v
    # run
    dataout = draw(st.sampled_from([['npz'], ['npz'], ['npz'], ['vtr']])) + draw(st.lists(st.sampled_from(['py', 'mat', 'h5']), max_size=2, unique=True))
    modelout = ['hgs'] if hyd is not False and draw(st.booleans()) else []
    numsim = draw(st.sampled_from([None, 1, 2]))
    if modelout and draw(st.integers(0, 3)) == 0:
        dataout = None
    if hyd is not False and min(round(m['lx'] / m['dx']), round(m['ly'] / m['dy'])) > 1 and draw(st.integers(0, 7)) == 0:
        cfg['flowtrans'] = {'hin': [2., 0., 0.], 'hout': [1., 0., 0.]}
        modelout = draw(st.sampled_from([['mf'], ['mf6'], ['hgs', 'mf'], ['mf6', 'hgs']]))
    runname = draw(st.sampled_from(['r', 'r', 'r', None]))
    cfg['run'] = {'runname': runname, 'outputs': modelout + (dataout or []), 'numsim': numsim}
    if 'flowtrans' not in cfg:
        cfg['flowtrans'] = draw(st.sampled_from([{'hin': [2., 0., 0.], 'hout': [1., 0., 0.]}, {'gradh': .01}]))
    o = {'run': {'runname': runname, 'numsim': numsim, 'anisotropy': anis, 'het': het, 'dataoutputs': dataout, 'modeloutputs': modelout or None}}
    if draw(st.booleans()):
        o['run']['flag_ow'] = draw(st.booleans())
        cfg['run']['overwrite_old_output'] = o['run']['flag_ow']
    # model
    om = {k: v for k, v in m.items() if k in ('x0', 'y0', 'z0', 'dx', 'dy', 'dz', 'lx', 'ly', 'lz', 'periodic')}
    # settings that are not given take their defaults
    for k in ('x0', 'y0', 'z0', 'periodic'):
        if k in ('x0', 'y0') and draw(st.integers(0, 3)) == 0:
            m[k] = om[k] = 0.
        if not m[k] and draw(st.booleans()):
            om.pop(k)
            if draw(st.booleans()):
                m.pop(k)
    # cell sizes that are not given are equal to dx
    if draw(st.integers(0, 2)) == 0:
        for k in draw(st.sampled_from([['dy'], ['dz'], ['dy', 'dz']])):
            n = int(round(m['l' + k[1]] / m[k]))
            if k == 'dz':
                scale = om['dx'] / m['dz']
                if abs(scale - 1) > 1e-9:
                    continue        # (elevations would have to be scaled, too)
            m[k] = m['dx']
            m['l' + k[1]] = om['l' + k[1]] = gen.rnd(n * m['dx'])
            om.pop(k)
            if draw(st.booleans()):
                m.pop(k)
    om['hetlev'] = level
    if draw(st.booleans()):
        om['display'] = False
    o['model'] = om
    # strata
    dz = m.get('dz', m['dx'])
    mode = draw(st.sampled_from(['flat', 'random']))
    bg = [draw(st.integers(0, len(facs) - 1)), float(draw(st.integers(-90, 90))), float(draw(st.integers(-40, 40)))]
    s['bg_facies'], s['bg_azim'], s['bg_dip'] = [facs[bg[0]]] * ns, [bg[1]] * ns, [bg[2]] * ns
    tops = [c[1] for c in s['strata_contact_models']] + [gen.rnd(m.get('z0', 0.) + m['lz'])]
    cms = [contact_model(draw, dz) for _ in range(ns)]
    s['strata_contact_models'] = [['flat', t] if mode == 'flat' else ['random', t] + c for t, c in zip(tops[:-1], cms)]
    os_ = {'ssm': s['strata'], 'ssm_top': tops, 'ae': s['ae'], 'ssm_ae': s['ae_in_strata'], 'ae_prob': s['ae_prob'], 'ae_z_mean': s['ae_z_mean'],
           'avul_prob': s['avul_prob'], 'avul': s['avul'], 'bg': bg}
    if mode == 'random' or draw(st.booleans()):
        os_['ssm_contact_model'] = cms
    if mode == 'random' or draw(st.booleans()):
        os_['ssm_contact'] = mode
    if draw(st.booleans()):
        os_['save_aelu'] = False
    o['strata'] = os_
    # elements
    o['elements'] = {}
    for name, e in cfg['elements'].items():
        q = {}
        geo = e['geometry']
        q['geometry'] = {'trough': 'trunc_ellip', 'channel': 'ext_par', 'sheet': 'sheet'}[geo]
        q['structure'] = 'bulb_l' if e['structure'] == 'bulb_sets' else e['structure']
        md = draw(st.sampled_from(['flat', 'random']))
        e['contact_model'], cm = contact_(draw, dz, md)
        q['contact'] = md
        if md == 'random' or draw(st.booleans()):
            q['contact_model'] = cm
        q['facies'] = [facs.index(f) for f in e['facies']]
        if 'altfacies' in e:
            q['altfacies'] = [[facs.index(f) for f in l] for l in e['altfacies']]
        if 'size_ztrend' in e:
            q['geo_ztrend'] = e['size_ztrend']
        for k in ('k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend', 'dip', 'azimuth'):
            if k in e:
                q[k] = e[k]
        if 'dipset_dist' in e and 'bulbset_dist' in e and draw(st.integers(0, 2)) == 0:
            e['bulbset_dist'] = e['dipset_dist']
        if 'dipset_dist' in e:
            q['dipset_d'] = e['dipset_dist']
        if 'bulbset_dist' in e:
            q['bulbset_d'] = e['bulbset_dist']
        if geo == 'sheet':
            q['lens_thickness'] = e['lens_thickness']
            o['elements'][name] = q
            continue
        for k in ('bg_facies', 'bg_azim', 'bg_dip'):
            e.pop(k, None)
        if draw(st.booleans()):
            b = [draw(st.integers(0, len(facs) - 1)), float(draw(st.integers(-90, 90))), float(draw(st.integers(-40, 40)))]
            e['bg_facies'], e['bg_azim'], e['bg_dip'] = facs[b[0]], b[1], b[2]
            q['bg'] = b
        e.setdefault('dip', [0., 0.])
        q['dip'] = e['dip']
        for k in ('agg', 'buffer', 'width', 'depth'):
            if k in e:
                q[k] = e[k]
        if 'lag_height' in e:
            q['lag'] = [e['lag_height'], facs.index(e['lag_facies'])]
        if geo == 'trough':
            e.setdefault('azimuth', [0., 0.])
            q['azimuth'] = e['azimuth']
            q['length'] = e['length']
            q['el_z'] = e['trough_density']
            q['paleoflow'] = e['paleoflow']
            if 'migrate' in e:
                q['migrate'] = e['migrate']
            if draw(st.integers(0, 4)) == 0:
                x0, y0, z0 = m.get('x0', 0.), m.get('y0', 0.), m.get('z0', 0.)
                e['te_xyz'] = [[gen.rnd(x0 + draw(st.sampled_from([.1, .5, .8])) * m['lx']), gen.rnd(y0 + draw(st.sampled_from([.1, .5, .8])) * m['ly']),
                                gen.rnd(z0 + draw(st.sampled_from([.3, .6, .95])) * m['lz'])] for _ in range(draw(st.integers(1, 3)))]
                q['te_xyz'] = e['te_xyz']
        else:
            for k in ('azimuth', 'flow_angle', 'mig'):
                e.pop(k, None)
                q.pop(k, None)
            if draw(st.integers(0, 5)) == 0:
                e['channel_no'] = 0
            for k in ('h', 'k', 'ds', 'eps_factor', 'channel_no'):
                q[k] = e[k]
        o['elements'][name] = q
    # hydraulics
    oh = {k: v for k, v in h.items() if k != 'hydrofacies'}
    oh['hydro'] = facs
    if hyd is not None:
        oh['gen'] = hyd
    o['hydraulics'] = oh
    o['flowtrans'] = cfg['flowtrans']
    # alternative names
    used = draw(st.sampled_from(['none', 'all', 'some', 'some']))

    def rename(sec, kind):
        res = {}
        for k, v in sec.items():
            if v is None:
                continue
            alt = ALT[kind].get(k)
            if alt is not None and (used == 'all' or used == 'some' and draw(st.booleans())):
                k = alt if isinstance(alt, str) else draw(st.sampled_from(alt))
            res[k] = v
        return res
    for sec in ('run', 'model', 'strata', 'hydraulics'):
        o[sec] = rename(o[sec], sec)
    o['elements'] = {n: rename(e, 'element') for n, e in o['elements'].items()}
    return {'new': cfg, 'old': o, 'alt': used, 'defect': None, 'again': draw(st.integers(0, 3)) == 0}


def text(name):
    return name.endswith(('.txt', '.vtr')) or '_MODFLOW' in name.upper() or os.path.splitext(name)[1] in (
        '.bas', '.dis', '.lpf', '.npf', '.nam', '.ic', '.chd', '.oc', '.tdis', '.ims')


def execute(cfg, env, seed, d, again=False):
    ini = os.path.join(d, 'case.ini')
    with open(ini, 'w') as f:
        f.write(gen.render(cfg))
    gen.run_hyvr(ini, None, seed)
    def collect():
        res, names = {}, set()
        for base, dirs, files in os.walk(d):
            for n in files:
                p = os.path.join(base, n)
                r = os.path.relpath(p, d)
                names.add(r)
                if n.endswith('.npz'):
                    res[r] = gen.load_npz(p)
                elif text(n):
                    with open(p, 'rb') as f:
                        res[r] = [l.split() for l in f.read().replace(os.fsencode(d), b'').splitlines() if not l.startswith(b'#')]
        return res, names
    res, names = collect()
    if again:
        # a second run into the same directory
        try:
            gen.run_hyvr(ini, None, seed + 1)
            outcome = 'accepted'
        except Exception as e:
            outcome = type(e).__name__
            for p in names:
                need(os.path.exists(os.path.join(d, p)), 'file {} is lost after a refused run', p)
        res['second run'] = outcome
    return res, names


def check(case, env):
    seed = case['new']['seed']
    with env.scratch() as d:
        a, na = execute(case['new'], env, seed, d, case.get('again'))
    with env.scratch() as d:
        b, nb = execute(case['old'], env, seed, d, case.get('again'))
    need(na == nb, 'the old format yields the files {} instead of {}', sorted(nb), sorted(na))
    for k in a:
        if isinstance(a[k], dict):
            gen.diff_arrays(a[k], b[k], what='the file in the old format gives another model')
        else:
            need(k in b and a[k] == b[k], '{} differs', k)
    if case.get('again'):
        r = case['new']['run']
        need(a['second run'] == ('accepted' if r.get('overwrite_old_output') else 'FileExistsError'), 'a second run into the same directory: {}', a['second run'])
    els = case['new']['elements'].values()
    if case['alt'] != 'none' or len(els) > 1 or len(case['new']['strata']['strata']) > 1:
        return ['names: ' + case['alt']] + sorted({e['geometry'] for e in els})


REQ = {'model': ['dx', 'lx', 'ly', 'lz', 'hetlev'],
       'strata': ['ssm', 'ssm_top', 'ae', 'ssm_ae', 'ae_prob', 'ae_z_mean', 'avul_prob', 'avul', 'bg'],
       'hydraulics': ['hydro', 'k_h', 'sig_y', 'k_ratio', 'n', 'sig_n', 'ycorlengths', 'ncorlengths'],
       'sheet': ['geometry', 'structure', 'contact', 'facies', 'lens_thickness'],
       'trunc_ellip': ['geometry', 'structure', 'contact', 'facies', 'agg', 'length', 'width', 'depth', 'el_z', 'paleoflow', 'azimuth', 'dip'],
       'ext_par': ['geometry', 'structure', 'contact', 'facies', 'agg', 'width', 'depth', 'h', 'k', 'ds', 'eps_factor', 'channel_no', 'dip']}
DEFECTS = ['ae_table', 'save_aelu', 'display', 'user', 'geometry', 'format', 'missing', 'missing', 'missing', 'missing', 'shape', 'shape', 'shape', 'shape',
           'structure', 'contact', 'hetlev', 'section', 'noelement', 'layerdist', 'facies', 'facies']


def names_of(sec, opt):
    alt = ALT['element' if sec in ('sheet', 'trunc_ellip', 'ext_par') else sec].get(opt, []) if sec != 'flowtrans' else []
    return [opt] + ([alt] if isinstance(alt, str) else alt)


@st.composite
def bad_cases(draw, kinds=DEFECTS):
    c = draw(cases())
    kind = c['defect'] = draw(st.sampled_from(kinds))
    o = c['old']
    name = draw(st.sampled_from(sorted(o['elements'])))
    e = o['elements'][name]
    g = e['geometry']
    if kind == 'missing':
        sec = draw(st.sampled_from(['model', 'strata', 'strata', 'hydraulics', 'hydraulics', 'e', 'e', 'e', 'e', 'e']))
        if sec == 'e':
            opt = draw(st.sampled_from(REQ[g]))
            c['drop'] = [name, names_of(g, opt)]
        else:
            opt = draw(st.sampled_from(REQ[sec]))
            c['drop'] = [sec, names_of(sec, opt)]
        c['what'] = '{} without {}'.format(g if sec == 'e' else sec, opt)
    elif kind == 'shape':
        wrong2, wrong3 = [[1.], [1., 2., 3.]], [[1.], [1., 0.], [1., 0., 0., 0.]]
        ns, nh = len(c['new']['strata']['strata']), len(c['new']['hydraulics']['hydrofacies'])
        lens = [len(l) for l in c['new']['strata']['ae_in_strata']]

        def but(n):
            return draw(st.sampled_from([k for k in (n - 1, n + 1, n + 2) if k > 0]))

        def table(rows, bad):
            t = [[.5] * n for n in rows]
            if bad == 'rows':
                k = but(len(t))
                return (t + [t[-1]] * 2)[:k] if k > 1 else t + [t[-1]]
            i = draw(st.integers(0, len(t) - 1))
            t[i] = [.5] * but(len(t[i]))
            return t
        sec = draw(st.sampled_from(['strata', 'hydraulics', 'flowtrans', 'e', 'e']))
        opts = {'strata': ['ssm_top', 'ssm_contact_model', 'ssm_ae', 'ae_prob', 'ae_z_mean', 'avul_prob', 'avul', 'bg'],
                'hydraulics': ['k_h', 'sig_y', 'k_ratio', 'n', 'sig_n', 'ycorlengths', 'ncorlengths', 'k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'],
                'flowtrans': ['hin', 'hout'],
                'e': ['contact_model', 'altfacies', 'geo_ztrend', 'k_ztrend', 'k_xtrend', 'n_xtrend', 'n_ztrend', 'dip', 'bg']}[sec]
        if sec == 'e':
            sec = g
            opts = opts + {'sheet': ['azimuth'], 'trunc_ellip': ['paleoflow', 'azimuth', 'te_xyz', 'migrate', 'lag'], 'ext_par': ['migrate', 'lag']}[g]
        opt = draw(st.sampled_from(opts))
        bad = draw(st.sampled_from(['rows', 'columns']))
        if opt == 'ssm_top':
            v = [.1] * but(ns)
        elif opt in ('ssm_contact_model', 'avul'):
            v = table([3 if opt != 'avul' else 2] * ns, bad)
        elif opt == 'avul_prob':
            v = table([1] * ns, 'rows')
        elif opt in ('ae_prob', 'ae_z_mean'):
            v = table(lens, bad)
        elif opt == 'ssm_ae':
            v = list(c['new']['strata']['ae_in_strata']) + [c['new']['strata']['ae_in_strata'][0]]
        elif opt in ('bg', 'contact_model', 'hin', 'hout'):
            v = draw(st.sampled_from(wrong3))
        elif opt in ('ycorlengths', 'ncorlengths'):
            v = table([3] * nh, bad)
        elif opt in ('k_h', 'sig_y', 'k_ratio', 'n', 'sig_n'):
            v = [.2] * but(nh)
        elif opt == 'altfacies':
            nf = len(c['new']['elements'][name]['facies'])
            v = [[0]] * draw(st.sampled_from([k for k in range(2, 6) if k != nf]))
        elif opt == 'te_xyz':
            v = draw(st.sampled_from([[[1., 1.]], [[1., 1., 1.], [1., 1.]], [[1., 1., 1., 1.]]]))
        elif opt == 'migrate':
            v = draw(st.sampled_from([[1., 0.], [1., 0., 1.], [1., 0., 1., 0., 1.]]))
        else:
            v = draw(st.sampled_from(wrong2))
        c['set'] = [name if sec == g else sec, names_of(sec, opt), v]
        c['what'] = 'a wrong number of values of {}/{}: {}'.format(sec, opt, v)
    elif kind == 'structure':
        c['set'] = [name, ['structure'], draw(st.sampled_from({'sheet': ['bulb', 'bulb_l', 'random', 'x'], 'trunc_ellip': ['bulb_sets', 'x', 'Massive'],
                                                               'ext_par': ['bulb', 'bulb_l', 'random', 'flat', 'x']}[g]))]
        e['dipset_d'] = .5
    elif kind == 'contact':
        c['set'] = draw(st.sampled_from([[name, ['contact'], 'user'], [name, ['contact'], 'wavy'], ['strata', ['ssm_contact'], 'wavy']]))
    elif kind == 'hetlev':
        c['set'] = ['model', ['hetlev'], draw(st.sampled_from(['x', 'Facies', 'element']))]
    elif kind == 'format':
        c['set'] = draw(st.sampled_from([['run', names_of('run', 'dataoutputs'), ['npz', 'xyz']], ['run', names_of('run', 'dataoutputs'), ['hgs']],
                                         ['run', names_of('run', 'modeloutputs'), ['npz']], ['run', names_of('run', 'modeloutputs'), ['mf2005']]]))
    elif kind == 'section':
        c['dropsec'] = draw(st.sampled_from(['model', 'strata', 'hydraulics', 'flowtrans']))
        c['what'] = 'no section ' + c['dropsec']
    elif kind == 'noelement':
        c['dropel'] = draw(st.sampled_from(sorted({a for l in c['new']['strata']['ae_in_strata'] for a in l})))
    elif kind == 'facies':
        # a number that is not that of a facies
        n = draw(st.sampled_from([-1, -2, len(c['new']['hydraulics']['hydrofacies']), 99]))
        fs = list(range(len(c['new']['elements'][name]['facies'])))
        k = draw(st.sampled_from(['facies', 'facies', 'altfacies', 'bg', 'lag', 'strata']))
        if k == 'strata':
            c['set'] = ['strata', ['bg'], [n, 0., 0.]]
        elif k == 'altfacies':
            v = [[0] for _ in fs]
            v[draw(st.integers(0, len(v) - 1))].insert(draw(st.integers(0, 1)), n)
            c['set'] = [name, names_of(g, 'altfacies'), v]
        elif g != 'sheet' and k != 'facies':
            c['set'] = [name, names_of(g, k), [n, 0., 0.] if k == 'bg' else [.1, n]]
        else:
            for q in names_of(g, 'altfacies'):
                e.pop(q, None)
            c['set'] = [name, names_of(g, 'facies'), draw(st.sampled_from([[n], [0, n], [n, 0]]))]
        c['what'] = 'facies number {} in {}'.format(n, k)
    elif kind == 'layerdist':
        if g == 'trunc_ellip':
            e['structure'] = draw(st.sampled_from(['dip', 'bulb_l', 'random']))
            drop = {'dip': ['dipset_d'], 'bulb_l': ['bulbset_d'], 'random': ['dipset_d', 'bulbset_d']}[e['structure']]
            e['bulbset_d'] = .5
        else:
            e['structure'], drop = 'dip', ['dipset_d']
        e['dipset_d'] = .5
        e.pop(draw(st.sampled_from(drop)))
    return c


def check_bad(case, env):
    o = {k: dict(v) for k, v in case['old'].items()}
    k = case['defect']
    if k == 'ae_table':
        o['strata']['ae_table'] = 'table.txt'
    elif k == 'save_aelu':
        o['strata']['save_aelu'] = True
    elif k == 'display':
        o['model'].pop('display', None)
        o['model'].pop('flag_display', None)
        o['model'][['display', 'flag_display'][case['new']['seed'] % 2]] = True
    elif k == 'user':
        o['strata']['ssm_contact'] = 'user'
        if len(case['new']['strata']['strata']) < 2:
            return None
    elif k == 'geometry':
        e = sorted(o['elements'])[0]
        o['elements'] = dict(o['elements'])
        o['elements'][e] = dict(o['elements'][e], geometry='cube')
    elif 'drop' in case or 'set' in case:
        sec, names = (case.get('drop') or case['set'])[:2]
        if sec in o['elements']:
            o['elements'] = dict(o['elements'])
            q = o['elements'][sec] = dict(o['elements'][sec])
        else:
            q = o[sec]
        for n in names:
            q.pop(n, None)
        if 'set' in case:
            q[names[case['new']['seed'] % len(names)]] = case['set'][2]
    elif 'dropsec' in case:
        o.pop(case['dropsec'])
    elif 'dropel' in case:
        o['elements'] = {n: e for n, e in o['elements'].items() if n != case['dropel']}
    if not any(n in o['run'] for n in names_of('run', 'dataoutputs') + names_of('run', 'modeloutputs')):
        o['run']['dataoutputs'] = ['npz']
    o['run']['runname'] = 'r'
    what = case.get('what', k)
    with env.scratch() as d:
        if k == 'ae_table':
            with open(os.path.join(d, 'table.txt'), 'w') as f:
                f.write('0 1 2\n')
        # results of an earlier run must survive a rejected file
        os.makedirs(os.path.join(d, 'r'))
        with open(os.path.join(d, 'r', 'old'), 'w') as f:
            f.write('x')
        ini = os.path.join(d, 'case.ini')
        with open(ini, 'w') as f:
            f.write(gen.render(o))
        try:
            gen.run_hyvr(ini, True, 0)
        except Exception:
            need(os.listdir(os.path.join(d, 'r')) == ['old'] and sorted(os.listdir(d)) in (['case.ini', 'r'], ['case.ini', 'r', 'table.txt']),
                 'a rejected file in the old format has changed earlier output')
            return 'refused: ' + k
        need(False, 'a file in the old format with a defect ({}) is accepted', what)


SUBS = [Sub('equivalent', cases(), check, quick=800),
        Sub('refused', bad_cases(), check_bad, quick=1500),
        Sub('shapes', bad_cases(['shape']), check_bad, quick=2000)]
