"""P04: directory layout of a run, and the backup of the parameter file."""
import os, pathlib
import numpy as np
from hypothesis import strategies as st
from vp import Sub, Skip, need, Violation
import gen

PROPERTY = 'P04'
RULE = 'every run counts (file name, run name, model directory, realizations and formats vary)'
ASSUMPTIONS = ['run names and file names of letters, digits, dots, spaces, dashes and underscores']

FMT = ['npz', 'py', 'mat', 'h5', 'vtr', 'hgs']
EXT = {'npz': '.npz', 'py': '.pickle', 'mat': '.mat', 'h5': '.h5', 'vtr': '.vtr'}


def foreign(draw, cfg):
    # names in other languages
    names = draw(st.permutations(['Grès', 'Schlämme', 'ил', '砂', 'naïve-Ton']))
    cfg['strata']['strata'] = [names[i % 4] + str(i) for i in range(len(cfg['strata']['strata']))]
    cfg['hydraulics'] = dict(cfg['hydraulics'])
    old = cfg['hydraulics']['hydrofacies']
    new = {f: names[i % 5] + str(i) for i, f in enumerate(old)}

    def tr(v):
        return [tr(x) for x in v] if isinstance(v, list) else new.get(v, v)
    cfg['hydraulics']['hydrofacies'] = tr(old)
    for d in [cfg['strata']] + list(cfg['elements'].values()):
        for k in ('bg_facies', 'facies', 'altfacies', 'lag_facies'):
            if k in d:
                d[k] = tr(d[k])


@st.composite
def cases(draw, formats=FMT):
    cfg = draw(gen.models(grid=gen.grids(nx=(1, 4), ny=(1, 3), nz=(1, 4)), max_strata=2, max_types=2))
    r = {}
    runname = draw(st.sampled_from([None, None, None, None, 'run', 'r-1', 'R_2', 'v1.2', 'my run', 'x_autogenerated', 'run_', '_r', 'run.', '.r', '..r']))
    if 'mf' in formats:
        runname = draw(st.sampled_from([None, 'run', 'R_2']))
    if runname is not None:
        r['runname'] = runname
    r['numsim'] = draw(st.sampled_from([None, 1, 2, 3, 11]))
    if r['numsim'] is None or 'mf' in formats:
        r['numsim'] = draw(st.sampled_from([1, 2]))
    if draw(st.booleans()) and r['numsim'] == 1:
        r.pop('numsim')
    r['outputs'] = draw(st.lists(st.sampled_from(formats), max_size=len(formats), unique=True))
    if draw(st.integers(0, 5)) == 0:
        r['outputs'] = list(draw(st.permutations(formats)))
    cfg['run'] = r
    cfg['flowtrans'] = {'hin': [2., 0., 0.], 'hout': [1., 0., 0.]}
    cfg['style'] = draw(gen.styles())
    if draw(st.booleans()):
        foreign(draw, cfg)
    ininame = draw(st.sampled_from(['m.ini', 'a.b.ini', 'my model.ini', 'conf.txt', 'M_parameters.ini', 'x_backup.ini', 'autogenerated_backup.ini', 'case_.ini', 'm__.ini', ' x.ini', '_.ini', 'a_autogenerated_backup.ini.ini', 'a_autogenerated.ini', 'b_autogenerated_backup_2.ini']))
    if 'mf' in formats:
        ininame = draw(st.sampled_from(['m.ini', 'M2.ini']))
    return {'cfg': cfg, 'ininame': ininame, 'modeldir': draw(st.sampled_from([None, None, 'existing', 'new/deep'])),
            'aspath': draw(st.sampled_from(['str', 'path', 'relative'])), 'setting': draw(st.booleans()),
            'link': draw(st.integers(0, 5)) == 0,
            'move': draw(st.sampled_from([None, None, 'rename', 'relocate']))}


def tree(root):
    res = set()
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            res.add(os.path.relpath(os.path.join(base, n), root))
    return res


def check(case, env):
    cfg = dict(case['cfg'])
    cfg['run'] = dict(cfg['run'])
    with env.scratch() as root:
        inidir = os.path.join(root, 'ini')
        cwd = os.path.join(root, 'cwd')
        os.makedirs(inidir)
        os.makedirs(cwd)
        base = inidir
        if case['modeldir']:
            base = os.path.join(root, 'models', case['modeldir'])
            if case['modeldir'] == 'existing':
                os.makedirs(base)
            cfg['run']['modeldir'] = base
        ini = os.path.join(inidir, case['ininame'])
        gen.write_ini(ini, cfg)
        if case.get('link'):
            # the parameter file is a symbolic link to a file somewhere else
            os.makedirs(os.path.join(root, 'store'))
            os.rename(ini, os.path.join(root, 'store', 'the.file'))
            os.symlink(os.path.join('..', 'store', 'the.file'), ini)
        os.chdir(cwd)
        arg = ini
        if case['aspath'] == 'path':
            arg = pathlib.Path(ini)
        elif case['aspath'] == 'relative':
            arg = os.path.join('..', 'ini', case['ininame'])
        gen.run_hyvr(arg, None, cfg['seed'])
        name = cfg['run'].get('runname') or os.path.splitext(case['ininame'])[0]
        rundir = os.path.join(base, name)
        need(os.path.isdir(rundir), 'run directory {} does not exist; there is {}', rundir, sorted(tree(root))[:10])
        backup = name + '_autogenerated_backup.ini'
        numsim = cfg['run'].get('numsim', 1)
        outputs = cfg['run']['outputs']

        def layout():
            exp = {backup}
            got = tree(rundir)
            for k in range(1, numsim + 1):
                d = ''
                if numsim > 1:
                    d = 'real_{:03d}/'.format(k)
                    exp.add(d[:-1])
                for f in outputs:
                    if f in EXT:
                        exp.add(d + name + EXT[f])
                    elif f == 'hgs':
                        exp |= {d + 'HGS', d + 'HGS/ktensors.txt', d + 'HGS/porosity.txt'}
                    elif f == 'mf':
                        sub = {g for g in got if g.startswith(d + 'MODFLOW/')}
                        need({d + 'MODFLOW/' + name + e for e in ('.nam', '.dis', '.bas', '.lpf')} <= sub, 'MODFLOW files: {}', sorted(sub))
                        exp |= sub | {d + 'MODFLOW'}
                    elif f == 'mf6':
                        sub = {g for g in got if g.startswith(d + 'mf6/')}
                        need({d + 'mf6/mfsim.nam', d + 'mf6/' + name + '.dis', d + 'mf6/' + name + '.npf'} <= sub, 'MODFLOW 6 files: {}', sorted(sub))
                        exp |= sub | {d + 'mf6'}
            need(got == exp, 'the run directory contains {}, expected {}', sorted(got ^ exp), sorted(exp)[:12])

        layout()
        allowed = {'ini', 'ini/' + case['ininame'], 'cwd'} | ({'store', 'store/the.file'} if case.get('link') else set())
        got = {g for g in tree(root)
               if os.path.join(root, g) != rundir and not os.path.join(root, g).startswith(rundir + '/')} - allowed
        anc = set()
        b = base
        while b != root:
            anc.add(os.path.relpath(b, root))
            b = os.path.dirname(b)
        need(got <= anc, 'files outside the run directory: {}', sorted(got - anc))
        # run the backup again
        if not hasattr(gen, 'load_npz'):
            return
        first = {}
        for g in tree(rundir):
            if g.endswith('.npz'):
                first[g] = gen.load_npz(os.path.join(rundir, g))
        newdir = {None: rundir, 'rename': os.path.join(base, 'kept'), 'relocate': os.path.join(root, 'archive', 'x')}[case.get('move')]
        if newdir != rundir:
            # the directory of the backup file is the directory of the run, wherever it is now
            os.makedirs(os.path.dirname(newdir), exist_ok=True)
            os.rename(rundir, newdir)
            rundir = newdir
            for g in first:
                os.remove(os.path.join(rundir, g))
        outside = {g for g in tree(root) if not os.path.join(root, g).startswith(rundir + '/')}
        gen.run_hyvr(os.path.join(rundir, backup), True, cfg['seed'])
        layout()
        now = {g for g in tree(root) if not os.path.join(root, g).startswith(rundir + '/')}
        need(now == outside, 'rerunning the backup changed files outside its directory: {}', sorted(now ^ outside))
        for g, a in first.items():
            gen.diff_arrays(a, gen.load_npz(os.path.join(rundir, g)), what='rerun of the backup file gives different results')
        try:
            from hyvr.input.parameters import parameters
        except ImportError:
            return 'no parse'
        p1 = parameters(ini)
        p2 = parameters(os.path.join(rundir, backup))
        if case.get('move'):
            for p in (p1, p2):
                if isinstance(p[0], dict):
                    p[0].pop('rundir', None)
                    p[0].pop('modeldir', None)
        need(repr(p1) == repr(p2), 'the backup file has a different configuration: {} / {}', repr(p1)[:300], repr(p2)[:300])
        return ['{} realizations'.format(numsim)] + ['fmt ' + f for f in outputs] + \
               ['modeldir' if case['modeldir'] else 'inidir', 'runname' if 'runname' in cfg['run'] else 'filename']


@st.composite
def many_cases(draw):
    e = {'geometry': 'sheet', 'structure': 'massive', 'contact_model': ['flat'], 'facies': ['a', 'b'], 'lens_thickness': -1}
    cfg = gen.single({'dx': 1., 'dy': 1., 'dz': 1., 'lx': 1., 'ly': 2., 'lz': 1.}, e, ['a', 'b'], seed=draw(st.integers(0, 2**20)), bg=('a', 0., 0.))
    cfg['run'] = {'runname': 'r', 'numsim': draw(st.one_of(st.integers(5, 40), st.sampled_from([99, 100, 101, 128, 260]))), 'outputs': ['npz']}
    return {'cfg': cfg, 'ininame': 'm.ini', 'modeldir': None, 'aspath': 'str', 'setting': False, 'move': None}


@st.composite
def locale_cases(draw):
    cfg = draw(gen.models(grid=gen.grids(nx=(1, 3), ny=(1, 3), nz=(1, 3)), max_strata=2, max_types=2))
    foreign(draw, cfg)
    cfg['run'] = {'runname': 'r', 'outputs': ['npz']}
    cfg['style'] = draw(gen.styles())
    return {'cfg': cfg, 'env': draw(st.sampled_from([{'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'LC_ALL': 'C'}, {'LC_ALL': 'C.utf8'}]))}


def check_locale(case, env):
    # the file means the same whatever the locale is
    import subprocess, sys, vp
    cfg = case['cfg']
    with env.scratch() as d:
        ini = os.path.join(d, 'm.ini')
        gen.write_ini(ini, cfg)
        e = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG', 'PYTHON'))}
        e.update(case['env'], PYTHONPATH=vp.REPO, PYTHONDONTWRITEBYTECODE='1')
        code = 'import sys, random, numpy as np; random.seed(1); np.random.seed(1); import hyvr; hyvr.run(sys.argv[1], True)'
        res = []
        for f in (ini, os.path.join(d, 'r', 'r_autogenerated_backup.ini')):
            p = subprocess.run([sys.executable, '-c', code, f], env=e, capture_output=True, cwd=d)
            need(p.returncode == 0, '{} fails: {}', os.path.basename(f), p.stderr.decode('utf-8', 'replace')[-300:])
            res.append(gen.load_npz(os.path.join(d, 'r', 'r.npz')))
        gen.diff_arrays(res[0], res[1], what='rerun of the backup file gives different results')
        try:
            from hyvr.input.parameters import parameters
        except ImportError:
            return 'no parse'
        p1, p2 = parameters(ini), parameters(os.path.join(d, 'r', 'r_autogenerated_backup.ini'))
        for p in (p1, p2):
            if isinstance(p[0], dict):
                p[0].pop('rundir', None)
                p[0].pop('modeldir', None)
        need(repr(p1) == repr(p2), 'the backup file has a different configuration: {} / {}', repr(p1)[:300], repr(p2)[:300])
        return 'locale ' + '/'.join(sorted(case['env']))


SUBS = [Sub('locale', locale_cases(), check_locale, quick=24, thorough=200),
        Sub('layout', cases(), check, quick=600),
        Sub('layout_flow', cases(['npz', 'mf', 'mf6', 'hgs', 'vtr', 'py', 'h5', 'mat']), check, quick=60),
        Sub('many', many_cases(), check, quick=24, thorough=120)]
