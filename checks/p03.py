"""P03: run directories: nothing is destroyed without permission, nothing outside is touched."""
import os, sys, hashlib, subprocess
from hypothesis import strategies as st
from vp import Sub, Skip, need, Violation, REPO
import gen

PROPERTY = 'P03'
RULE = 'histories in which at least one run meets an existing run directory or is rejected'
ASSUMPTIONS = ['the run directory itself is not a symbolic link', 'all effects are confined to a scratch directory']

M = {'dx': 1., 'dy': 1., 'dz': .5, 'lx': 2., 'ly': 2., 'lz': 1.}
SHEET = {'geometry': 'sheet', 'structure': 'massive', 'contact_model': ['flat'], 'facies': ['a'], 'lens_thickness': -1}
FORMATS = ['npz', 'py', 'mat', 'h5', 'vtr', 'hgs']


@st.composite
def op(draw):
    k = draw(st.sampled_from(['run', 'run', 'run', 'plant', 'invalid', 'touch']))
    o = {'op': k}
    if k in ('run', 'invalid'):
        o['flag'] = draw(st.sampled_from([None, None, True, False]))
        o['setting'] = draw(st.sampled_from([None, True, False]))
        o['numsim'] = draw(st.integers(1, 2))
        o['outputs'] = draw(st.lists(st.sampled_from(FORMATS), max_size=3, unique=True))
        o['name'] = draw(st.sampled_from(['r1', 'r1', 'r2']))
        o['old'] = draw(st.integers(0, 5)) == 0
        o['where'] = draw(st.sampled_from(['ini', 'ini', 'ini', 'modeldir', 'newdir']))
    if k == 'invalid':
        o['defect'] = draw(st.sampled_from(['noopt', 'facies', 'section', 'type', 'element', 'shape', 'output',
                                               'undeclared', 'undeclared', 'contact', 'ncontacts', 'layerdist', 'flowtrans', 'bgfacies', 'geometry']))
    if k == 'plant':
        o['name'] = draw(st.sampled_from(['r1', 'r2']))
        o['what'] = draw(st.sampled_from(['file', 'nested', 'link_file', 'link_dir', 'dangling', 'loop', 'empty', 'hidden', 'readonly']))
        o['where'] = draw(st.sampled_from(['ini', 'ini', 'modeldir']))
    return o


histories = st.fixed_dictionaries({'ops': st.lists(op(), min_size=1, max_size=6), 'seed': st.integers(0, 999),
                                   'asfile': st.integers(0, 15).map(lambda k: k == 0)})


def snapshot(root):
    snap = {}
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                snap[rel] = ('link', os.readlink(p))
            elif os.path.isdir(p):
                snap[rel] = ('dir',)
            else:
                with open(p, 'rb') as f:
                    snap[rel] = ('file', hashlib.sha256(f.read()).hexdigest())
    return snap


def ini_text(o, modeldir):
    cfg = gen.single(M, dict(SHEET), ['a', 'bg'])
    r = {'runname': o['name'], 'numsim': o['numsim'], 'outputs': o['outputs']}
    if o['setting'] is not None:
        r['overwrite_old_output'] = o['setting']
    if o['where'] != 'ini':
        r['modeldir'] = modeldir[o['where']]
    if 'hgs' in o['outputs']:
        cfg['flowtrans'] = {'hin': [1., 0., 0.]}
    cfg['run'] = r
    d = o.get('defect')
    if d == 'noopt':
        cfg['model'].pop('lx')
    elif d == 'facies':
        cfg['elements']['e']['facies'] = ['nope']
    elif d == 'section':
        cfg.pop('hydraulics')
    elif d == 'type':
        cfg['model']['dx'] = 'abc'
    elif d == 'element':
        cfg['strata']['ae_in_strata'] = [['e', 'missing']]
        cfg['strata']['ae_prob'] = [[.5, .5]]
        cfg['strata']['ae_z_mean'] = [[1., 1.]]
    elif d == 'shape':
        cfg['strata']['avul'] = [[0., 0., 0.]]
    elif d == 'output':
        cfg['run']['outputs'] = ['npz', 'nope']
    elif d == 'undeclared':
        cfg['elements']['other'] = dict(cfg['elements']['e'])
    elif d == 'contact':
        cfg['elements']['e']['contact_model'] = ['random', .1]
    elif d == 'ncontacts':
        cfg['strata']['strata_contact_models'] = [['flat', .5]]
    elif d == 'layerdist':
        cfg['elements']['e']['structure'] = 'dip'
        cfg['elements']['e'].pop('dipset_dist', None)
    elif d == 'flowtrans':
        cfg['run']['outputs'] = ['npz', 'mf']
        cfg.pop('flowtrans', None)
    elif d == 'bgfacies':
        cfg['strata']['bg_facies'] = ['nope']
    elif d == 'geometry':
        cfg['elements']['e']['geometry'] = 'blob'
    return gen.render(cfg)


def expected_files(o):
    ext = {'npz': ['.npz'], 'py': ['.pickle'], 'mat': ['.mat'], 'h5': ['.h5'], 'vtr': ['.vtr']}
    res = {o['name'] + '_autogenerated_backup.ini'}
    for k in range(1, o['numsim'] + 1):
        d = 'real_{:03d}/'.format(k) if o['numsim'] > 1 else ''
        if d:
            res.add(d[:-1])
        for f in o['outputs']:
            if f == 'hgs':
                res |= {d + 'HGS', d + 'HGS/ktensors.txt', d + 'HGS/porosity.txt'}
            else:
                res |= {d + o['name'] + e for e in ext[f]}
    return res


def plant(o, rundir, outside):
    os.makedirs(rundir, exist_ok=True)
    w = o['what']

    def put(p, t='old'):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(t)
    if w == 'file':
        put(os.path.join(rundir, 'notes.txt'))
    elif w == 'hidden':
        put(os.path.join(rundir, '.hidden'))
    elif w == 'nested':
        put(os.path.join(rundir, 'deep', 'er', 'x.dat'))
        put(os.path.join(rundir, 'real_001', 'old.npz'))
    elif w == 'readonly':
        put(os.path.join(rundir, 'ro.txt'))
        os.chmod(os.path.join(rundir, 'ro.txt'), 0o444)
    else:
        name = os.path.join(rundir, 'l_' + w)
        if os.path.lexists(name):
            return
        if w == 'link_file':
            os.symlink(os.path.join(outside, 'precious.txt'), name)
        elif w == 'link_dir':
            os.symlink(outside, name)
        elif w == 'dangling':
            os.symlink(os.path.join(outside, 'nowhere'), name)
        elif w == 'loop':
            os.symlink(rundir, name)


def check(case, env, cli=False):
    with env.scratch() as root:
        outside = os.path.join(root, 'outside')
        inidir = os.path.join(root, 'ini')
        cwd = os.path.join(root, 'cwd')
        mdir = os.path.join(root, 'models')
        for p in (outside, inidir, cwd, mdir):
            os.makedirs(os.path.join(p, 'sub'))
            for q in ('precious.txt', 'sub/precious2.txt'):
                with open(os.path.join(p, q), 'w') as f:
                    f.write('do not touch ' + q)
        os.chdir(cwd)
        modeldir = {'modeldir': mdir, 'newdir': os.path.join(root, 'new', 'er')}
        base = {'ini': inidir, 'modeldir': mdir, 'newdir': modeldir['newdir']}
        interesting = set()
        if case.get('asfile'):
            with open(os.path.join(inidir, 'r1'), 'w') as f:
                f.write('a file')
        for o in case['ops']:
            if o['op'] == 'touch':
                continue
            rundir = os.path.join(base[o['where']], o['name'])
            if o['op'] == 'plant':
                if not os.path.isfile(rundir):
                    plant(o, rundir, outside)
                continue
            text = ini_text(o, modeldir)
            ini = os.path.join(inidir, 'x.ini')
            with open(ini, 'w') as f:
                f.write(text)
            before = snapshot(root)
            exists = os.path.lexists(rundir)
            permitted = o['flag'] if o['flag'] is not None else bool(o['setting'])
            if (o['op'] == 'run' and exists and not permitted and os.path.isdir(rundir) and not os.listdir(rundir)):
                os.rmdir(rundir)          # refusing and using an empty directory are both acceptable
                exists = False
                before = snapshot(root)
            ok = o['op'] == 'run' and (not exists or (permitted and os.path.isdir(rundir)))
            try:
                if cli:
                    arg = [sys.executable, '-m', 'hyvr', ini] + (['--overwrite'] if o['flag'] else [])
                    p = subprocess.run(arg, cwd=cwd, capture_output=True, text=True, timeout=100,
                                       env=dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1'))
                    failed = p.returncode != 0
                    err = p.stderr[-300:]
                else:
                    gen.run_hyvr(ini, o['flag'], case['seed'])
                    failed, err = False, ''
            except subprocess.TimeoutExpired:
                raise
            except Exception as e:
                failed, err = True, '{}: {}'.format(type(e).__name__, e)
            after = snapshot(root)
            if o.get('defect') == 'undeclared' and not failed:
                continue                  # ignoring a section that is not used is acceptable, too
            if not ok:
                interesting.add('rejected' if o['op'] == 'invalid' else 'refused')
                need(failed, '{} run was not refused (directory exists: {}, flag {}, setting {})', o['op'], exists, o['flag'], o['setting'])
                # directories above the run directory may be created
                diff = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
                diff = {k for k in diff if not (k in ('new', 'new/er') and after.get(k) == ('dir',))}
                need(not diff, 'a refused run changed {}', sorted(diff)[:5])
                continue
            need(not failed, 'run failed (directory exists: {}, flag {}, setting {}): {}', exists, o['flag'], o['setting'], err)
            rel = os.path.relpath(rundir, root)
            got = {os.path.relpath(k, rel) for k in after if k.startswith(rel + '/')}
            exp = expected_files(o)
            need(got == exp, 'content of the run directory is {}, expected {}', sorted(got), sorted(exp))
            diff = {k for k in set(before) | set(after) if before.get(k) != after.get(k)
                    and k != rel and not k.startswith(rel + '/')}
            diff = {k for k in diff if not (k in ('new', 'new/er') and after.get(k) == ('dir',))}
            need(not diff, 'the run changed files outside its directory: {}', sorted(diff)[:5])
            if exists:
                interesting.add('overwritten')
        return sorted(interesting) or None


def check_cli(case, env):
    for o in case['ops']:
        if o.get('flag') is False:
            o['flag'] = None
    return check(case, env, cli=True)


SUBS = [Sub('histories', histories, check, quick=2400),
        Sub('command_line', histories.filter(lambda c: 1 <= sum(o['op'] in ('run', 'invalid') for o in c['ops']) <= 3), check_cli, quick=30, thorough=400)]
