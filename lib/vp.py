"""
Runner for the property checks: generated-input search with Hypothesis, in several
worker processes, with shrinking, confirmation of failures, replay files and evidence.

A check module (checks/pNN.py) defines

    PROPERTY = 'P01'
    RULE     = '...'           # when does a case count as non-trivial
    SUBS     = [Sub(name, strategy, check, quick=.., thorough=..), ...]

``strategy`` generates JSON-able cases, ``check(case, env)`` raises (``Violation`` or anything
else) if the property does not hold for the case and returns a label (str) or None/False if the
case was trivial.
"""
import sys, os, json, time, hashlib, random, shutil, signal, tempfile, traceback, contextlib, io
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_TIMEOUT = 120

_hp = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _hp not in sys.path:
    sys.path.append(_hp)


class Violation(AssertionError):
    pass


class Skip(Exception):
    """The case can not be evaluated (e.g. an internal function was renamed)."""


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, serial=False):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.serial = serial


class Env:
    """Per-process scratch space."""

    def __init__(self, root):
        self.root = root
        self.n = 0

    def newdir(self):
        self.n += 1
        d = os.path.join(self.root, 'w{}_{}'.format(os.getpid(), self.n))
        os.makedirs(d)
        return d

    @contextlib.contextmanager
    def scratch(self):
        d = self.newdir()
        try:
            yield d
        finally:
            shutil.rmtree(d, ignore_errors=True)


def canon(case):
    return json.dumps(case, sort_keys=True, allow_nan=True)


class _Timeout(Violation):
    pass


def _alarm(signum, frame):
    raise _Timeout('the code under test did not finish within {} s'.format(CASE_TIMEOUT))


def seed_all(s):
    import numpy as np
    random.seed(s)
    np.random.seed(s % (2**32))


@contextlib.contextmanager
def quiet():
    import warnings
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        sys.stdout, sys.stderr = old


def run_check(sub, case, env):
    """Runs a single case in a defined state."""
    import numpy as np
    seed_all(int(hashlib.sha256(canon(case).encode()).hexdigest()[:8], 16))
    cwd = os.getcwd()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with quiet(), np.errstate(all='ignore'):
            return sub.check(case, env)
    finally:
        signal.alarm(0)
        os.chdir(cwd)


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for fr in reversed(tb):
        if '/hyvr/' in fr.filename or '/checks/' in fr.filename:
            where = ' at {}:{} in {}'.format(os.path.relpath(fr.filename, VERIF) if VERIF in fr.filename
                                             else fr.filename, fr.lineno, fr.name)
            break
    return '{}: {}{}'.format(type(e).__name__, str(e)[:600], where)


def _setup_process():
    os.environ['MPLBACKEND'] = 'Agg'
    sys.dont_write_bytecode = True
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import resource
    lim = 6 * 2**30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except (ValueError, OSError):
        pass


def _worker(q, modname, subidx, n, seed, root, deadline, shrink_s, skip):
    try:
        _worker_(q, modname, subidx, n, seed, root, deadline, shrink_s, skip)
    except BaseException as e:
        q.put({'sub': subidx, 'crash': ''.join(traceback.format_exception(e))[-3000:]})


def _worker_(q, modname, subidx, n, seed, root, deadline, shrink_s, skip):
    """``skip``: Hypothesis starts with the simplest case, only one of the workers has to look at it"""
    _setup_process()
    import importlib
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase, Verbosity
    mod = importlib.import_module(modname)
    sub = mod.SUBS[subidx]
    env = Env(root)
    st = {'eval': 0, 'skip': 0, 'labels': {}, 'keys': set(), 'samples': [], 'fail': None, 'err': None,
          'first_fail': None, 'history': [], 't_fail': None}
    if n <= 0:
        q.put({'sub': subidx, 'eval': 0, 'skip': 0, 'labels': {}, 'keys': [], 'samples': [], 'fail': None})
        return

    todo = [skip]

    def body(case):
        if todo[0]:
            todo[0] = False
            return
        now = time.time()
        if st['t_fail'] is None:
            if now > deadline:
                return
        elif now > st['t_fail'] + shrink_s:
            return
        case = json.loads(canon(case))
        st['eval'] += 1
        if st['t_fail'] is None:
            st['history'].append(case)
        try:
            label = run_check(sub, case, env)
        except Skip:
            st['skip'] += 1
            return
        except Exception as e:
            if st['t_fail'] is None:
                st['t_fail'] = time.time()
                st['first_fail'] = case
                if isinstance(e, _Timeout):
                    st['t_fail'] -= shrink_s
            key = (len(canon(case)), canon(case))
            if st['fail'] is None or key < st['key']:
                st['fail'], st['key'], st['err'] = case, key, describe(e)
            raise Violation(describe(e)[:80].split(' at ')[0][:30])
        if label:
            labels = [label] if isinstance(label, str) else list(label)
            for l in labels:
                st['labels'][l] = st['labels'].get(l, 0) + 1
            st['keys'].add(hashlib.sha256(canon(case).encode()).hexdigest()[:16])
            if len(st['samples']) < 3 or (len(st['samples']) < 6 and random.random() < .05):
                st['samples'].append(case)

    test = hseed(seed)(settings(
        max_examples=n + int(skip), database=None, deadline=None, derandomize=False,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink), verbosity=Verbosity.quiet,
        print_blob=False)(given(sub.strategy)(body)))
    try:
        with quiet():
            test()
    except BaseException as e:
        if st['fail'] is None:
            raise
    q.put({'sub': subidx, 'eval': st['eval'], 'skip': st['skip'], 'labels': st['labels'],
           'keys': sorted(st['keys']), 'samples': st['samples'], 'fail': st['fail'], 'err': st['err'],
           'first_fail': st['first_fail'], 'history': st['history'] if st['fail'] is not None else None})


def _confirm(q, modname, subidx, cases, root):
    """Runs the cases in a fresh process; reports the error of the last one."""
    try:
        _setup_process()
        import importlib
        mod = importlib.import_module(modname)
        sub = mod.SUBS[subidx]
        env = Env(root)
        err = None
        for case in cases:
            err = None
            try:
                run_check(sub, json.loads(canon(case)), env)
            except Skip:
                pass
            except Exception as e:
                err = describe(e)
        q.put(('ok', err))
    except BaseException as e:
        q.put(('crash', ''.join(traceback.format_exception(e))[-2000:]))


def confirm(ctx, modname, subidx, cases, root):
    q = ctx.Queue()
    p = ctx.Process(target=_confirm, args=(q, modname, subidx, cases, root))
    p.start()
    try:
        res = q.get(timeout=CASE_TIMEOUT * 2 + 5 * len(cases))
    except Exception:
        res = ('crash', 'no answer')
    p.join(5)
    if p.is_alive():
        p.kill()
    return res


def load_known(prop):
    """Known findings: a list of {"property", "sub", "case", "what"}; fixed entries suppress nothing."""
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get('findings', []) if k['property'] == prop]


def main(modname, tier, seed):
    t0 = time.time()
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.path.insert(0, os.path.join(VERIF, 'lib'))
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    _setup_process_main()
    import importlib
    ctx = mp.get_context('fork')
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    thorough = tier == 'thorough'
    nworkers = min(8, os.cpu_count() or 4) if thorough else min(6, os.cpu_count() or 4)
    budget = float(os.environ.get('VERIF_BUDGET_S', 3000 if thorough else 240))
    deadline = t0 + budget
    shrink_s = float(os.environ.get('VERIF_SHRINK_S', 120 if thorough else 30))
    root = tempfile.mkdtemp(prefix='vp_' + prop + '_')
    results = []
    crashed = []
    try:
        # regression corpus first
        corpus = []
        cpath = os.path.join(VERIF, 'corpus', prop + '.json')
        if os.path.exists(cpath):
            with open(cpath) as f:
                corpus = json.load(f)
        names = [s.name for s in mod.SUBS]
        tasks = []
        for i, sub in enumerate(mod.SUBS):
            total = sub.thorough if thorough else sub.quick
            scale = float(os.environ.get('VERIF_SCALE', '1'))
            total = max(1, int(total * scale))
            parts = 1 if sub.serial else (4 * nworkers if thorough else nworkers)
            parts = max(1, min(parts, total))
            base = int(hashlib.sha256('{}/{}/{}/{}'.format(prop, sub.name, seed, tier).encode()).hexdigest()[:12], 16)
            for k in range(parts):
                n = total // parts + (1 if k < total % parts else 0)
                tasks.append((i, n, base + k, k > 0))
        q = ctx.Queue()
        running, todo, done = [], list(tasks), 0
        ncorpus = 0
        for c in corpus:
            if c['sub'] not in names:
                continue
            si = names.index(c['sub'])
            status, err = confirm(ctx, modname, si, [c['case']], root)
            ncorpus += 1
            results.append({'sub': si, 'eval': 1, 'skip': 0, 'labels': {'corpus': 1},
                            'keys': [hashlib.sha256(canon(c['case']).encode()).hexdigest()[:16]],
                            'samples': [], 'fail': c['case'] if err or status == 'crash' else None,
                            'err': err, 'history': None})
        failed = any(r['fail'] is not None for r in results)
        procs = {}
        pend = 0
        while (todo or pend) and not (failed and not pend):
            while todo and len(procs) < nworkers and not failed:
                i, n, s, skip = todo.pop(0)
                p = ctx.Process(target=_worker, args=(q, modname, i, n, s, root, deadline, shrink_s, skip))
                p.start()
                procs[p.pid] = (p, i)
                pend += 1
            try:
                r = q.get(timeout=1)
                pend -= 1
                if 'crash' in r:
                    crashed.append(r)
                else:
                    results.append(r)
                    if r['fail'] is not None:
                        failed = True
                        deadline_kill = time.time() + 5
            except Exception:
                pass
            for pid in list(procs):
                p, i = procs[pid]
                if not p.is_alive():
                    p.join()
                    if p.exitcode not in (0, None) :
                        # killed (memory or crash of the interpreter)
                        crashed.append({'sub': i, 'crash': 'worker died with exit code {}'.format(p.exitcode)})
                        pend -= 1
                    del procs[pid]
            if failed and time.time() > deadline_kill + shrink_s:
                break
        for p, i in procs.values():
            if p.is_alive():
                p.kill()
        return report(ctx, mod, modname, prop, tier, seed, results, crashed, t0, ncorpus, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _setup_process_main():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)


def report(ctx, mod, modname, prop, tier, seed, results, crashed, t0, ncorpus, root):
    known = load_known(prop)
    names = [s.name for s in mod.SUBS]
    violations = []
    known_hits = []
    unconfirmed = []
    seen_subs = set()
    fails = sorted([r for r in results if r['fail'] is not None], key=lambda r: len(canon(r['fail'])))
    for r in fails:
        if r['sub'] in seen_subs:
            continue
        subname = names[r['sub']]
        status, err = confirm(ctx, modname, r['sub'], [r['fail']], root)
        cases = [r['fail']]
        if status == 'ok' and err is None and r.get('first_fail') is not None:
            # depends on state that earlier cases left behind
            cases = r['history']
            status, err = confirm(ctx, modname, r['sub'], cases, root)
        if status == 'ok' and err is None:
            unconfirmed.append({'sub': subname, 'case': r['fail'], 'err': r['err']})
            continue
        k = [x for x in known if x['sub'] == subname and canon(x['case']) == canon(r['fail'])]
        if k:
            known_hits.append(k[0])
            continue
        seen_subs.add(r['sub'])
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha256(canon(cases).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '{}_{}_{}.json'.format(prop, subname, h))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'sub': subname, 'module': modname, 'cases': cases,
                       'error': err, 'seed': seed, 'tier': tier}, f, indent=1)
        violations.append((path, subname, err))
    for k in known:
        print('KNOWN-FINDING: property={} {}'.format(prop, k['what']))
    evals = sum(r['eval'] for r in results)
    keys = set()
    per = {}
    samples = []
    for r in results:
        keys.update(names[r['sub']] + k for k in r['keys'])
        d = per.setdefault(names[r['sub']], {'evaluations': 0, 'distinct_nontrivial': set(), 'labels': {}, 'skipped': 0})
        d['evaluations'] += r['eval']
        d['skipped'] += r['skip']
        d['distinct_nontrivial'].update(r['keys'])
        for l, c in r['labels'].items():
            d['labels'][l] = d['labels'].get(l, 0) + c
        have = sum(1 for s in samples if s['sub'] == names[r['sub']])
        for s in r['samples'][:max(0, 3 - have)]:
            samples.append({'sub': names[r['sub']], 'case': s})
    for d in per.values():
        d['distinct_nontrivial'] = len(d['distinct_nontrivial'])
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': evals, 'distinct_nontrivial': len(keys), 'rule': mod.RULE,
                     'samples': samples, 'per_sub_check': per, 'regression_cases': ncorpus},
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 1), 'violations': len(violations),
    }
    if unconfirmed:
        ev['unconfirmed'] = unconfirmed
    if crashed:
        ev['crashed_workers'] = [c['crash'] for c in crashed][:5]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for path, subname, err in violations:
        print('  {} [{}]: {}'.format(prop, subname, err))
        print('VIOLATION property={} replay={}'.format(prop, path))
    for c in crashed[:3]:
        print('worker crashed ({}): {}'.format(names[c['sub']], c['crash']), file=sys.stderr)
    for u in unconfirmed:
        print('not reproduced, not reported ({}): {}'.format(u['sub'], u['err']), file=sys.stderr)
    print('{}: {} cases, {} distinct non-trivial, {} violations, {:.1f} s ({})'.format(
        prop, evals, len(keys), len(violations), wall, tier))
    if violations:
        return 1
    if crashed:
        # the code under test could not even be driven: treat import failures etc. as violations
        path = os.path.join(VERIF, 'replays', prop + '_crash.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'module': modname, 'crash': [c['crash'] for c in crashed]}, f, indent=1)
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    return 0
