#!/opt/venv/bin/python
"""replay.py <replay file>: runs the case(s) of a replay file; exit 1 if the violation is still there."""
import os, sys, json
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, 'lib'))
sys.path.insert(0, os.path.join(here, 'checks'))
import importlib, tempfile, shutil, traceback
import vp
vp._setup_process()
r = json.load(open(sys.argv[1]))
if 'cases' not in r:
    print(r.get('crash')); sys.exit(1)
mod = importlib.import_module(r['module'])
sub = [s for s in mod.SUBS if s.name == r['sub']][0]
root = tempfile.mkdtemp(prefix='vp_replay_')
rc = 0
try:
    for case in r['cases']:
        rc = 0
        try:
            vp.run_check(sub, case, vp.Env(root))
        except vp.Skip:
            print('skipped')
        except Exception as e:
            rc = 1
            last = ''.join(traceback.format_exception(e))
    print(json.dumps(r['cases'][-1], indent=1))
    if rc:
        print(last)
        print('VIOLATION property={} replay={}'.format(r['property'], sys.argv[1]))
    else:
        print('property holds for this case')
finally:
    shutil.rmtree(root, ignore_errors=True)
sys.exit(rc)
