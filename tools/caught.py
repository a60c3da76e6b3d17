#!/usr/bin/env python3
"""Runs all checks on every seeded change (scratch copies); writes design/caught.json."""
import glob, json, os, shutil, subprocess, sys, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__)); v = os.path.dirname(here)
subprocess.check_call(['bash', v+'/build.sh'])
sel = sys.argv[1:]
import tempfile
binary = tempfile.mkdtemp(prefix='caughtbin')+'/sawlint'; shutil.copy(v+'/bin/sawlint', binary)
def run(d):
    n = d.rstrip('/').split('/')[-1]; w = f'/tmp/caught/{n}'
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w+'/v/evidence')
    subprocess.check_call(['cp', '-a', '/repo', w+'/repo'])
    shutil.copy(v+'/known_findings.txt', w+'/v/')
    subprocess.check_call(['git', 'apply', d+'/patch.diff'], cwd=w+'/repo')
    r = subprocess.run([binary, '-property', 'all', '-repo', w+'/repo', '-verif', w+'/v'], capture_output=True, text=True)
    got = sorted({l.split('property=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')})
    und = 'undecided' in r.stdout or 'rule      anchor' in r.stdout or r.returncode not in (0, 1)
    shutil.rmtree(w, ignore_errors=True)
    return n, got, json.load(open(d+'/meta.json'))['property'], und
res = {}
p = here+'/design/caught.json'
if os.path.exists(p): res = json.load(open(p))
ds = [d for d in sorted(glob.glob(v+'/seeded/*')) if not sel or any(s in d for s in sel)]
with cf.ThreadPoolExecutor(int(os.environ.get("JOBS","5"))) as ex:
    for n, got, prop, und in ex.map(run, ds):
        res[n] = ' '.join(got) or 'none'
        print(n, 'property', prop, '->', got, '' if prop in got else '  <<<<<< MISSED', '(with undecided)' if und else '')
res = {k: res[k] for k in sorted(res) if os.path.exists(f'{v}/seeded/{k}')}
json.dump(res, open(p, 'w'), indent=1); open(p, 'a').write('\n')
