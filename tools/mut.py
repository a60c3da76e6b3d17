#!/usr/bin/env python3
"""Runs the checker on variants of the repository (in a scratch copy).

Every file bank/*.py defines ITEMS, a list of (name, expected, edits) where
expected is a set of property ids that must be reported ("" for a refactoring
that keeps the behaviour: nothing may be reported) and edits is a list of
(file, old, new).  usage: mut.py [--tests] [bank...] [-k substring] [-p C01,C02]
"""
import glob, importlib.util, os, shutil, subprocess, sys, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
args = sys.argv[1:]
tests = '--tests' in args; refs = '--refs' in args # only the behaviour-preserving ones
args = [a for a in args if a not in ('--tests', '--refs')]
filt = None
props = 'all'
if '-p' in args:
    i = args.index('-p'); props = args[i+1]; del args[i:i+2]
if '-k' in args:
    i = args.index('-k'); filt = args[i+1]; del args[i:i+2]
banks = args or sorted(os.path.basename(f)[:-3] for f in glob.glob(here+'/bank/*.py'))
items = []
for b in banks:
    spec = importlib.util.spec_from_file_location(b, f'{here}/bank/{b}.py')
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for it in m.ITEMS:
        if filt and filt not in it[0] or refs and it[1]: continue
        items.append((b,)+tuple(it))
import shutil as _s, tempfile as _t
binary = _t.mkdtemp(prefix='mutbin')+'/sawlint'; _s.copy(verif+'/bin/sawlint', binary)
subprocess.check_call(['go','build','-mod=vendor','-o',binary,'.'], cwd=verif+'/checker', env=dict(os.environ, GOFLAGS='-mod=vendor', GOTOOLCHAIN='local'))
def run(ix):
    i, (b, name, expected, edits) = ix
    d = f'/tmp/mut/{os.getpid()}-{i}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(['cp','-a','/repo/.',d+'/repo'])
    os.makedirs(d+'/v/evidence')
    shutil.copy(verif+'/known_findings.txt', d+'/v/') if os.path.exists(verif+'/known_findings.txt') else None
    msg = ''
    try:
        for e in edits:
            f, old, new = e[:3]
            p = f'{d}/repo/{f}'
            s = open(p).read() if os.path.exists(p) else ''
            if old == '' and not os.path.exists(p):
                s = new
            else:
                if old not in s: return name, 'EDIT DOES NOT APPLY: '+old[:60], ''
                s = s.replace(old, new) if len(e) > 3 else s.replace(old, new, 1)
            open(p,'w').write(s)
        if tests:
            env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off')
            r = subprocess.run(['go','test','./...'], cwd=d+'/repo', env=env, capture_output=True, text=True)
            if r.returncode: msg = ' TESTS FAIL: '+' '.join(l for l in r.stdout.splitlines() if l.startswith('--- FAIL') or 'FAIL' in l)[:150]
        r = subprocess.run([binary,'-property',props,'-repo',d+'/repo','-verif',d+'/v'], capture_output=True, text=True, timeout=1500)
        out = r.stdout
        got = sorted({l.split('property=')[1].split()[0] for l in out.splitlines() if l.startswith('VIOLATION')})
        exp = set(expected.split())
        details = ''
        if not exp and got or 'anchor: load' in out or r.returncode not in (0,1):
            details = out[-1800:] + r.stderr[-500:] if r.returncode not in (0,1) else '\n'.join(l[:240] for l in out.splitlines() if l.startswith(('property','rule','construct','finding')))[:1500]
        if r.returncode not in (0,1): st = 'CRASH'
        elif 'cannot resolve load' in out or 'construct load' in out: st = 'DOES NOT COMPILE'
        elif exp and not got: st = 'MISSED'
        elif exp and not (exp & set(got)): st = 'OTHER'
        elif not exp and got: st = 'FALSE ALARM'
        else: st = 'ok'
        if st in ('DOES NOT COMPILE',): details = out[:1500]
        return name, f'{st:12} expected [{expected}] got {got}{msg}', details
    finally:
        shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(int(os.environ.get("JOBS","5"))) as ex:
    bad = 0
    for name, res, det in ex.map(run, enumerate(items)):
        print(f'{name:45} {res}')
        if det: print('    '+det.replace('\n','\n    '))
        if not res.startswith('ok'): bad += 1
print(len(items), 'variants,', bad, 'not as expected')
