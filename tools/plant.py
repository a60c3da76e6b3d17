#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/plants/*.py and confirms each one.

A plant is a dict: id, property, pkg (directory of the demonstration test),
edits [(file, old, new)], demo (Go test source), needs, breaks; or, instead of
demo, sh (a whole demo.sh) and files {name: text}.
usage: plant.py [-n (do not confirm)] [id substring...]
"""
import glob, importlib.util, json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(here)
args = [a for a in sys.argv[1:] if a != '-n']; confirm = '-n' not in sys.argv
SH = '''#!/bin/bash
# Exit 0 if the property holds for the demonstrated case, nonzero otherwise.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_planted_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$T/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$T/overlay.json" -run TestPlantedDemo "./%(pkg)s"
'''
items = []
for f in sorted(glob.glob(here+'/plants/*.py')):
    spec = importlib.util.spec_from_file_location('p', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    items += m.ITEMS
ok = True
for it in items:
    if args and not any(a in it['id'] for a in args): continue
    d = f"{verif}/seeded/{it['id']}"; w = '/tmp/plant/repo'
    shutil.rmtree('/tmp/plant', ignore_errors=True); os.makedirs('/tmp/plant')
    subprocess.check_call(['cp', '-a', '/repo', w])
    env = dict(os.environ, GOFLAGS='-mod=readonly', GOPROXY='off')
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    if 'sh' in it: open(d+'/demo.sh', 'w').write(it['sh'])
    else:
        open(d+'/demo.sh', 'w').write(SH % {'pkg': it['pkg']})
        open(d+'/demo_test.go', 'w').write(it['demo'].lstrip())
    for n, t in it.get('files', {}).items(): open(d+'/'+n, 'w').write(t)
    os.chmod(d+'/demo.sh', 0o755)
    json.dump({'property': it['property'], 'needs': it['needs'], 'what_it_breaks': it['breaks']}, open(d+'/meta.json', 'w'), indent=1)
    if confirm:
        r = subprocess.run(['bash', d+'/demo.sh'], cwd=w, capture_output=True, text=True)
        if r.returncode: print(it['id'], 'DEMO FAILS ON THE UNCHANGED TREE\n', r.stdout[-2500:], r.stderr[-800:]); ok = False
    bad = False
    for f, old, new in it['edits']:
        s = open(f'{w}/{f}').read()
        if s.count(old) != 1: print(it['id'], 'EDIT MATCHES', s.count(old), 'TIMES:', old[:60]); bad = True; break
        open(f'{w}/{f}', 'w').write(s.replace(old, new))
    if bad: ok = False; continue
    p = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True).stdout
    open(d+'/patch.diff', 'w').write(p)
    if not confirm: continue
    r = subprocess.run('gofmt -l $(git diff --name-only); go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files"', shell=True, cwd=w, env=env, capture_output=True, text=True)
    if 'FAIL' in r.stdout or r.returncode > 1 or '.go' in r.stdout.split('ok')[0]: print(it['id'], 'BUILD, FORMAT OR TESTS:', r.stdout[-1500:], r.stderr[-800:]); ok = False
    r2 = subprocess.run(['bash', d+'/demo.sh'], cwd=w, capture_output=True, text=True)
    if r2.returncode == 0: print(it['id'], 'DEMO PASSES WITH THE CHANGE'); ok = False
    elif 'build failed' in r2.stdout+r2.stderr: print(it['id'], 'DEMO DOES NOT BUILD', r2.stdout, r2.stderr); ok = False
    else: print(it['id'], 'ok')
shutil.rmtree('/tmp/plant', ignore_errors=True)
sys.exit(0 if ok else 1)
