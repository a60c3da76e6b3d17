#!/bin/bash
# one.sh BANK NAME PROPS: full report of one variant
set -e
rm -rf /tmp/one && mkdir -p /tmp/one/v/evidence && cp -a /repo /tmp/one/repo && cp /verif/known_findings.txt /tmp/one/v/
python3 - "$1" "$2" <<'P'
import importlib.util,sys,os
spec=importlib.util.spec_from_file_location('b','/verif/tools/bank/%s.py'%sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
for it in m.ITEMS:
    if it[0]==sys.argv[2]:
        for e in it[2]:
            p='/tmp/one/repo/'+e[0]; s=open(p).read() if os.path.exists(p) else ''
            assert e[1] in s, e[1]
            s=(s.replace(e[1],e[2]) if len(e)>3 else s.replace(e[1],e[2],1)) if s else e[2]
            open(p,'w').write(s)
P
/verif/bin/sawlint -property $3 -repo /tmp/one/repo -verif /tmp/one/v
