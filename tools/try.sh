#!/bin/bash
# try.sh MUTANT PROP: run one check on a scratch copy with one mutant, verbose
python3 - "$1" <<'P'
import sys,shutil,importlib.util
spec=importlib.util.spec_from_file_location("m","/verif/tools/mutants.py"); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
n,ps,f,a,b=[x for x in m.M+m.H if x[0]==sys.argv[1]][0]
shutil.rmtree("/tmp/try",ignore_errors=True); shutil.copytree("/repo","/tmp/try",ignore=shutil.ignore_patterns(".git","*.pyc"))
p="/tmp/try/"+f; s=open(p).read()
for x,y in ([(a,b)] if isinstance(a,str) else zip(a,b)):
    assert x in s, x
    s=s.replace(x,y,1)
open(p,"w").write(s)
P
cd /verif; AIS_REPO=/tmp/try AIS_VERBOSE=1 AIS_EVIDENCE=/tmp/mut/ev python3-vt -m ais.check $2 --tier quick | grep -v "^  proved${XX}" | cut -c1-${W:-1200} | head -${N:-6}
