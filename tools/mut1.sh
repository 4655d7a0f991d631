#!/bin/bash
# leaves one mutant applied in /tmp/mut1 (for debugging): mut1.sh NAME
python3 - "$1" <<'P'
import sys, os, shutil, importlib.util
sys.argv=[sys.argv[0], sys.argv[1]]
src=open('/verif/tools/mut.py').read().rsplit("main()",1)[0]
g={'__file__':'/verif/tools/mut.py','__name__':'x'}
exec(src,g)
name=sys.argv[1]
shutil.rmtree('/tmp/mut1',ignore_errors=True)
shutil.copytree('/repo','/tmp/mut1',ignore=shutil.ignore_patterns('target','.git'))
for n,p,k,parts in g['load']():
    if n==name:
        for f,o,w in parts:
            q='/tmp/mut1/'+f; s=open(q).read(); assert s.count(o)==1; open(q,'w').write(s.replace(o,w))
P
