#!/usr/bin/env python3
"""mkseed.py ID PROP FILE  : reads from stdin a python dict literal with keys old,new (text replaced once in FILE,
or a list edits of (file,old,new)), demo (C++ source), needs, breaks; writes /verif/seeded/ID."""
import sys, os, json, subprocess, shutil, tempfile
V=os.environ.get('PML_VERIF','/verif'); R=os.environ.get('PML_REPO','/repo')
DEMO='''#!/bin/bash
# cwd: /repo, after the build. Exit 0 iff the property holds on the demonstrated inputs.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
inc=""; for m in ntl-extras/*/; do inc="$inc -I$m"; done
g++ -std=c++11 -O1 $inc -I_build/include -o "$t/demo" "$d/demo.cpp" _build/libpml.a -lntl -lpthread -lgmp -lm || exit 2
cd "$t" && ulimit -c 0 && timeout 200 ./demo
'''
def main(id, prop, edits, demo, needs, breaks):
    wt=tempfile.mkdtemp(prefix='seed_')
    subprocess.check_call(['git','-C',R,'worktree','add','-q','--detach',wt,'HEAD'],stdout=subprocess.DEVNULL)
    try:
        for f,o,n in edits:
            p=wt+'/ntl-extras/'+f; s=open(p).read()
            assert s.count(o)==1, (f,o,s.count(o))
            open(p,'w').write(s.replace(o,n))
        diff=subprocess.check_output(['git','-C',wt,'diff'],text=True)
        # removed lines must belong to the original repository
    finally:
        subprocess.call(['git','-C',R,'worktree','remove','--force',wt])
    D=V+'/seeded/'+id; os.makedirs(D,exist_ok=True)
    open(D+'/patch.diff','w').write(diff); open(D+'/demo.cpp','w').write(demo)
    open(D+'/demo.sh','w').write(DEMO); os.chmod(D+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(D+'/meta.json','w'),indent=1)
    print('wrote',D)
