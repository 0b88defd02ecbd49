import os, subprocess, json, sys, shutil
W='/tmp/seedrepo'
def sh(*a, **k): return subprocess.run(a, check=True, **k)
def prep():
    if os.path.exists(W): shutil.rmtree(W)
    sh('git','clone','-q','/repo',W)
DEMO_SH='''#!/bin/bash
# exit 0: the property holds in this scenario, nonzero: it is broken (run with cwd = the source tree)
set -e
d=$(cd "$(dirname "$0")" && pwd)
src=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -w -O1 -g %s -DASIOEXT_STANDALONE -I"$src/include" -pthread "$d/demo.cpp" -o "$t/demo"
cd "$t"
timeout 100 ./demo
'''
def bug(id, prop, edits, demo, needs, breaks, flags=''):
    for f, old, new in edits:
        p=W+'/include/asioext/'+f
        s=open(p).read()
        if s.count(old)!=1: print(id, 'COUNT', s.count(old), f, old); sh('git','-C',W,'checkout','-q','.'); return
        # is the changed text original?
        open(p,'w').write(s.replace(old,new))
    d='/verif/seeded/'+id
    os.makedirs(d, exist_ok=True)
    diff=subprocess.run(['git','-C',W,'diff'],stdout=subprocess.PIPE,check=True).stdout
    open(d+'/patch.diff','wb').write(diff)
    open(d+'/demo.cpp','w').write(demo)
    open(d+'/demo.sh','w').write(DEMO_SH % flags); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d+'/meta.json','w'), indent=1)
    # demo on patched and clean
    r=subprocess.run(['bash',d+'/demo.sh'],cwd=W,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    sh('git','-C',W,'checkout','-q','.')
    c=subprocess.run(['bash',d+'/demo.sh'],cwd=W,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    print(id, 'patched rc', r.returncode, 'clean rc', c.returncode, '' if r.returncode and not c.returncode else 'BAD'); 
    print('   ', r.stdout.decode(errors='replace')[-300:].strip().replace('\n','\n    '))
    if c.returncode: print('   clean:', c.stdout.decode(errors='replace')[-1500:])
    # removed lines must be in the base
    for l in diff.decode().split('\n'):
        if l.startswith('-') and not l.startswith('---') and l[1:].strip():
            f=[f for f,_,_ in edits]
            base=''.join(subprocess.run(['git','-C',W,'show','bbfd8ef:include/asioext/'+x],stdout=subprocess.PIPE).stdout.decode() for x in f)
            if l[1:] not in base.split('\n'): print('    not original:', l)
