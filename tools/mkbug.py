"""mkbug.py ID : reads BUGS[ID] in bugs.py ( prop, needs, breaks, edits=[(file, old, new)], demo (C++ body) or demo_sh), builds
patch, checks it, runs the property's check."""
import json, os, subprocess, sys, re
ID=sys.argv[1]; skipcheck='--nocheck' in sys.argv
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import bugs
ns=bugs.BUGS[ID]
os.makedirs('/tmp/bugs',exist_ok=True)

R='/repo'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty repo'
D='/verif/seeded/'+ID
os.makedirs(D,exist_ok=True)
# blame check
touched=[]
for f,old,new in ns['edits']:
    s=open(R+'/'+f).read()
    assert s.count(old)==1,(f,s.count(old),old)
    open(R+'/'+f,'w').write(s.replace(old,new)); touched.append(f)
patch=sh('git -C /repo diff').stdout
open(D+'/patch.diff','w').write(patch)
# removed lines must blame to base
bad=[]
cur=None;ln=0;nrem=0
for l in patch.split('\n'):
    if l.startswith('--- a/'): cur=l[6:]
    elif l.startswith('@@'): ln=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('-') and not l.startswith('---'):
        b=sh('git -C /repo blame -s -L %d,%d HEAD -- %s'%(ln,ln,cur)).stdout
        nrem+=1
        if not b.lstrip('^').startswith('749d3b7'[:7]): bad.append(b.strip())
        ln+=1
    elif l.startswith(' '): ln+=1
print('removed original lines:',nrem,'not original:',bad)
if 'demo_sh' in ns: open(D+'/demo.sh','w').write(ns['demo_sh'].replace('@ID@',ID))
else:
    open(D+'/demo.cpp','w').write(bugs.PRE+ns['demo'])
    flags=ns.get('flags','')
    conf=ns.get('conf','')
    open(D+'/demo.sh','w').write('''#!/bin/bash
# Exit 0: behaves as it should; nonzero: broken. Run with cwd /repo; writes only in its scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
mkdir -p /tmp/onex-demo-%s && cd /tmp/onex-demo-%s || exit 3
printf '%%s\\n' '%s' > config.hpp
g++ -std=c++11 -w -O1 %s -I. -I"$repo/src" -I"$repo" "$here/demo.cpp" $(find "$repo/src" -name '*.cpp') -o demo || exit 3
timeout 120 ./demo > out.txt 2> err.txt
rc=$?
tail -n 3 out.txt err.txt
cd "$repo"
rm -rf /tmp/onex-demo-%s
exit $rc
'''%(ID,ID,conf,flags,ID))
os.chmod(D+'/demo.sh',0o755)
json.dump({"property":ns['prop'],"needs":ns['needs'],"what_it_breaks":ns['breaks']},open(D+'/meta.json','w'),indent=1)
try:
    b=sh('bash /opt/vp/test.sh /tmp/bugs/%s.json'%ID)
    r=json.load(open('/tmp/bugs/%s.json'%ID))
    base=json.load(open('/opt/vp/BASELINE.json'))
    print('tests passed %d failed %s'%(len(r['passed']),r['failed'][:5]), '' if r['passed'] else b.stdout[-1500:])
    d=sh('bash %s/demo.sh'%D,cwd='/repo')
    print('demo with bug:',d.returncode,d.stdout[-300:])
    if not skipcheck:
        props=[ns['prop']]+ns.get('also',[])
        for p in props:
            c=sh('VERIF_SEED=1 python3 run.py %s'%p,cwd='/verif')
            print('CHECK',p,'rc',c.returncode,'CAUGHT' if c.returncode==1 and 'VIOLATION property=%s'%p in c.stdout else 'MISSED')
            print(c.stdout[-700:])
finally:
    sh('git -C /repo checkout -- .')
sh('bash /opt/vp/build.sh')
d=sh('bash %s/demo.sh'%D,cwd='/repo')
print('demo without bug:',d.returncode,d.stdout[-300:])
