"""mk(id, prop, [(file,old,new)], needs, breaks, demo)"""
import os,subprocess,json
S='/verif/seeded/'
def mk(id,prop,edits,needs,breaks,demo,extra={}):
    d=S+id; os.makedirs(d,exist_ok=True)
    w='/tmp/mkwt'; subprocess.run(['rm','-rf',w]); os.makedirs(w)
    subprocess.run('git -C /repo archive HEAD code/latte | tar x -C '+w,shell=True,check=True)
    subprocess.run('git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x',shell=True,cwd=w,check=True)
    for f,o,n in edits:
        p=w+'/code/latte/'+f; s=open(p).read()
        assert s.count(o)==1,(id,f,s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    open(d+'/patch.diff','w').write(subprocess.run('git diff',shell=True,cwd=w,capture_output=True,text=True,check=True).stdout)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    pre='''#!/bin/bash
# exit 0: the programs behave as they should; nonzero: they do not
B=$PWD/_build/code/latte
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
'''
    open(d+'/demo.sh','w').write(pre+demo.strip('\n')+'\n')
    subprocess.run(['rm','-rf',w])
