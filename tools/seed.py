#!/usr/bin/env python3
"""Plants a bug: writes /verif/seeded/<id>/ from a description, and confirms it.

A description is a Python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file,old,new)...],
FILES={name:content} (laid beside demo.sh) and either DEMO (a shell text) or
PKG+TEST (an in-package Go test run through an overlay).
"""
import sys,os,subprocess,shutil,json,tempfile
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOSUMDB='off',GOWORK='off')
TESTSH='''#!/bin/bash
# cwd: the repository. Runs the test beside this script inside package %(pkg)s.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
timeout 250 go test -vet=off -count=1 %(flags)s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''
def sh(cmd,cwd,t=600):
    r=subprocess.run(cmd,shell=True,cwd=cwd,env=ENV,capture_output=True,text=True,timeout=t)
    return r.returncode,(r.stdout+r.stderr)
def main(path):
    g={}; exec(open(path).read(),g)
    i=g['ID']; d='/verif/seeded/'+i
    w='/tmp/scr/sd-'+i
    shutil.rmtree(w,ignore_errors=True)
    subprocess.check_call(['cp','-a','/repo',w])
    try:
        for f,a,b in g['EDITS']:
            s=open(w+'/'+f).read()
            if s.count(a)!=1: print(i,'MATCH',s.count(a),f,repr(a[:60])); return
            open(w+'/'+f,'w').write(s.replace(a,b))
        rc,diff=sh('git diff',w)
        os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        if 'TEST' in g:
            open(d+'/demo_test.go.txt','w').write(g['TEST'])
            open(d+'/demo.sh','w').write(TESTSH%{'pkg':g['PKG'],'flags':g.get('FLAGS','')})
        else: open(d+'/demo.sh','w').write(g['DEMO'])
        os.chmod(d+'/demo.sh',0o755)
        for n,c in g.get('FILES',{}).items(): open(d+'/'+n,'w').write(c)
        json.dump({'property':g['PROPERTY'],'needs':g['NEEDS'],'what_it_breaks':g['BREAKS']},open(d+'/meta.json','w'),indent=1)
        # lines that the patch removes must be of the original repository
        rc,base=sh('git show 9030dff:%s'%g['EDITS'][0][0],w)
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in base:
                print(i,'  note: removed line is not original:',l[1:90])
        rc,o=sh('go build $(go list -e ./... | grep -v /cmd/stl2svx$) && go test -vet=off -count=1 $(go list -e ./... | grep -v /cmd/stl2svx$) | grep -v "no test files"',w)
        if 'FAIL' in o or 'ok' not in o: print(i,'BUILD/TESTS FAIL',o[-800:]); return
        rc,o=sh('bash %s/demo.sh'%d,'/repo')
        print(i,'clean',rc, '' if rc==0 else o[-600:])
        rc,o=sh('bash %s/demo.sh'%d,w)
        print(i,'patched',rc, o[-300:].strip().replace('\n',' | '))
        for p in [g['PROPERTY']]:
            ev='/tmp/scr/ev-'+i; os.makedirs(ev+'/evidence/replay',exist_ok=True)
            shutil.copy('/verif/KNOWN_FINDINGS.txt',ev)
            e=dict(ENV,SA_REPO=w,SA_VERIF=ev)
            r=subprocess.run(['/tmp/scr/sa','check',p],env=e,capture_output=True,text=True)
            print(i,p,'rc',r.returncode,[l[:200] for l in (r.stdout+r.stderr).splitlines() if 'VIOL' in l or 'FAIL' in l][:3] or (r.stdout+r.stderr)[-300:])
            shutil.rmtree(ev)
    finally: shutil.rmtree(w,ignore_errors=True)
for a in sys.argv[1:]: main(a)
