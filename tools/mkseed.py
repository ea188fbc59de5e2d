#!/usr/bin/env python3
"""mkseed.py SPEC.py...: makes seeded/<id>/ from specs and confirms them in a scratch copy.
A spec defines id, prop, edits [(file, old, new)], demo (Go test source with TestDemo), needs, breaks, pkg (default '.')."""
import sys, os, subprocess, shutil, tempfile, json
V='/verif'; BASE='2205085'
ENV=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off')
DEMO='''#!/bin/bash
# Runs demo_test.go inside the package under test. Exit 0 on the unchanged tree.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(dir)szz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$T/ov.json"
go test -vet=off -count=1 -timeout %(to)ds -overlay "$T/ov.json" -run '^TestDemo$' %(pkg)s
'''
def sh(c,cwd,**k): return subprocess.run(c,cwd=cwd,env=ENV,capture_output=True,text=True,shell=isinstance(c,str),**k)
base=json.load(open('/opt/vp/BASELINE.json'))
def results(d):
    log=tempfile.mktemp(); out=tempfile.mktemp()
    with open(log,'w') as f: subprocess.run('go test -json -vet=off -count=1 -timeout 10m ./...',shell=True,cwd=d,env=ENV,stdout=f,stderr=subprocess.DEVNULL)
    subprocess.run(['python3','/opt/vp/results.py',out,'gojson:'+log],capture_output=True)
    r=json.load(open(out)); os.remove(log); os.remove(out); return r
def passed(r): 
    if isinstance(r.get('passed'),list): return set(r['passed'])
    return set(k for k,v in r.get('tests',r).items() if v in('pass','passed',True))
def main(spec):
    g={}; exec(open(spec).read(),g)
    id,prop=g['id'],g['prop']; pkg=g.get('pkg','.')
    W=tempfile.mkdtemp(prefix='seed-'); d=W+'/repo'
    try:
        shutil.copytree('/repo',d,symlinks=True)
        # unchanged: demo passes
        S=W+'/s'; os.makedirs(S)
        open(S+'/demo_test.go','w').write(g['demo'].lstrip())
        open(S+'/demo.sh','w').write(DEMO%dict(dir='' if pkg=='.' else pkg[2:]+'/',pkg=pkg,to=g.get('timeout',60)))
        os.chmod(S+'/demo.sh',0o755)
        r=sh(['bash',S+'/demo.sh'],d)
        if r.returncode: print(id,'DEMO FAILS UNCHANGED\n',(r.stdout+r.stderr)[-3000:]); return
        good=passed(results(d))
        for f,o,n in g['edits']:
            s=open(f'{d}/{f}').read()
            if s.count(o)!=1: print(id,'edit does not match once',f,repr(o),s.count(o)); return
            at=s.index(o)
            open(f'{d}/{f}','w').write(s.replace(o,n))
        diff=sh('git diff',d).stdout
        # the changed lines are original ones
        for f in set(e[0] for e in g['edits']):
            bl=sh(['git','blame','-s','--abbrev=7','HEAD','--',f],d).stdout.split('\n')
            ln=0
            for l in sh(['git','diff','-U0','--',f],d).stdout.split('\n'):
                if l.startswith('@@'): ln=int(l.split()[1].split(',')[0][1:])
                elif l.startswith('-') and not l.startswith('---'):
                    h=bl[ln-1].split()[0].lstrip('^')
                    if not BASE.startswith(h[:6]): print(id,'WARNING: line of my own commit:',bl[ln-1])
                    ln+=1
        r=sh('go build ./...',d)
        if r.returncode: print(id,'DOES NOT BUILD',r.stderr); return
        bad=passed(results(d)); need=set(base.get('stable') or base.get('tests') or good) if False else good
        if need-bad: print(id,'TESTS FAIL',sorted(need-bad)[:5]); return
        r=sh(['bash',S+'/demo.sh'],d)
        if r.returncode==0: print(id,'DEMO PASSES WITH THE CHANGE'); return
        T=f'{V}/seeded/{id}'; os.makedirs(T,exist_ok=True)
        open(T+'/patch.diff','w').write(diff)
        for f in('demo.sh','demo_test.go'): shutil.copy(f'{S}/{f}',T)
        json.dump(dict(property=prop,needs=g['needs'],what_it_breaks=g['breaks']),open(T+'/meta.json','w'),indent=1)
        print(id,'ok:',[l for l in (r.stdout+r.stderr).split('\n') if l.strip()][1:3])
    finally: shutil.rmtree(W,ignore_errors=True)
for s in sys.argv[1:]: main(s)
