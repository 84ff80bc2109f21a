#!/usr/bin/env python3
"""Confirms planted bugs: seed.py DEFDIR... where DEFDIR/def.json = {property, pkg, needs, what, race?, edits:[[file, old, new]...]}
and DEFDIR/demo_test.go.txt. Writes /verif/seeded/<id>/ after confirming that the patch applies, builds, passes the existing
tests, and that the demonstration passes without and fails with it."""
import json,os,subprocess,sys,shutil,tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R=os.environ.get('REPO','/repo')
def sh(c,cwd=None,**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,**k)
def confirm(d,full):
    i=os.path.basename(d.rstrip('/'))
    D=json.load(open(d+'/def.json'))
    out=V+'/seeded/'+i
    tmp=tempfile.mkdtemp(prefix='/tmp/seed.')
    try:
        r=tmp+'/repo'
        sh('cp -a '+R+' '+r)
        for f,a,b in D['edits']:
            s=open(r+'/'+f).read()
            if s.count(a)!=1: return '%s: %d matches in %s for %r'%(i,s.count(a),f,a)
            open(r+'/'+f,'w').write(s.replace(a,b))
        fm=sh('export PATH=/opt/veriftools/go1.26.10/bin:$PATH; gofmt -l '+' '.join(sorted({f for f,_,_ in D['edits']})),cwd=r).stdout
        if fm: print(i,'gofmt:',fm)
        diff=sh('git diff',cwd=r).stdout
        os.makedirs(out,exist_ok=True)
        open(out+'/patch.diff','w').write(diff)
        s=open(V+'/tools/seedlib/demo.sh').read().replace('PKG',D['pkg']).replace('RACE','-race' if D.get('race') else '')
        open(out+'/demo.sh','w').write(s); os.chmod(out+'/demo.sh',0o755)
        shutil.copy(d+'/demo_test.go.txt',out)
        sh('tar cz --sort=name --mtime=@0 --owner=0 --group=0 -C '+V+' -f %s/stubs.tgz stubs'%out)
        json.dump({'property':D['property'],'needs':D['needs'],'what_it_breaks':D['what']},open(out+'/meta.json','w'),indent=1)
        a=sh('bash %s/demo.sh'%out,cwd=R)
        if a.returncode!=0: return '%s: demo fails on the unchanged tree\n%s'%(i,(a.stdout+a.stderr)[-2500:])
        b=sh('bash %s/demo.sh'%out,cwd=r)
        if b.returncode==0: return '%s: demo passes with the patch'%i
        if '[build failed]' in b.stdout or 'setup failed' in b.stdout: return '%s: does not build\n%s'%(i,(b.stdout+b.stderr)[-2500:])
        sh('cat > %s/t.sh <<X\nsed s#/repo#%s#g /opt/vp/env.sh > %s/env.sh\nX'%(tmp,r,tmp))
        t=sh('''set -e; sed 's#/repo#%s#g' /opt/vp/env.sh > %s/env.sh; . %s/env.sh; go build $(packages); go test -json -vet=off -count=1 $(packages)'''%(r,tmp,tmp),executable='/bin/bash')
        ok=set()
        for l in t.stdout.splitlines():
            try: e=json.loads(l)
            except Exception: continue
            if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package'].replace('github.com/takenet/deckard','')+' '+e['Test'])
            if e.get('Action')=='fail' and e.get('Test') and 'TestListenAndServe' not in e['Test']: return '%s: existing test fails: %s'%(i,e)
        if len(ok)<88: return '%s: only %d tests pass\n%s'%(i,len(ok),(t.stdout+t.stderr)[-1500:])
        fail=[l for l in b.stdout.splitlines() if 'FAIL' in l or 'demo' in l][:4]
        return '%s: OK (%s)'%(i,' | '.join(x.strip() for x in fail))
    finally: shutil.rmtree(tmp,ignore_errors=True)
if __name__=='__main__':
    from concurrent.futures import ThreadPoolExecutor
    for m in ThreadPoolExecutor(4).map(lambda d:confirm(d,False),sys.argv[1:]): print(m,flush=True)
