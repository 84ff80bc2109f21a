#!/usr/bin/env python3
"""catch.py [-p PROPS] [ids...]: runs each planted bug's own check (or the given ones) on a scratch copy with the bug applied."""
import json,os,subprocess,sys,tempfile,shutil,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R=os.environ.get('REPO','/repo'); a=sys.argv[1:]; props=None
if a and a[0]=='-p': props=a[1].split(','); a=a[2:]
for i in a or sorted(os.listdir(V+'/seeded')):
    d=V+'/seeded/'+i; me=json.load(open(d+'/meta.json'))
    t=tempfile.mkdtemp(prefix='/tmp/catch.'); r=t+'/repo'
    try:
        subprocess.run(['cp','-a',R,r]); subprocess.run(['git','-C',r,'apply',d+'/patch.diff'],check=True)
        for p in props or [me['property']]:
            t0=time.time()
            x=subprocess.run([V+'/run.sh','check',p,'-repo',r,'-noevidence'],capture_output=True,text=True)
            v=[l for l in x.stdout.splitlines() if 'VIOLATION' in l]
            print('%-32s %s rc=%d %4.0fs %s'%(i,p,x.returncode,time.time()-t0,(v or (x.stdout+x.stderr).splitlines()[-1:] or [''])[0][:150]),flush=True)
    finally: shutil.rmtree(t,ignore_errors=True)
