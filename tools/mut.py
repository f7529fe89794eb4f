#!/usr/bin/env python3
"""mut.py specfile: specs separated by lines '=== name | P01,P02 | expect(1/0)'; body: 'FILE path', then blocks <<<< old ==== new >>>>"""
import sys,os,re,subprocess,shutil,concurrent.futures as cf
spec=open(sys.argv[1]).read()
only=sys.argv[2] if len(sys.argv)>2 else None
items=re.split(r'^=== ',spec,flags=re.M)[1:]
def run(it):
    head,body=it.split('\n',1)
    name,checks,exp=[x.strip() for x in head.split('|')]
    if only and only not in name: return None
    d='/tmp/mutrepo/'+re.sub(r'\W','_',name)
    shutil.rmtree(d,ignore_errors=True)
    os.makedirs(d)
    for s in ('app','lib'): shutil.copytree('/repo/'+s,d+'/'+s)
    f=None
    for m in re.finditer(r'^FILE ([^\n]*)$|<<<<\n(.*?)====\n(.*?)>>>>',body,flags=re.M|re.S):
        if m.group(1): f=d+'/'+m.group(1).strip(); continue
        s=open(f, newline='').read().replace('\r\n', '\n')
        if s.count(m.group(2))<1: return name+': OLD TEXT NOT FOUND in '+f+'\n'+m.group(2)
        s=s.replace(m.group(2),m.group(3),1)
        open(f,'w').write(s)
    out=[]
    for c in checks.split(','):
        v='/tmp/mutverif/'+os.path.basename(d)
        env=dict(os.environ,VC_REPO=d)
        if not os.path.exists(v):
            os.makedirs(v)
            for s in os.listdir('/verif'):
                if s in('.git','.cache','evidence','seeded'): continue
                os.symlink('/verif/'+s,v+'/'+s) if s!='vclib' and s!='check.py' else (shutil.copytree('/verif/'+s,v+'/'+s) if os.path.isdir('/verif/'+s) else shutil.copy('/verif/'+s,v+'/'+s))
        r=subprocess.run(['python3',v+'/check.py',c],capture_output=True,text=True,env=env,cwd=v)
        ok='OK ' if str(r.returncode)==exp else 'BAD'
        out.append('%s %s %s rc=%d\n%s'%(ok,name,c,r.returncode,'\n'.join('      '+l for l in (r.stdout+r.stderr).split('\n') if l and 'replay' not in l and 'KNOWN' not in l)[-1500:]))
    shutil.rmtree('/tmp/mutverif/'+os.path.basename(d),ignore_errors=True)
    shutil.rmtree(d,ignore_errors=True)
    return '\n'.join(out)
with cf.ThreadPoolExecutor(4) as ex:
    for r in ex.map(run,items):
        if r: print(r,flush=True)
