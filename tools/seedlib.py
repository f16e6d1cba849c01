"""seed(id, prop, [(old,new),...], needs, breaks, demo) -> validated /verif/seeded/<id>"""
import subprocess, os, shutil, json, sys, tempfile
REPO='/repo'
DEMO_SH='''#!/bin/bash
# run with cwd /repo after the build; exit 0: behaves as it should
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset DISPLAY
PYTHONPATH="$PWD" timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
def seed(id, prop, pairs, needs, breaks, demo, tests=True):
    w=f'/tmp/seedwork_{id}'
    shutil.rmtree(w,ignore_errors=True)
    shutil.copytree(REPO,w,ignore=shutil.ignore_patterns('sample*','demo*','.git'))
    p=w+'/salabim/salabim.py'
    s=open(p,encoding='utf8',newline='').read()
    for old,new in pairs:
        assert s.count(old)==1,(id,s.count(old),old)
        s=s.replace(old,new)
    d=f'/verif/seeded/{id}'
    os.makedirs(d,exist_ok=True)
    open(d+'/demo.py','w').write('import salabim as sim\n\n'+demo.strip('\n')+'\n')
    open(d+'/demo.sh','w').write(DEMO_SH); os.chmod(d+'/demo.sh',0o755)
    r0=subprocess.run(['bash',d+'/demo.sh'],cwd=w,capture_output=True,text=True)
    open(p,'w',encoding='utf8',newline='').write(s)
    r1=subprocess.run(['bash',d+'/demo.sh'],cwd=w,capture_output=True,text=True)
    diff=subprocess.run(['git','diff','--no-index','--no-color',REPO+'/salabim/salabim.py',p],capture_output=True,text=True).stdout
    diff=diff.replace('a'+REPO+'/salabim','a/salabim').replace('b'+p,'b/salabim/salabim.py')
    open(d+'/patch.diff','w').write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    ok = r0.returncode==0 and r1.returncode!=0
    a=subprocess.run(['git','-C',REPO,'apply','--check',d+'/patch.diff'],capture_output=True,text=True)
    if a.returncode: ok=False
    base=subprocess.run(['git','-C',REPO,'rev-list','--max-parents=0','HEAD'],capture_output=True,text=True).stdout.strip()
    blame=subprocess.run(['git','-C',REPO,'blame','-l','-s','-w','salabim/salabim.py'],capture_output=True,text=True).stdout.splitlines()
    n=0; own=[]
    for l in diff.splitlines():
        if l.startswith('@@'): n=int(l.split()[1][1:].split(',')[0])
        elif l.startswith('---'): pass
        elif l.startswith('-'):
            if not blame[n-1].lstrip('^').startswith(base[:39]): own.append(l)
            n+=1
        elif l.startswith(' ') : n+=1
    if own: print('NOT ORIGINAL:',own)
    msg=''
    if tests and ok:
        env=dict(os.environ,PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0')
        t=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-p','no:cacheprovider','--timeout=300','tests','-x','-q'],cwd=w,capture_output=True,text=True,env=env)
        msg=t.stdout.strip().splitlines()[-1]
        if 'failed' in msg or 'error' in msg: 
            t=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-p','no:cacheprovider','--timeout=300','tests'],cwd=w,capture_output=True,text=True,env=env)
            msg='\n'.join(t.stdout.strip().splitlines()[-6:])
    shutil.rmtree(w,ignore_errors=True)
    print(id,'demo0',r0.returncode,'demo1',r1.returncode,'apply',a.returncode,a.stderr.strip()[:200],'|',msg)
    if not ok: print(r0.stderr[-800:],r0.stdout[-300:],'---',r1.stderr[-400:])
    return ok
