"""python3 mk.py FILE...: each FILE defines bugs via bug(id, prop, edits, demo, needs, breaks)"""
import sys, os, json, subprocess, tempfile, shutil
OUT='/verif/seeded'
PRE='''import os, sys, tempfile, shutil, threading
sys.path.insert(0, os.getcwd())
'''
def bug(bid, prop, edits, demo, needs, breaks):
    d=os.path.join(OUT,bid); os.makedirs(d,exist_ok=True)
    tmp=tempfile.mkdtemp(prefix='mk-')
    try:
        files={}
        for f,old,new in edits:
            src=files.get(f) or open('/repo/'+f).read()
            if src.count(old)!=1:
                print(bid,f,'old occurs',src.count(old),'times:',old[:80]); return
            files[f]=src.replace(old,new)
        patch=''
        for f,src in files.items():
            for side,text in (('a',open('/repo/'+f).read()),('b',src)):
                p=os.path.join(tmp,side,f); os.makedirs(os.path.dirname(p),exist_ok=True); open(p,'w').write(text)
            r=subprocess.run(['git','diff','--no-index','--no-prefix','a/'+f,'b/'+f],cwd=tmp,stdout=subprocess.PIPE,text=True)
            patch+=r.stdout
        open(d+'/patch.diff','w').write(patch)
        open(d+'/demo.py','w').write(PRE+demo.lstrip('\n'))
        open(d+'/demo.sh','w').write('#!/bin/sh\n# run in the repository\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv-pypy/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    finally:
        shutil.rmtree(tmp)
for f in sys.argv[1:]:
    exec(compile(open(f).read(),f,'exec'),{'bug':bug})
