#!/usr/bin/env python3
"""mk.py: creates seeded dirs from a python spec file: BUGS = {id: dict(prop,needs,breaks,edits=[(file,old,new)],demo=str)}"""
import sys,subprocess,json,os,shutil
ns={}; exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:]
for id,b in ns['BUGS'].items():
    if only and id not in only: continue
    subprocess.run(['git','-C','/tmp/sc','checkout','-q','--','.'],check=True)
    for f,o,n in b['edits']:
        p='/tmp/sc/'+f; s=open(p).read()
        assert s.count(o)==1,(id,f,s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.run(['git','-C','/tmp/sc','diff'],capture_output=True,text=True).stdout)
    subprocess.run(['git','-C','/tmp/sc','checkout','-q','--','.'],check=True)
    json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1)
    for x in ('demo.sh','sup.rs'): shutil.copy('/verif/tools/demo/'+x,d)
    open(d+'/main.rs','w').write(b['demo'])
    print(id)
