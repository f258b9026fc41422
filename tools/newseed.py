#!/usr/bin/env python3
"""newseed.py <spec.py>: spec defines ID, PROP, KIND, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN. Makes seeded/<ID>."""
import sys, os, subprocess, json
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    ns={}; exec(open(f).read(), ns)
    d=os.path.join(root,'seeded',ns['ID']); os.makedirs(d,exist_ok=True)
    for file,old,new in ns['EDITS']:
        p='/repo/'+file; s=open(p).read(); assert s.count(old)==1,(file,s.count(old),old); open(p,'w').write(s.replace(old,new))
    diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    open(d+'/main.rs','w').write(ns['MAIN'])
    json.dump({"property":ns['PROP'],"needs":ns['NEEDS'],"what_it_breaks":ns['BREAKS']},open(d+'/meta.json','w'),indent=1,ensure_ascii=False)
    subprocess.run([root+'/tools/mkdemo.sh',ns['ID'],ns['KIND']],check=True)
