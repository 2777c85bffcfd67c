import json,os,subprocess,sys,tempfile,shutil
def seed(id, prop, file, pairs, needs, breaks, demo):
    """pairs: list of (file?, old, new)"""
    w = tempfile.mkdtemp(prefix="mk", dir="/tmp")
    try:
        subprocess.check_call(["git","-C","/repo","worktree","add","-q","--detach",w+"/r","HEAD"])
        for p in pairs:
            f, old, new = p if len(p)==3 else (file,)+p
            path=w+"/r/"+f
            s=open(path,encoding="utf-8").read()
            assert s.count(old)==1, (id, f, old, s.count(old))
            open(path,"w",encoding="utf-8").write(s.replace(old,new))
        diff=subprocess.check_output(["git","-C",w+"/r","diff"]).decode()
    finally:
        subprocess.call(["git","-C","/repo","worktree","remove","--force",w+"/r"])
        shutil.rmtree(w, ignore_errors=True)
    d="/verif/seeded/"+id
    os.makedirs(d,exist_ok=True)
    open(d+"/patch.diff","w").write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    open(d+"/demo.sh","w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    open(d+"/demo.py","w").write('import os, sys\nsys.path.insert(0, os.getcwd())\n'+demo.strip("\n")+"\n")
