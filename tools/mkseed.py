import os, subprocess, json, shutil, tempfile
def mk(id, prop, edits, needs, breaks, demo, files=()):
    """edits: list of (file, old, new)"""
    d=f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    w=tempfile.mkdtemp(prefix="mk_")
    subprocess.check_call(["git","-C","/repo","worktree","add","-q","--detach",w+"/t"])
    try:
        for f,o,n in edits:
            p=f"{w}/t/{f}"; s=open(p).read(); assert s.count(o)==1,(id,f,s.count(o)); open(p,"w").write(s.replace(o,n))
        diff=subprocess.check_output(["git","-C",w+"/t","diff"],text=True)
    finally:
        subprocess.check_call(["git","-C","/repo","worktree","remove","--force",w+"/t"]); os.rmdir(w)
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.sh","w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d+"/demo.sh",0o755)
    open(d+"/demo.py","w").write(demo)
    for f in files:
        shutil.copy(f, d)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
