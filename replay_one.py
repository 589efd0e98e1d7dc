"""python replay_one.py evidence/replay/Cxx-i.json - rerun a recorded counterexample on the real code"""
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
r = json.load(open(sys.argv[1]))
sys.path.insert(0, HERE)
import importlib
mod = importlib.import_module("harness." + r["property"].lower())
job = dict(harness=r["property"].lower(), frameworks=getattr(mod, "FRAMEWORKS", False),
           items=[dict(cfg=r["config"], values=r["values"], choices=r["choices"])])
p = subprocess.run(["/opt/venv/bin/python", "-m", "symx.replay"], cwd=HERE, input=json.dumps(job), text=True,
                   capture_output=True)
print(p.stdout or p.stderr[-2000:])
