"""mkseed.py SPEC.py: write /verif/seeded/<id>/ from SPEC (list BUGS of dicts id, property, edits=[(file, old, new)], needs, breaks, demo)."""
import json, os, runpy, shutil, subprocess, sys, tempfile

HEAD = '''import os, sys
os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
import numpy as np
'''
for bug in runpy.run_path(sys.argv[1])["BUGS"]:
    if len(sys.argv) > 2 and bug["id"] not in sys.argv[2:]:
        continue
    d = f"/verif/seeded/{bug['id']}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mk.")
    subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
    for f, old, new in bug["edits"]:
        p = f"{w}/r/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (bug["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True, check=True).stdout
    shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write((HEAD.replace("os.environ.setdefault(\"NUMBA_DISABLE_JIT\", \"1\")\n", "os.environ[\"NUMBA_NUM_THREADS\"] = \"4\"\n") if bug.get("jit") else HEAD) + bug["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\nexec python "$(dirname "$(realpath "$0")")/demo.py"\n' if False else
        '#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\n. /opt/vp/env.sh\nexec python "$d/demo.py"\n')
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(bug["id"])
