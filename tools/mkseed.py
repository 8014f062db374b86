"""mkseed.py: helper to write a planted bug from (file, old, new)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile


def make(id, prop, edits, demo, needs, breaks):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="mkseed")
    wt = tmp + "/repo"
    subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
    try:
        for f, old, new in edits:
            p = wt + "/" + f
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("%s: %d matches in %s" % (id, s.count(old), f))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True,
                              text=True).stdout
    finally:
        shutil.rmtree(tmp)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write(
        "#!/bin/bash\n"
        "export NUMBA_CACHE_DIR=$(mktemp -d) PYTHONDONTWRITEBYTECODE=1 "
        "MPLBACKEND=Agg\n"
        "PYTHONPATH=$PWD /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n"
        "rc=$?\n"
        "rm -rf \"$NUMBA_CACHE_DIR\"\n"
        "exit $rc\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(d + "/meta.json", "w"), indent=1)
    print(id, "written")
