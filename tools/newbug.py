#!/usr/bin/env python3
"""Write seeded/ID from a spec file: python with ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)."""
import json
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("FTV_SRC", "/repo")


def write(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO):
    d = os.path.join(V, "seeded", ID)
    os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix="newbug-")
    subprocess.check_call(["git", "-C", R, "worktree", "add", "-q", "--detach", wt + "/w"])
    try:
        for f, old, new in EDITS:
            p = os.path.join(wt, "w", f)
            s = open(p).read()
            assert s.count(old) == 1, (ID, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", wt + "/w", "diff"], text=True)
        assert diff.strip()
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.check_call(["git", "-C", R, "worktree", "remove", "--force", wt + "/w"])
        os.rmdir(wt)
    open(d + "/demo.py", "w").write(DEMO.lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 if the property holds on this input, nonzero if not\nexport DASK_DATAFRAME__QUERY_PLANNING=False MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": PROPERTY, "needs": NEEDS, "what_it_breaks": BREAKS}, open(d + "/meta.json", "w"), indent=1)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns["BUGS"]:
        write(*b)
        print(b[0])
