"""Create /verif/seeded/<id>/ from an edit of a scratch copy: mkbug(id, prop, file, old, new, needs, breaks, demo)."""
import json, os, subprocess, tempfile, shutil


def mkbug(id, prop, edits, needs, breaks, demo):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkbug", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
        for f, old, new in edits:
            p = f"{t}/r/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", t + "/r", "diff"], check=True, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(demo.strip() + "\nprint('ok')\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
