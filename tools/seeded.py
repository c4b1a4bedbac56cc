"""seeded.py [ID...]: runs the check of each planted bug on a copy of /repo with the bug, and rewrites the table in DESIGN.md
(kept in tools/seeded.json between calls).  A tool for developing the checks; no check uses it."""
import json
import os
import re
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STATE = os.path.join(V, "tools", "seeded.json")


def one(i, jobs):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    with tempfile.TemporaryDirectory(prefix="seeded-") as t:
        copy = os.path.join(t, "repo")
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        p = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=copy, capture_output=True, text=True)
        if p.returncode:
            return {"property": meta["property"], "result": "does not apply"}
        t0 = time.time()
        p = subprocess.run([os.path.join(V, "check.sh"), meta["property"], "--no-evidence"], capture_output=True, text=True,
                           env=dict(os.environ, VP_REPO=copy))
        m = re.search(r"case (\d+) breaks the property: \[(.*?)\]", p.stdout)
        ok = p.returncode == 1 and f"VIOLATION property={meta['property']} " in p.stdout
        return {"property": meta["property"], "result": f"caught: case {m[1]}, {m[2][:60]}" if ok and m else f"MISSED (exit {p.returncode})",
                "seconds": round(time.time() - t0)}


def main(ids):
    res = json.load(open(STATE)) if os.path.exists(STATE) else {}
    have = sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids or have:
        res[i] = one(i, 8)
        print(i, res[i], flush=True)
    res = {i: res[i] for i in have if i in res}
    with open(STATE, "w") as f:
        json.dump(res, f, indent=1, sort_keys=True)
        f.write("\n")
    rows = ["| bug | property | what it breaks | needs | result |", "|---|---|---|---|---|"]
    for i in sorted(res, key=lambda i: (res[i]["property"], i)):
        meta = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
        rows.append("| " + " | ".join(x.replace("|", "/") for x in (i, res[i]["property"], meta["what_it_breaks"], meta["needs"], res[i]["result"])) + " |")
    p = os.path.join(V, "DESIGN.md")
    s = open(p).read()
    s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda m: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
    open(p, "w").write(s)


main(sys.argv[1:])
