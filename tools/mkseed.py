"""
mkseed.py FILE...: FILE defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(path, old, new)], DEMO (python text).
Writes /verif/seeded/ID/{patch.diff,demo.sh,demo.py,meta.json} from the working tree of REPO (/repo), which is left as it was.
"""
BASE = __import__("os").environ.get("REPO", "/repo")
import json, os, subprocess, sys, runpy
for f in sys.argv[1:]:
    d = runpy.run_path(f)
    out = "/verif/seeded/" + d["ID"]
    os.makedirs(out, exist_ok=True)
    files = {}
    for path, old, new in d["EDITS"]:
        p = BASE + "/src/_zkapauthorizer/" + path
        t = files.setdefault(p, open(p).read()) if p not in files else files[p]
        assert t.count(old) == 1, (d["ID"], path, old, t.count(old))
        files[p] = t.replace(old, new)
    diff = ""
    import difflib
    for p, t in files.items():
        a = open(p).read().splitlines(True); b = t.splitlines(True)
        rel = os.path.relpath(p, BASE)
        diff += "".join(difflib.unified_diff(a, b, "a/" + rel, "b/" + rel))
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.py", "w").write(d["DEMO"].lstrip())
    open(out + "/demo.sh", "w").write('#!/bin/bash\n# Run in the repository after the build: exit 0 if the property holds.\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD/src:$here" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    for name in d.get("HELPERS", []):
        t = open("/verif/" + name).read()
        open(out + "/" + os.path.basename(name), "w").write(t)
    print(d["ID"])
