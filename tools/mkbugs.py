"""Writes /verif/seeded/<id>/ from the definitions in tools/bugs/*.py (old text, new text, demonstration)."""
import difflib, glob, json, os, runpy, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, sys, types, io, pickle, builtins
m = types.ModuleType("neutrinomass"); m.__path__ = [os.path.join(os.getcwd(), "neutrinomass")]; sys.modules["neutrinomass"] = m
'''
DB = '''d = types.ModuleType("neutrinomass.database"); d.__path__ = [os.path.join(os.getcwd(), "neutrinomass", "database")]; sys.modules["neutrinomass.database"] = d
_open = builtins.open
def fake(p, *a, **k):
    if str(p).endswith("democratic.p") and not os.path.exists(p):
        return io.BytesIO(pickle.dumps({}))
    return _open(p, *a, **k)
builtins.open = fake
from neutrinomass.database import closures, export, database
for _m in (export, closures, database):
    for _n in dir(_m):
        if not _n.startswith("_") and _n != "database":
            setattr(d, _n, getattr(_m, _n))
builtins.open = _open
'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
want = sys.argv[1:]
for f in sorted(glob.glob(os.path.join(HERE, "tools", "bugs", "*.py"))):
    for b in runpy.run_path(f)["BUGS"]:
        if want and b["id"] not in want:
            continue
        d = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        out = ""
        for path, edits in b["edits"].items():
            old = open("/repo/" + path).read()
            new = old
            for x, y in edits:
                assert new.count(x) == 1, (b["id"], new.count(x), x)
                new = new.replace(x, y)
            out += "".join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + path, "b/" + path))
        open(d + "/patch.diff", "w").write(out)
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(PRE + (DB if b.get("db") else "") + b["demo"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(b["id"])
