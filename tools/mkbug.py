#!/usr/bin/env python3
"""mkbug.py SPEC.py : each SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=python source, needs, breaks)]
Writes /verif/seeded/<id>/ from them (patch made in a scratch copy of /repo's HEAD)."""
import json, os, subprocess, sys, runpy, tempfile, shutil
spec = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:]
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
export PYTHONPATH=/repo/_build/pkg LD_LIBRARY_PATH=/repo/_build/pkg/awkward PYTHONDONTWRITEBYTECODE=1
%sexec /opt/vp/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
for b in spec:
    if only and b["id"] not in only:
        continue
    t = tempfile.mkdtemp(prefix="mkbug-")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % (t, t), shell=True)
    for f, old, new in b["edits"]:
        p = os.path.join(t, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: %r occurs %d times in %s" % (b["id"], old[:60], s.count(old), f))
        open(p, "w").write(s.replace(old, new))
    d = os.path.join("/verif/seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.check_output(["git", "-C", t, "diff"], text=True))
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % b.get("env", ""))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(t)
    print("wrote", d)
