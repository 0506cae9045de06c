"""Turn bug descriptions into /verif/seeded/<id>/ after confirming them in scratch copies of /repo.

usage: plant.py SPEC.py [id ...]     SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new), ...], needs, breaks, demo)]
Each bug: edits apply to a copy of /repo, the stable tests pass there, the demo passes on /repo and fails on the copy.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

HEAD = '''import sys, os, types, importlib
sys.path.insert(0, os.getcwd())
for name in ("neutrinomass", "neutrinomass.database"):
    m = types.ModuleType(name)
    m.__path__ = [os.path.join(os.getcwd(), *name.split("."))]
    sys.modules[name] = m
    if "." in name:
        setattr(sys.modules["neutrinomass"], "database", m)
'''
SHELL = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, env=None, timeout=1500):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)


def tests(copy):
    out = os.path.join(copy, "junit.xml")
    env = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "PYTHONPATH": f"/opt/vp/plugin:{copy}", "LC_ALL": "C.UTF-8"}
    r = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "nm_scope", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=300",
             "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={out}",
             "--ignore=neutrinomass/database/database_test.py", "--ignore=neutrinomass/database/export_test.py", "neutrinomass"], copy, env)
    import xml.etree.ElementTree as ET

    passed = set()
    for c in ET.parse(out).iter("testcase"):
        if not [x for x in c if x.tag in ("failure", "error", "skipped")]:
            passed.add(f"{c.get('classname')}::{c.get('name')}")
    os.remove(out)
    return STABLE - passed


def confirm(bug, keep_tests=True):
    d = tempfile.mkdtemp(prefix="plant-")
    copy = os.path.join(d, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        for f, old, new in bug["edits"]:
            p = os.path.join(copy, f)
            s = open(p, encoding="utf8").read()
            if s.count(old) != 1:
                return f"{bug['id']}: text occurs {s.count(old)} times in {f}"
            open(p, "w", encoding="utf8").write(s.replace(old, new))
        patch = run(["git", "diff"], copy).stdout
        out = os.path.join(VERIF, "seeded", bug["id"])
        demo = os.path.join(d, "demo")
        os.mkdir(demo)
        open(os.path.join(demo, "demo.py"), "w").write(HEAD + bug["demo"])
        open(os.path.join(demo, "demo.sh"), "w").write(SHELL)
        good = run(["bash", os.path.join(demo, "demo.sh")], "/repo", timeout=280)
        if good.returncode:
            return f"{bug['id']}: demo fails on the unchanged tree: {good.stderr[-600:]}"
        bad = run(["bash", os.path.join(demo, "demo.sh")], copy, timeout=280)
        if not bad.returncode:
            return f"{bug['id']}: demo passes with the change"
        if keep_tests:
            failed = tests(copy)
            if failed:
                return f"{bug['id']}: tests fail: {sorted(failed)[:5]}"
        os.makedirs(out, exist_ok=True)
        for n in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(demo, n), out)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1, ensure_ascii=False)
        return f"{bug['id']}: kept ({bad.stderr.strip().splitlines()[-1][:150] if bad.stderr.strip() else ''})"
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    space = {}
    exec(open(sys.argv[1], encoding="utf8").read(), space)
    bugs = [b for b in space["BUGS"] if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as ex:
        for line in ex.map(confirm, bugs):
            print(line, flush=True)
