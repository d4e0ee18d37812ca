#!/usr/bin/env python3
"""plant.py [ids]: builds seeded/<id>/ from tools/bugs.py, verifies each in a scratch copy, and runs the property's check on it.
   plant.py --check-only [ids]: only runs the checks (on a scratch copy with the stored patch)."""
import concurrent.futures, glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
BASE = json.load(open("/opt/vp/BASELINE.json"))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", **(env or {})})
    return p.returncode, p.stdout + p.stderr


def scratch():
    d = tempfile.mkdtemp(prefix="sd-", dir="/tmp")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    return d, r


def tests(r):
    """The stable tests that do not pass in the scratch copy."""
    import xml.etree.ElementTree as ET
    x = os.path.join(os.path.dirname(r), "j.xml")
    rc, out = sh("timeout 600 %s -m pytest -q -n 4 -p no:cacheprovider --timeout=60 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s starks misc" % (PY, x), r,
                 {"PYTHONPATH": r, "PYTHONHASHSEED": "0"})
    ok = {c.get("classname") + "::" + c.get("name") for c in ET.parse(x).iter("testcase") if not list(c)}
    return sorted(set(BASE["stable"]) - ok)


def base_lines_only(r, diff):
    """Removed lines must come from the base commit."""
    bad = []
    f = None
    for l in diff.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"):
            ln = int(l.split()[1].split(",")[0][1:])
        elif f and l.startswith("-") and not l.startswith("---"):
            rc, out = sh("git blame -s -L %d,%d HEAD -- %s" % (ln, ln, f), "/repo")
            if not out.startswith("^") and not out.startswith("f644286"):
                bad.append((f, ln, l))
            ln += 1
        elif f and l.startswith(" "): ln += 1
    return bad


def make(bug):
    d, r = scratch()
    try:
        out = os.path.join(V, "seeded", bug["id"])
        for f, old, new in bug["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1: return "edit of %s matches %d times: %r" % (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff", r)
        bad = base_lines_only(r, diff)
        if bad: return "touches own lines %s" % bad
        t = tests(r)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write("#!/bin/sh\n# run in the repository root\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=\"$PWD\" timeout 200 %s -W ignore \"$(dirname \"$0\")/demo.py\"\n" % PY)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        rc1, o1 = sh("sh %s/demo.sh" % out, r)
        rc0, o0 = sh("sh %s/demo.sh" % out, "/repo")
        res = "demo patched=%d clean=%d failing stable tests=%s" % (rc1, rc0, t)
        if rc0 != 0: res += "\n   CLEAN DEMO FAILS: " + o0[-800:]
        if rc1 == 0: res += "\n   PATCHED DEMO PASSES: " + o1[-300:]
        if t or rc0 or not rc1:
            res = "REJECTED " + res
            shutil.rmtree(out)
        return res + "\n   " + check(bug["property"], r)
    finally:
        shutil.rmtree(d)


def check(prop, r):
    env = {"VERIF_REPO": r, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_EVIDENCE": os.path.join(os.path.dirname(r), "ev")}
    rc, o = sh("%s run.py %s --tier quick" % (PY, prop), V, env)
    lines = [l for l in o.splitlines() if l.strip()]
    return "CHECK %s rc=%d %s" % (prop, rc, " | ".join(l.strip()[:170] for l in lines[:2]))


if __name__ == "__main__":
    from bugs import BUGS
    want = sys.argv[1:]
    todo = [b for b in BUGS if not want or b["id"] in want or b["property"] in want]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for b, r in zip(todo, ex.map(make, todo)):
            print("%s (%s): %s" % (b["id"], b["property"], r), flush=True)
