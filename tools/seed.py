"""Planted bugs: create and verify.

python3 tools/seed.py verify ID... [--all-checks] [--no-tests]   verify seeded/ID in a scratch copy
mk(...) below creates one from textual replacements.
"""
from __future__ import annotations

import difflib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"

DEMO_SH = """#!/bin/bash
# run with cwd /repo: exit 0 on the unchanged tree, nonzero with the patch
export PYTHONDONTWRITEBYTECODE=1 TZ=UTC
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""

DEMO_HEAD = """import os
import sys

sys.path.insert(0, os.getcwd())
"""


def mk(sid, prop, edits, needs, breaks, demo):
    """edits: [(path, old, new)]; each old must occur exactly once."""
    d = os.path.join(SEEDED, sid)
    os.makedirs(d, exist_ok=True)
    files = {}
    for path, old, new in edits:
        src = files.setdefault(path, [open(os.path.join(REPO, path)).read(), None])
        cur = src[1] if src[1] is not None else src[0]
        assert cur.count(old) == 1, (sid, path, cur.count(old), old)
        src[1] = cur.replace(old, new)
    patch = ""
    for path, (a, b) in files.items():
        patch += f"diff --git a/{path} b/{path}\n"
        patch += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + path, "b/" + path))
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(DEMO_HEAD + demo.lstrip("\n"))
    json.dump({"property": prop, "needs": " ".join(needs.split()), "what_it_breaks": " ".join(breaks.split())},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def verify(sid, all_checks=False, tests=True, checks=True, jobs="8"):
    d = os.path.join(SEEDED, sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed-")
    copy = os.path.join(tmp, "repo")
    out = {"id": sid, "property": meta["property"]}
    try:
        shutil.copytree(REPO, copy, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        env = dict(os.environ, HOME="/root", LANG="C.UTF-8", TZ="UTC", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")

        def demo():
            p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=copy, env=env, capture_output=True, text=True,
                               timeout=300)
            return p.returncode, (p.stdout + p.stderr)[-700:]

        rc, txt = demo()
        out["demo_clean"] = rc
        if rc:
            print(txt)
        r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=copy, capture_output=True, text=True)
        out["applies"] = r.returncode == 0
        if r.returncode:
            print(r.stderr)
        rc, txt = demo()
        out["demo_patched"] = rc
        out["demo_text"] = txt.strip().splitlines()[-1:] if txt.strip() else ""
        if tests:
            p = subprocess.run([PY, "-m", "pytest", "-q", "-n", jobs, "-p", "no:cacheprovider", "-p", "no:sugar",
                                "--timeout=60", "--basetemp=" + os.path.join(tmp, "bt")],
                               cwd=copy, env=env, capture_output=True, text=True)
            out["tests"] = p.stdout.strip().splitlines()[-1]
            out["tests_failed"] = re.findall(r"^FAILED (\S+)", p.stdout, re.M)[:5]
        if checks:
            pids = [meta["property"]]
            if all_checks:
                pids = sorted(f[:3].upper() for f in os.listdir(os.path.join(VERIF, "checks")) if re.match(r"p\d\d_", f))
            out["checks"] = {}
            for pid in pids:
                p = subprocess.run([os.path.join(VERIF, "check"), pid, "quick"], cwd=VERIF,
                                   env=dict(env, VERIF_REPO=copy, VERIF_SEED="1", VERIF_NO_SHRINK="1"),
                                   capture_output=True, text=True)
                out["checks"][pid] = p.returncode
                if p.returncode not in (0, 1):
                    print(p.stdout[-1500:], p.stderr[-1500:])
    finally:
        shutil.rmtree(tmp)
    ok = (out["demo_clean"] == 0 and out["applies"] and out["demo_patched"] != 0
          and (not tests or not out["tests_failed"] and "error" not in out["tests"]))
    out["ok"] = ok
    out["caught"] = out.get("checks", {}).get(meta["property"]) == 1
    print(json.dumps(out), flush=True)
    return out


if __name__ == "__main__":
    a = [x for x in sys.argv[2:] if not x.startswith("--")]
    if sys.argv[1] == "verify":
        for s in a or sorted(os.listdir(SEEDED)):
            verify(s, "--all-checks" in sys.argv, "--no-tests" not in sys.argv, "--no-checks" not in sys.argv)
