"""Write the planted bugs described in tools/bugs/*.py to /verif/seeded.

usage: plant.py [ids...]   (all by default)
Each description is a dict in a list BUGS:
  id, property, edits [(file, old, new), ...], demo (Python text), needs, breaks
Only removes lines of the original repository (checked against BASE).
"""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
REPO = os.environ.get("PV_REPO", "/repo")
BASE = "baf52b8"

DEMO_SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export HOME=$work TMPDIR=$work PYTHONDONTWRITEBYTECODE=1 NUMBA_DISABLE_JIT=1 MPLBACKEND=Agg
export PYTHONPATH=/opt/vp/compat:$repo
cd "$work" || exit 3
/opt/venv/bin/python "$here/demo.py"
"""

HEAD = """import warnings
warnings.simplefilter("ignore")
import numpy as np
import popsynth
from popsynth.utils.logging import quiet_mode
quiet_mode()
"""


def bugs():
    out = {}
    d = os.path.join(HERE, "bugs")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py"):
            continue
        spec = importlib.util.spec_from_file_location("bugs_" + f[:-3], os.path.join(d, f))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def original_lines(path):
    r = subprocess.run(["git", "-C", REPO, "blame", "-s", "-l", "HEAD", "--", path], capture_output=True, text=True, check=True)
    return {i + 1 for i, l in enumerate(r.stdout.splitlines()) if l.startswith("^")}


def make(b):
    tmp = tempfile.mkdtemp()
    try:
        diff = ""
        for path in sorted({e[0] for e in b["edits"]}):
            src = subprocess.run(["git", "-C", REPO, "show", "HEAD:" + path], capture_output=True, text=True, check=True).stdout
            new = src
            for p, old, rep in b["edits"]:
                if p != path:
                    continue
                if new.count(old) != 1:
                    raise SystemExit(f"{b['id']}: {new.count(old)} matches in {path} of:\n{old}")
                new = new.replace(old, rep)
            compile(new, path, "exec")
            a, c = os.path.join(tmp, "a", path), os.path.join(tmp, "b", path)
            for f, t in ((a, src), (c, new)):
                os.makedirs(os.path.dirname(f), exist_ok=True)
                open(f, "w").write(t)
            r = subprocess.run(["diff", "-u", "-U3", "--label", "a/" + path, "--label", "b/" + path, a, c], capture_output=True, text=True)
            diff += f"diff --git a/{path} b/{path}\n" + r.stdout
            # which lines are removed
            orig = original_lines(path)
            ln = 0
            removed = 0
            for l in r.stdout.splitlines()[2:]:
                m = re.match(r"@@ -(\d+)", l)
                if m:
                    ln = int(m.group(1))
                elif l.startswith("-"):
                    if ln not in orig:
                        print(f"WARNING {b['id']}: {path}:{ln} is not an original line: {l[1:].strip()}")
                    removed += 1
                    ln += 1
                elif l.startswith(" "):
                    ln += 1
            if removed == 0:
                print(f"WARNING {b['id']}: no line of {path} removed")
        d = os.path.join(OUT, b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write((HEAD if b.get("head", True) else "") + b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    all_ = bugs()
    for i in sys.argv[1:] or all_:
        make(all_[i])
    print(len(sys.argv[1:] or all_), "written")
