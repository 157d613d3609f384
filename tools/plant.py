"""Turn bug definitions (tools/bugs_*.py) into seeded/<id>/ after confirming them in a scratch copy.

usage: plant.py [id-prefix ...]     (default: every definition without an up-to-date folder)
A definition: B(id, property, file, [(old, new), ...] or {file: [(old, new)]}, needs, breaks, demo)
"""
import concurrent.futures as cf
import glob
import hashlib
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

HERE = Path(__file__).resolve().parent
SEED = HERE.parent / "seeded"
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# exit 0 when the property holds, 1 when the planted change breaks it
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/torchrir/env.sh >/dev/null 2>&1
export PYTHONPATH="$PWD/src" OMP_NUM_THREADS=2 MPLBACKEND=Agg
exec /opt/venv/bin/python "$here/demo.py"
"""


def load():
    out = []
    for f in sorted(glob.glob(str(HERE / "bugs_*.py"))):
        spec = importlib.util.spec_from_file_location(Path(f).stem, f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.BUGS
    ids = [b["id"] for b in out]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return out


def sh(cmd, cwd, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def root_commit():
    return sh(["git", "rev-list", "--max-parents=0", "HEAD"], "/repo").stdout.split()[-1]


def tests(copy):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONPATH=f"{copy}/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0",
               MPLCONFIGDIR="/opt/torchrir/mplconfig", OMP_NUM_THREADS="1")
    r = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], copy, env)
    return r.returncode == 0, r.stdout[-1500:]


def demo(copy, d):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    r = sh(["bash", str(d / "demo.sh")], copy, env, 300)
    return r.returncode, (r.stdout + r.stderr)[-800:]


def plant(b):
    base = Path(tempfile.mkdtemp(prefix="plant-", dir="/tmp"))
    try:
        copy = base / "repo"
        shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        edits = b["edits"]
        for fn, reps in edits.items():
            p = copy / "src/torchrir" / fn
            s = p.read_text()
            for old, new in reps:
                if s.count(old) != 1:
                    return b["id"], f"pattern occurs {s.count(old)} times in {fn}: {old[:80]!r}"
                s = s.replace(old, new)
            p.write_text(s)
        diff = sh(["git", "diff"], copy).stdout
        # every removed line must come from the original repository
        root = root_commit()
        for fn in edits:
            rel = f"src/torchrir/{fn}"
            d0 = sh(["git", "diff", "-U0", rel], copy).stdout
            removed = 0
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d0, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                for ln in range(a, a + n):
                    removed += 1
                    bl = sh(["git", "blame", "-s", "-L", f"{ln},{ln}", "HEAD", "--", rel], "/repo").stdout
                    if not (bl.startswith("^") or root.startswith(bl.split()[0].lstrip("^"))):
                        return b["id"], f"changes a line added later: {bl.strip()}"
            if not removed:
                return b["id"], f"no original line changed in {fn}"
        d = base / "seed"
        d.mkdir()
        (d / "demo.sh").write_text(DEMO_SH)
        (d / "demo.py").write_text(b["demo"])
        rc, out = demo("/repo", d)
        if rc != 0:
            return b["id"], "demo fails on the unchanged tree: " + out
        rc, out = demo(copy, d)
        if rc == 0:
            return b["id"], "demo passes with the change"
        ok, tout = tests(copy)
        if not ok:
            return b["id"], "existing tests fail: " + tout[-600:]
        dst = SEED / b["id"]
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        (dst / "patch.diff").write_text(diff)
        (dst / "meta.json").write_text(json.dumps(
            {"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        (dst / ".def").write_text(defhash(b))
        return b["id"], f"ok (demo rc {rc}: {out.strip().splitlines()[-1][:120] if out.strip() else ''})"
    except Exception as exc:
        return b["id"], f"tool error {exc!r}"
    finally:
        shutil.rmtree(base, ignore_errors=True)


def defhash(b):
    return hashlib.sha1(json.dumps(b, sort_keys=True).encode()).hexdigest()


def main():
    want = sys.argv[1:]
    todo = []
    for b in load():
        f = SEED / b["id"] / ".def"
        if want:
            if any(b["id"].startswith(w) for w in want):
                todo.append(b)
        elif not f.exists() or f.read_text() != defhash(b):
            todo.append(b)
    with cf.ThreadPoolExecutor(6) as ex:
        for i, msg in ex.map(plant, todo):
            print(i, "::", msg, flush=True)


if __name__ == "__main__":
    main()
