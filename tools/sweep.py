"""Run the property's check against each planted bug, on scratch copies (never on /repo).

usage: sweep.py [-t tier] [-a] [id-prefix ...]
"""
import concurrent.futures as cf
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
LANES = int(os.environ.get("LANES", "3"))


def main():
    args = sys.argv[1:]
    tier = "quick"
    if "-t" in args:
        i = args.index("-t")
        tier = args[i + 1]
        del args[i:i + 2]
    seeds = sorted(p for p in (VERIF / "seeded").iterdir() if p.is_dir())
    if args:
        seeds = [p for p in seeds if any(p.name.startswith(a) for a in args)]
    base = Path(tempfile.mkdtemp(prefix="sweep-", dir="/tmp"))
    lanes = queue.Queue()
    for k in range(LANES):
        d = base / str(k)
        shutil.copytree("/repo", d / "repo", symlinks=True)
        shutil.copytree(VERIF, d / "verif", ignore=shutil.ignore_patterns("seeded", "evidence", ".git", "__pycache__"))
        lanes.put(d)

    def one(seed):
        d = lanes.get()
        try:
            pid = json.loads((seed / "meta.json").read_text())["property"]
            a = subprocess.run(["git", "apply", str(seed / "patch.diff")], cwd=d / "repo", capture_output=True, text=True)
            if a.returncode:
                return seed.name, pid, "PATCH DOES NOT APPLY", 0, a.stderr[:200]
            env = dict(os.environ, MC_REPO=str(d / "repo"), VERIF_TIER=tier, VERIF_SEED="1",
                       MC_PROCS=str(max(2, 8 // LANES + 1)))
            t0 = time.time()
            r = subprocess.run(["./run.sh", pid], cwd=d / "verif", env=env, capture_output=True, text=True, errors="replace")
            dt = time.time() - t0
            caught = r.returncode == 1 and f"VIOLATION property={pid}" in r.stdout
            first = next((l.strip() for l in r.stdout.splitlines() if l.startswith("   ")), r.stderr[-200:])
            return seed.name, pid, "caught" if caught else f"MISSED rc={r.returncode}", dt, first[:160]
        finally:
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d / "repo")
            subprocess.run(["git", "clean", "-fdq", "src"], cwd=d / "repo")
            lanes.put(d)

    res = {}
    f = VERIF / "tools" / "catches.json"
    try:
        with cf.ThreadPoolExecutor(LANES) as ex:
            for name, pid, verdict, dt, first in ex.map(one, seeds):
                print(f"{name:28s} {pid} {verdict:12s} {dt:5.0f} s  {first}", flush=True)
                res[name] = {"property": pid, "verdict": verdict, "tier": tier}
    finally:
        old = json.loads(f.read_text()) if f.exists() else {}
        old.update(res)
        f.write_text(json.dumps(dict(sorted(old.items())), indent=1) + "\n")
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
