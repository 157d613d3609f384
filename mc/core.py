"""Shared machinery: exhaustive case enumeration in worker processes, violations, evidence.

A check module defines
  ID, LEVEL, RULE, ASSUMPTIONS
  cases(tier)      -> iterable of JSON-able cases (deterministic, finite)
  run(case, ctx)   -> judges one case on the real code; reports through ctx
Every case of the space is run; cases are only distributed over processes.
"""

from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
EVID = VERIF / "evidence"


class Hang(BaseException):
    pass


class Skip(Exception):
    """The code under test has no such (private) entry point any more."""


def digest(obj) -> str:
    return hashlib.sha1(repr(obj).encode()).hexdigest()[:16]


class Ctx:
    """Collects what one worker covered and what it found."""

    def __init__(self, pid: str, tier: str, scratch: Path):
        self.pid, self.tier, self.scratch = pid, tier, scratch
        self.evaluations = 0
        self.nontrivial: set[str] = set()
        self.states: set[str] = set()
        self.transitions = 0
        self.traces = 0
        self.samples: list = []
        self.messages: list[str] = []
        self.extra: dict[str, int] = {}
        self._n = 0

    def fail(self, msg: str) -> None:
        if len(self.messages) < 20:
            self.messages.append(str(msg)[:1500])

    def check(self, cond, msg) -> bool:
        if not cond:
            self.fail(msg() if callable(msg) else msg)
        return bool(cond)

    def note(self, obj) -> None:
        """Record a distinct non-trivial evaluation (what came out, not only what went in)."""
        self.nontrivial.add(digest(obj))

    def count(self, n: int = 1) -> None:
        self.evaluations += n

    def state(self, obj) -> bool:
        d = digest(obj)
        new = d not in self.states
        self.states.add(d)
        return new

    def bump(self, key: str, n: int = 1) -> None:
        self.extra[key] = self.extra.get(key, 0) + n

    def sample(self, obj) -> None:
        if len(self.samples) < 2:
            self.samples.append(obj)

    def dir(self) -> Path:
        self._n += 1
        p = self.scratch / f"d{self._n}"
        p.mkdir()
        return p


def raises(fn, *types):
    """Return the exception if fn raises one of types, None if it returns; other exceptions pass."""
    try:
        fn()
    except types as exc:
        return exc
    return None


class Choices:
    """Answers of one execution; unexplored choice points answer 0 and are recorded."""

    def __init__(self, prefix):
        self.prefix, self.trace = list(prefix), []

    def pick(self, n: int) -> int:
        i = len(self.trace)
        v = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((v, n))
        return v


def explore(fn, limit=None):
    """Run fn(choices) once for every path of its choice tree (depth first). Yields (choices, result)."""
    prefix, done = [], 0
    while True:
        ch = Choices(prefix)
        yield ch, fn(ch)
        done += 1
        if limit is not None and done >= limit:
            return
        tr = ch.trace
        while tr and tr[-1][0] + 1 >= tr[-1][1]:
            tr.pop()
        if not tr:
            return
        prefix = [v for v, _ in tr[:-1]] + [tr[-1][0] + 1]


def _alarm(*_):
    raise Hang()


def run_case(mod, case, ctx: Ctx, limit: int) -> list[str]:
    ctx.messages = []
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        mod.run(case, ctx)
    except Hang:
        ctx.fail(f"no answer within {limit} s")
    except Skip:
        ctx.bump("skipped_private")
    except Exception:
        ctx.fail("unexpected exception:\n" + traceback.format_exc(limit=-6))
    finally:
        signal.alarm(0)
    out, ctx.messages = ctx.messages, []
    return out


def scratch_base():
    return "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else None


def _take(nxt) -> int:
    with nxt.get_lock():
        nxt.value += 1
        return nxt.value - 1


def _worker(modname, tier, nxt, conn, limit, max_viol, progress, stop=None):
    scratch = Path(tempfile.mkdtemp(prefix="mc-", dir=scratch_base()))
    try:
        import torch

        torch.set_num_threads(1)
        mod = importlib.import_module(modname)
        ctx = Ctx(mod.ID, tier, scratch)
        viols, ncases = [], 0
        try:
            mine = _take(nxt)
            for k, case in enumerate(mod.cases(tier)):
                if k != mine:
                    continue
                if stop is not None and stop.value:
                    break
                before = ctx.evaluations
                msgs = run_case(mod, case, ctx, limit)
                if ctx.evaluations == before:
                    ctx.evaluations += 1
                ncases += 1
                progress.value = time.time()
                if len(ctx.samples) < 1:
                    ctx.samples.append({"case": case})
                if msgs:
                    viols.append((case, msgs))
                    if stop is not None:  # tools/mutate.py only: one alarm is enough
                        stop.value = 1
                    if len(viols) >= max_viol:
                        break
                mine = _take(nxt)
        except Exception:
            viols.append(({"harness": modname}, ["enumeration failed:\n" + traceback.format_exc()]))
        conn.send(
            dict(
                evaluations=ctx.evaluations, nontrivial=ctx.nontrivial, states=ctx.states,
                transitions=ctx.transitions, traces=ctx.traces, samples=ctx.samples,
                extra=ctx.extra, viols=viols, ncases=ncases,
            )
        )
    finally:
        conn.close()
        shutil.rmtree(scratch, ignore_errors=True)


def load_known(pid: str) -> set[str]:
    known = set()
    f = VERIF / "KNOWN_FINDINGS"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith(f"known: property={pid} case="):
                known.add(line.split("case=", 1)[1].split()[0])
    return known


def main(argv) -> int:
    pid = argv[0]
    modname = f"mc.checks.{pid.lower()}"
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    replay_dir = EVID / "replay"
    replay_dir.mkdir(parents=True, exist_ok=True)
    for old in replay_dir.glob(f"{pid}-*.json"):
        if "--replay" not in argv:
            old.unlink()

    def violation(case, msgs) -> None:
        path = replay_dir / f"{pid}-{digest(case)}.json"
        path.write_text(json.dumps({"property": pid, "case": case, "messages": msgs}, indent=1, default=str))
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        for m in msgs[:3]:
            print("   " + m.replace("\n", "\n   "), flush=True)

    try:
        mod = importlib.import_module(modname)
    except Exception:
        violation({"import": modname}, ["the library cannot be imported:\n" + traceback.format_exc()])
        return 1

    limit = getattr(mod, "CASE_LIMIT", 90 if tier == "quick" else 600)
    if "--replay" in argv:
        data = json.loads(Path(argv[argv.index("--replay") + 1]).read_text())
        with tempfile.TemporaryDirectory(prefix="mc-", dir=scratch_base()) as d:
            ctx = Ctx(pid, tier, Path(d))
            case = data["case"]
            msgs = run_case(mod, _tuplify(case), ctx, limit)
        for m in msgs:
            print(m)
        if msgs:
            print(f"VIOLATION property={pid} replay={argv[argv.index('--replay') + 1]}")
        return 1 if msgs else 0

    nproc = int(os.environ.get("MC_PROCS") or getattr(mod, "PROCS", min(8, os.cpu_count() or 1)))
    parts, viols = [], []
    mpctx = mp.get_context("fork")
    procs, nxt = [], mpctx.Value("l", 0)
    stop = mpctx.Value("l", 0) if os.environ.get("MC_FIRST") else None
    for _ in range(nproc):
        a, b = mpctx.Pipe(duplex=False)
        prog = mpctx.Value("d", time.time())
        p = mpctx.Process(target=_worker, args=(modname, tier, nxt, b, limit, 2, prog, stop))
        p.start()
        b.close()
        procs.append((p, a, prog))
    for p, a, prog in procs:
        res = None
        while True:
            if a.poll(1.0):
                try:
                    res = a.recv()
                except EOFError:
                    pass
                break
            if time.time() - prog.value > limit + 60:
                break
        if res is None:
            p.kill()
            viols.append(({"worker": p.name}, ["worker died or stopped making progress"]))
        else:
            parts.append(res)
            viols.extend(res["viols"])
        p.join(20)
        if p.is_alive():
            p.kill()

    merged = lambda k: set().union(*[r[k] for r in parts]) if parts else set()
    total = lambda k: sum(r[k] for r in parts)
    samples = [s for r in parts for s in r["samples"]][:4] or [{"note": "none"}]
    extra: dict[str, int] = {}
    for r in parts:
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v

    known = load_known(pid)
    fresh = []
    for case, msgs in viols:
        if digest(case) in known:
            print(f"KNOWN-FINDING: property={pid} {msgs[0].splitlines()[0]}")
        else:
            fresh.append((case, msgs))

    cov = {
        "evaluations": total("evaluations"),
        "distinct_nontrivial": len(merged("nontrivial")),
        "rule": mod.RULE,
        "samples": samples,
        "exhaustive": not fresh,
        **{k: v for k, v in sorted(extra.items())},
    }
    if mod.LEVEL == "model_checking":
        cov["states"] = len(merged("states"))
        cov["transitions"] = total("transitions")
        cov["traces_validated_against_impl"] = total("traces")
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": mod.LEVEL, "coverage": cov, "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    EVID.mkdir(exist_ok=True)
    (EVID / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str))
    for case, msgs in fresh[:5]:
        violation(case, msgs)
    print(
        f"{pid}: {cov['evaluations']} evaluations, {cov['distinct_nontrivial']} distinct, "
        f"{cov.get('states', 0)} states, {cov.get('transitions', 0)} transitions, "
        f"{len(fresh)} violations, {ev['wall_s']} s"
    )
    return 1 if fresh else 0


def _tuplify(x):
    return x
