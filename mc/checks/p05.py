"""P05: all interleavings (up to a preemption bound) of two real threads using the library."""

import itertools
import shutil
import tempfile
from pathlib import Path

import numpy as np
import soundfile as sf
import torch

from mc import sched
from mc.checks.p04 import D32, D64, OPS as CALLS, _args, _clean, _close
from mc.core import digest
from mc.procstate import fingerprint, in_fork, container_state, restore, snapshot

from torchrir import Source
from torchrir.config import SimulationConfig
from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset

ID = "P05"
LEVEL = "model_checking"
TECHNIQUE = "stateless schedule exploration: every interleaving of two real threads up to a preemption bound under a controlled scheduler"
NOTE = (
    "Two real threads run library calls under a scheduler that decides after every source line (or bytecode in functions "
    "that touch shared state) which thread continues; all schedules within the preemption bound are executed from cold and "
    "warm tables and every thread's answer is compared with its solo answer. The real code is what runs, so there is no "
    "model to bind; each schedule is one trace of the implementation."
)
RULE = (
    "per scenario: all 1-preemption schedules over every line of library code, all 2-preemption schedules (thorough: 3) over "
    "the lines of functions that touch shared state, all 1-preemption schedules over their bytecodes, either thread first. "
    "Non-trivial: distinct (scenario, sequence of preemption sites)."
)
ASSUMPTIONS = [
    "context switches happen between Python bytecodes (GIL build); torch kernels are atomic with respect to Python state",
    "equal means bit-identical or within 4 ulp of the largest sample",
]

_FIX = {}


def _fixture():
    if "root" not in _FIX:
        root = Path(tempfile.mkdtemp(prefix="mc-p05-"))
        d = root / "ARCTIC" / "cmu_us_bdl_arctic"
        (d / "wav").mkdir(parents=True)
        (d / "etc").mkdir()
        lines = []
        for k in range(3):
            sf.write(d / "wav" / f"a{k}.wav", np.full(5 + k, 0.1 * (k + 1)), 16000)
            lines.append(f'( a{k} "text {k}" )')
        (d / "etc" / "txt.done.data").write_text("\n".join(lines) + "\n")
        c = root / "LibriSpeech" / "dev-clean" / "84" / "121"
        c.mkdir(parents=True)
        lines = []
        for k in range(3):
            sf.write(c / f"84-121-000{k}.flac", np.full(5 + k, 0.1 * (k + 1)), 16000)
            lines.append(f"84-121-000{k} TEXT {k}")
        (c / "84-121.trans.txt").write_text("\n".join(lines) + "\n")
        _FIX["root"] = root
    return _FIX["root"]


def _call(name):
    return lambda env: _clean(CALLS[name](env["args"]))


def _item(ds, k):
    it = ds[k]
    return (it.utterance_id, it.text, it.audio.numpy().tolist(), it.sample_rate)


LIGHT = SimulationConfig(frac_delay_length=21, rir_hpf_enable=False)


def _light(name):
    """The P04 call of that name without the high-pass (whose pure-Python design dominates the run time)."""
    return lambda env: _clean(CALLS[name]({**env["args"], "cfg": LIGHT}))


PROG = {name: _call(name) for name in CALLS}
PROG.update({name: _light(name) for name in ("static64", "static32_2d", "dyn")})


def _other(args):
    """Arguments of the same shapes and types with other values: equal cache keys, different answers."""
    if "other" not in _FIX:
        a = dict(args)
        a["src"] = Source.from_positions((args["src"].positions * 0.83 + 0.11).tolist(), orientation=args["src"].orientation.flip(0), dtype=torch.float64)
        a["straj"] = args["straj"] * 0.83 + 0.11
        a["sig"], a["h"], a["hd"] = args["sig"].flip(1) + 0.5, args["h"].flip(0), args["hd"].flip(0)
        _FIX["other"] = a
    return _FIX["other"]


PROG.update({
    name + "_b": lambda env, name=name: _clean(CALLS[name]({**_other(env["args"]), "cfg": LIGHT}))
    for name in ("static64", "dyn", "traj", "hop")
})
PROG.update({
    "cmu_len": lambda env: len(env["cmu"]),
    "cmu_item": lambda env: _item(env["cmu"], 2),
    "cmu_last": lambda env: _item(env["cmu"], -1),
    "libri_len": lambda env: len(env["libri"]),
    "libri_item": lambda env: _item(env["libri"], 2),
    "seq64": lambda env: (_call("nolut")(env), _call("gran7")(env)),
})

# (thread 0 program, thread 1 program)
SCEN = [
    ("static64", "static64_b"),
    ("static64", "static32_2d"),
    ("static64", "gran7"),
    ("fdl41_tail", "tail_noseed"),
    ("static64", "dyn"),
    ("dyn", "dyn32"),
    ("default", "hpf_ellip"),
    ("seq64", "hpf_ellip"),
    ("traj", "traj_ts"),
    ("sim_static", "bad_hpf"),
    ("cmu_len", "cmu_len"),
    ("cmu_len", "cmu_item"),
    ("cmu_item", "cmu_last"),
    ("libri_item", "libri_len"),
    ("dyn", "dyn_b"),
    ("traj", "traj_b"),
    ("hop", "hop_b"),
]
WARM = {"cold": [], "warm": ["static64"], "other": ["dyn32", "hpf_ellip"]}
PARTS = 4


def cases(tier):
    thorough = tier != "quick"
    for k, (a, b) in enumerate(SCEN):
        data = a.startswith(("cmu", "libri"))
        for init in ["cold"] if data else (list(WARM) if thorough else ["cold"]):
            for first in (0, 1) if a != b else (0,):
                modes = [("line", 1), ("shared", 2 if k not in (6, 7, 9) else 1), ("opcode", 1)]
                if thorough:
                    modes += [("shared", 3), ("opcode", 2)]
                for mode, bound in modes:
                    n = PARTS * (8 if thorough and bound > 1 else 1)
                    for part in range(n):
                        yield dict(scen=k, init=init, first=first, mode=mode, bound=bound, part=part, parts=n)


def _env(data=True):
    root = _fixture()
    if not data:
        return {"args": _FIX.setdefault("args", _args())}
    return {
        "args": _FIX.setdefault("args", _args()),
        "cmu": CmuArcticDataset(root, speaker="bdl"),
        "libri": LibriSpeechDataset(root, subset="dev-clean", speaker="84"),
    }


def _solo(name):
    if ("solo", name) not in _FIX:
        _FIX["solo", name] = in_fork(lambda: PROG[name](_env()))
    return _FIX["solo", name]


def _schedules(n, bound, cap):
    """All segment vectors with at most `bound` preemptions; n = points of (first, other)."""
    for k in range(1, bound + 1):
        spans = [range(n[i % 2] + 1) if i == 0 else range(1, n[i % 2] + 1) for i in range(k)]
        if k < bound:
            continue  # the shorter ones are included: a segment longer than what is left never preempts
        yield from itertools.product(*spans)


def _explore(case):
    names = SCEN[case["scen"]]
    shared, opc = case["mode"] != "line", case["mode"] == "opcode"
    for op in WARM[case["init"]]:
        PROG[op](_env())
    solo = [_solo_cache[n] for n in names]
    snap = snapshot()
    n = []
    for name in names:
        env = _env()
        pts, _ = sched.count_points(lambda: PROG[name](env), only_shared=shared, opcodes=opc)
        restore(snap)
        n.append(pts)
    data = names[0].startswith(("cmu", "libri"))
    first = case["first"]
    order = (n[first], n[1 - first])
    bound = case["bound"]
    out = dict(msgs=[], runs=0, points=0, states=[], keys=[], uncontrolled=0, thinned=0)
    todo = itertools.islice(_schedules(order, bound, None), case["part"], None, case["parts"])
    if case.get("only") is not None:
        todo = [tuple(case["only"])]
    blocked = case.get("blocked") or {}
    for k, s in enumerate(todo):
        if out["uncontrolled"] > 60:
            out["thinned"] += 1
            continue
        if out["uncontrolled"] > 40 and k % 8:
            # the code serialises itself with a lock here: switch points inside the critical section
            # cannot be scheduled (and each attempt costs a timeout), so only every 8th is still tried
            out["thinned"] += 1
            continue
        restore(snap)
        env = _env(data)
        bodies = [lambda nm=nm: PROG[nm](env) for nm in names]
        r = sched.Run(bodies, s, first=first, only_shared=shared, opcodes=opc, blocked=blocked)
        res = r.go()
        out["runs"] += 1
        out["points"] += sum(r.points)
        out["uncontrolled"] += r.uncontrolled
        for t, (kind, val) in enumerate(res):
            if kind != "ok":
                out["msgs"].append(f"{names} from {case['init']}, schedule {s} ({case['mode']}): thread {t} failed: {val}")
            elif not _close(val, solo[t]):
                out["msgs"].append(
                    f"{names} from {case['init']}, schedule {s} ({case['mode']}): thread {t} ({names[t]}) got another "
                    f"answer than alone; switches at {r.switches}"
                )
        out["keys"].append(digest((names, case["init"], r.switches)))
        out["states"].append(digest((names, case["init"], container_state(), s)))
        if len(out["msgs"]) >= 3:
            break
    out["blocked"] = blocked
    return out


_solo_cache = {}
_BLOCKED: dict = {}  # switch sites inside critical sections, learnt by earlier parts of the same scenario


def run(case, ctx):
    if "owned" not in _FIX:
        _FIX.clear()
        _FIX["owned"] = True
        root = ctx.dir()
        real = tempfile.tempdir
        tempfile.tempdir = str(root)
        try:
            _fixture()
        finally:
            tempfile.tempdir = real
    for n in SCEN[case["scen"]]:
        _solo_cache[n] = _solo(n)
    known = _BLOCKED.setdefault((case["scen"], case["init"], case["first"]), {})
    out = in_fork(lambda: _explore(dict(case, blocked=dict(known))))
    known.update(out["blocked"])
    for m in out["msgs"]:
        ctx.fail(m)
    for s in out["states"]:
        ctx.state(s)
    for k in out["keys"]:
        ctx.note(k)
    ctx.transitions += out["points"]
    ctx.traces += out["runs"]
    ctx.count(out["runs"])
    ctx.bump("schedules", out["runs"])
    ctx.bump("lock_limited", out["uncontrolled"])
    ctx.bump("lock_thinned", out["thinned"])
