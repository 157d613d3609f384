"""Controlled scheduler: run two real threads under an exact, enumerable interleaving.

A scheduling point is a traced line event in library code. A schedule is a list of segment lengths
[n0, n1, ...]: the first thread runs n0 points, then the other n1, ...; the last segments run to completion.
"""

from __future__ import annotations

import dis
import sys
import threading

LIB = "/src/torchrir/"
_HIT: dict = {}  # (code, only_shared) -> bool; code objects stay alive as keys



# process-wide state that is changed by calling something rather than by storing into a container
_WIDE = frozenset(
    "manual_seed set_rng_state fork_rng seed setstate environ putenv chdir simplefilter filterwarnings "
    "set_default_dtype set_default_device set_num_threads set_grad_enabled use_deterministic_algorithms".split()
)


def touches_shared(code, mod_globals) -> bool:
    """Does this function read or write state another thread can see (module containers, attributes)?"""
    import types

    prev = ""
    for ins in dis.get_instructions(code):
        # reached from a module (torch.manual_seed), not from a local object (generator.manual_seed)
        glob, prev = prev.startswith(("LOAD_GLOBAL", "LOAD_ATTR")), ins.opname
        if ins.opname in ("STORE_GLOBAL", "DELETE_GLOBAL", "STORE_ATTR", "DELETE_ATTR", "STORE_DEREF"):
            return True
        if ins.argval in _WIDE and (ins.opname == "LOAD_GLOBAL" or glob and ins.opname in ("LOAD_ATTR", "LOAD_METHOD")):
            return True
        if ins.opname in ("LOAD_GLOBAL", "LOAD_NAME"):
            v = mod_globals.get(ins.argval, None)
            if isinstance(v, (dict, list, set)) or (
                ins.argval in mod_globals
                and not isinstance(v, (types.FunctionType, types.ModuleType, type, str, int, float, tuple, frozenset))
                and not callable(v)
            ):
                return True
    return False


class Run:
    """One execution of two thread bodies under a schedule."""

    def __init__(self, bodies, schedule, first=0, only_shared=False, timeout=30.0,
                 opcodes=False, blocked=None):
        self.bodies, self.schedule, self.first = bodies, list(schedule), first
        self.only_shared = only_shared
        self.opcodes = opcodes
        self.timeout = timeout
        self.results = [None] * len(bodies)
        self.points = [0] * len(bodies)
        self.done = [False] * len(bodies)
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.main = threading.Semaphore(0)
        self.seg_left = None
        self.switches: list = []
        self.uncontrolled = False
        # switch sites at which the other thread could not go on (a lock is held there): after two such
        # attempts the switch is taken at the next site instead
        self.blocked = {} if blocked is None else blocked

    def _interesting(self, frame) -> bool:
        code = frame.f_code
        hit = _HIT.get((code, self.only_shared))
        if hit is None:
            fn = code.co_filename
            hit = LIB in fn and (not self.only_shared or touches_shared(code, frame.f_globals))
            _HIT[code, self.only_shared] = hit
        return hit

    def _tracer(self, tid):
        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                self._point(tid, frame)
            return local

        def glob(frame, event, arg):
            if event == "call" and self._interesting(frame):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        return glob

    def _point(self, tid, frame):
        self.points[tid] += 1
        if self.seg_left is None:
            return
        if self.seg_left == 0:
            other = 1 - tid
            if self.done[other]:
                self.seg_left = None
                return
            site = (frame.f_code.co_filename, frame.f_lineno)
            if self.blocked.get(site, 0) >= 2:
                return
            self.switches.append((tid, frame.f_code.co_name, frame.f_lineno, frame.f_lasti if self.opcodes else -1))
            self.seg_left = self.schedule.pop(0) if self.schedule else None
            self.sems[other].release()
            self._wait(tid, site)
            return
        self.seg_left -= 1

    def _wait(self, tid, site):
        """Stay paused; if the running thread is stuck (say, on a lock we hold), stop controlling the schedule."""
        while True:
            before = sum(self.points)
            if self.sems[tid].acquire(timeout=0.1):
                return
            if sum(self.points) == before:
                self.seg_left = None
                self.schedule = []
                self.uncontrolled = True
                self.blocked[site] = self.blocked.get(site, 0) + 1
                return

    def _thread(self, tid):
        if not self.sems[tid].acquire(timeout=self.timeout):
            self.results[tid] = ("err", "scheduler timeout")
            return
        sys.settrace(self._tracer(tid))
        try:
            self.results[tid] = ("ok", self.bodies[tid]())
        except BaseException as exc:  # noqa: BLE001
            import traceback

            sys.settrace(None)
            self.results[tid] = ("err", f"{type(exc).__name__}: {exc}\n{traceback.format_exc(limit=-4)}")
        finally:
            sys.settrace(None)
            self.done[tid] = True
            other = 1 - tid
            if len(self.bodies) > 1 and not self.done[other]:
                self.seg_left = None if not self.schedule else self.schedule.pop(0)
                self.sems[other].release()
            self.main.release()

    def go(self):
        ths = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in ths:
            t.start()
        self.seg_left = self.schedule.pop(0) if self.schedule else None
        self.sems[self.first].release()
        for _ in ths:
            if not self.main.acquire(timeout=self.timeout * 2):
                return [("err", "deadlock: no thread finished")] * len(self.bodies)
        return self.results


def count_points(body, only_shared=False, opcodes=False):
    """Number of scheduling points of a body running alone (and its result)."""
    r = Run([body], [], only_shared=only_shared, opcodes=opcodes)
    res = r.go()
    return r.points[0], res[0]
