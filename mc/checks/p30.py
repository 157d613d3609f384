"""P30: logging setup reflects the latest configuration and never duplicates output."""

import contextlib
import io
import itertools
import logging
import re
import sys

from mc.core import raises

from torchrir.logging import LoggingConfig, get_logger, setup_logging

ID = "P30"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of all sequences of setups, lookups and invalid setups up to the depth bound on the real logging module, observing every message level on every logger after each step against a two-field model"
NOTE = (
    "A model of (latest valid configuration, handlers the user owns) is stepped along with the real module over every operation sequence from every start state; "
    "after each step each message level is logged on five loggers and what reaches the library's handler, the user's handlers, the root and other loggers is compared."
)
RULE = "all sequences over 14 operations to depth 3 (thorough 4) from three start states; every level spelling; every logger name form. States: distinct (configuration, handlers); transitions: operations. Non-trivial: distinct emitted texts."
ASSUMPTIONS = [
    "level NOTSET means 'inherit' as in the standard library and is not part of the alphabet",
    "where the user attached a handler of their own to the library's logger before setup, that handler is used and none is added",
    "the standard error stream is not replaced between setups",
]
WHEN = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d{3}")
FMT = {"d": None, "m": "A|%(message)s|%(levelno)d|%(name)s", "t": "%(asctime)s %(message)s"}
SETUPS = {
    "info": dict(level="INFO"),
    "debug lower": dict(level="debug", format=FMT["m"]),
    "warning": dict(level="Warning", format=FMT["t"], datefmt="DATE"),
    "error prop": dict(level="ERROR", propagate=True),
    "15": dict(level=15, format=FMT["m"]),
    "50 prop": dict(level=50, propagate=True, format=FMT["m"]),
    "warn": dict(level="WARN", datefmt="OTHER"),
    "timed": dict(level="INFO", format=FMT["t"]),
}
INVALID = {"loud": dict(level="LOUD", format="X %(message)s", propagate=True), "none": dict(level=None, propagate=True), "1.5": dict(level=1.5, format="Y")}
OPS = [("setup", k) for k in SETUPS] + [("invalid", k) for k in INVALID] + [("get", "a"), ("get", "torchrir.b"), ("get", None)]
START = ("fresh", "children", "own")
PROBES = (5, 10, 15, 19, 20, 25, 30, 40, 50, 60)
LOOKUPS = ((None, "torchrir"), ("", "torchrir"), ("torchrir", "torchrir"), ("a", "torchrir.a"), ("torchrir.b", "torchrir.b"), ("torchrirx", "torchrir.torchrirx"), ("a.b.c", "torchrir.a.b.c"))


def cases(tier):
    for start, op in itertools.product(START, OPS):
        yield dict(k="seq", start=start, first=op, depth=3 if tier == "quick" else 4)
    yield dict(k="levels")
    yield dict(k="names")
    yield dict(k="sub")
    for a in SETUPS:
        yield dict(k="long", a=a)
    yield dict(k="late")
    yield dict(k="text")


def run(case, ctx):
    with clean():
        globals()["_" + case["k"]](case, ctx)


@contextlib.contextmanager
def clean():
    """The library's loggers as in a new process; root untouched."""
    root, man = logging.getLogger(), logging.Logger.manager
    saved = (list(root.handlers), root.level, sys.stderr, dict(man.loggerDict))
    try:
        reset()
        yield
    finally:
        reset()
        root.handlers[:], root.level, sys.stderr = saved[0], saved[1], saved[2]
        man.loggerDict.clear()
        man.loggerDict.update(saved[3])
        man._clear_cache()


def reset():
    man = logging.Logger.manager
    for name in list(man.loggerDict):
        if name.startswith("torchrir") or name.startswith("other"):
            lg = man.loggerDict[name]
            if isinstance(lg, logging.Logger):
                lg.handlers[:] = []
                lg.setLevel(logging.NOTSET)
                lg.propagate = True
                lg.disabled = False
            if name.count(".") or name != "torchrir":
                del man.loggerDict[name]
    man._clear_cache()


class Catch(logging.Handler):
    def __init__(self):
        super().__init__(1)
        self.got = []

    def emit(self, r):
        self.got.append((r.levelno, r.getMessage()))


class World:
    def __init__(self, start):
        reset()
        self.err = io.StringIO()
        sys.stderr = self.err
        root = logging.getLogger()
        root.handlers[:] = []
        root.setLevel(logging.WARNING)
        self.root, self.other, self.own = Catch(), Catch(), None
        root.addHandler(self.root)
        logging.getLogger("other").addHandler(self.other)
        logging.getLogger("other").setLevel(13)
        if start == "own":
            self.own = Catch()
            self.own.setLevel(7)
            logging.getLogger("torchrir").addHandler(self.own)
        if start == "children":
            get_logger("a")
            get_logger("torchrir.b")
        self.cfg = None

    def apply(self, ctx, op):
        kind, arg = op
        if kind == "setup":
            lg = setup_logging(LoggingConfig(**{k: v for k, v in SETUPS[arg].items() if v is not None}))
            ctx.check(lg is logging.getLogger("torchrir"), f"setup returned {lg!r}")
            self.cfg = SETUPS[arg]
        elif kind == "invalid":
            before = self.frozen()
            exc = raises(lambda: setup_logging(LoggingConfig(**INVALID[arg])), ValueError, TypeError)
            ctx.check(exc is not None, f"invalid level {INVALID[arg]['level']!r} accepted")
            ctx.check(self.frozen() == before, f"refused setup changed {before} to {self.frozen()}")
        else:
            get_logger(arg)

    def frozen(self):
        lg = logging.getLogger("torchrir")
        return (lg.level, lg.propagate, [(id(h), h.level, h.formatter._fmt if h.formatter else None) for h in lg.handlers])

    def state(self):
        lg = logging.getLogger("torchrir")
        return (self.own is not None, tuple(sorted((self.cfg or {}).items(), key=str)), lg.level, lg.propagate, len(lg.handlers))

    def line(self, name, lv, msg):
        fmt = self.cfg.get("format") or "%(levelname)s:%(name)s:%(message)s"
        return fmt % dict(levelname=logging.getLevelName(lv), levelno=lv, name=name, message=msg, asctime=self.cfg.get("datefmt") or "DEFAULTTIME")

    def observe(self, ctx, hist):
        root = logging.getLogger()
        ctx.check(root.handlers == [self.root] and root.level == logging.WARNING, f"{hist}: the root logger was changed: {root.handlers} {root.level}")
        oth = logging.getLogger("other")
        ctx.check(oth.handlers == [self.other] and oth.level == 13 and oth.propagate, f"{hist}: another logger was changed")
        if self.own is not None:
            ctx.check(self.own in logging.getLogger("torchrir").handlers and self.own.level == 7, f"{hist}: the user's handler was changed")
        if self.cfg is None:
            return
        level = LEVELS[str(self.cfg["level"]).upper()] if isinstance(self.cfg["level"], str) else self.cfg["level"]
        for name, full in ((None, "torchrir"), ("a", "torchrir.a"), ("torchrir.b", "torchrir.b"), ("torchrirx", "torchrir.torchrirx"), ("n.e.w", "torchrir.n.e.w")):
            lg = get_logger(name)
            ctx.check(lg.name == full and lg is logging.getLogger(full), f"{hist}: get_logger({name!r}) is {lg.name}")
            for lv in PROBES:
                self.err.seek(0)
                self.err.truncate()
                for h in (self.root, self.other, self.own):
                    if h is not None:
                        h.got.clear()
                lg.log(lv, "hello %d", lv)
                want = lv >= level
                msg = f"hello {lv}"
                lines = [WHEN.sub("DEFAULTTIME", x) for x in self.err.getvalue().splitlines()]
                exp = [self.line(full, lv, msg)] if want and self.own is None else []
                ok = lines == exp
                ctx.check(ok, lambda: f"{hist}: level {lv} on {full}: printed {lines}, expected {exp}")
                prop = [(lv, msg)] if want and self.cfg.get("propagate") else []
                ctx.check(self.root.got == prop and not self.other.got, lambda: f"{hist}: level {lv} on {full}: root got {self.root.got}, expected {prop}; other got {self.other.got}")
                if self.own is not None:
                    ctx.check(self.own.got == ([(lv, msg)] if want and lv >= 7 else []), lambda: f"{hist}: level {lv} on {full}: the user's handler got {self.own.got}")
                if exp:
                    ctx.note(exp)


LEVELS = {"CRITICAL": 50, "FATAL": 50, "ERROR": 40, "WARN": 30, "WARNING": 30, "INFO": 20, "DEBUG": 10}


def _seq(case, ctx):
    first = tuple(case["first"])
    seen = set()
    for n in range(case["depth"]):
        for rest in itertools.product(OPS, repeat=n):
            seq = (first, *rest)
            w = World(case["start"])
            for op in seq:
                w.apply(ctx, op)
                ctx.transitions += 1
            # observing before the last step too would hide a first observation after it: every prefix is its own sequence
            w.observe(ctx, (case["start"], seq))
            ctx.count()
            ctx.traces += 1
            seen.add(w.state())
            ctx.state(w.state())


def _levels(case, ctx):
    for name, val in LEVELS.items():
        for sp in {name, name.lower(), name.capitalize(), name.swapcase()}:
            ctx.count()
            ctx.check(LoggingConfig(level=sp).resolve_level() == val, f"level {sp!r} is {LoggingConfig(level=sp).resolve_level()}")
            ctx.note(sp)
    for v in (1, 10, 15, 20, 37, 50, 99):
        ctx.check(LoggingConfig(level=v).resolve_level() == v, f"level {v}")
    for bad in ("LOUD", "", "INF", "info ", "10", None, 1.5, [], ["INFO"], b"INFO"):
        w = World("fresh")
        setup_logging(LoggingConfig(level="ERROR"))
        w.cfg = dict(level="ERROR")
        before = w.frozen()
        ctx.check(raises(lambda: LoggingConfig(level=bad).resolve_level(), ValueError, TypeError), f"level {bad!r} accepted")
        ctx.check(raises(lambda: setup_logging(LoggingConfig(level=bad, propagate=True, format="Z")), ValueError, TypeError), f"setup with level {bad!r} accepted")
        ctx.check(w.frozen() == before, f"setup with level {bad!r} changed something")
        w.observe(ctx, f"after refused {bad!r}")
        ctx.count()
    base = LoggingConfig()
    ctx.check((base.level, base.format, base.datefmt, base.propagate) == ("INFO", "%(levelname)s:%(name)s:%(message)s", None, False), f"defaults are {base}")
    for kw in (dict(level="DEBUG"), dict(format="x"), dict(datefmt="d"), dict(propagate=True), dict(level=3, propagate=True)):
        new = base.replace(**kw)
        want = {**dict(level=base.level, format=base.format, datefmt=base.datefmt, propagate=base.propagate), **kw}
        ctx.check(all(getattr(new, k) == v for k, v in want.items()) and base == LoggingConfig(), f"replace({kw}) gave {new} and left {base}")
    ctx.check(raises(lambda: base.replace(nothing=1), TypeError), "replace accepted an unknown field")


def _names(case, ctx):
    for cfgd in (False, True):
        for name, full in LOOKUPS + (("torchrir.", "torchrir."), ("Torchrir", "torchrir.Torchrir"), ("torchrir_x", "torchrir.torchrir_x"), ("x.torchrir", "torchrir.x.torchrir"), ("torchrirb.c", "torchrir.torchrirb.c"), ("root", "torchrir.root")):
            World("fresh")
            if cfgd:
                setup_logging(LoggingConfig(level="ERROR"))
            lg = get_logger(name)
            ctx.count()
            ctx.check(lg.name == full, f"get_logger({name!r}) is {lg.name!r}, expected {full!r}")
            ctx.check(lg is get_logger(name) and (full == "torchrir" or (lg.level == 0 and lg.propagate and not lg.handlers)), f"get_logger({name!r}) has its own configuration")
            ctx.check(not cfgd or lg.getEffectiveLevel() == 40, f"get_logger({name!r}) does not follow the configured level")
            ctx.note((name, full, cfgd))


def _long(case, ctx):
    """The same few setups repeated dozens of times, observed at many points; hundreds of loggers below the namespace."""
    for b, start, n in itertools.product(SETUPS, START, (9, 60)):
        w = World(start)
        for i in range(n):
            w.apply(ctx, ("setup", (case["a"], b)[i % 2]))
            if i % 7 == 3:
                w.apply(ctx, ("invalid", list(INVALID)[i % 3]))
            w.apply(ctx, ("get", f"gen.x{i}"))
            ctx.transitions += 1
        w.observe(ctx, (start, case["a"], b, f"alternating {n} times"))
        ctx.count()
        ctx.traces += 1
        ctx.state(w.state())
    w = World("fresh")
    w.apply(ctx, ("setup", case["a"]))
    names = [f"many.level{i % 7}.n{i}" for i in range(300)] + [".".join(["deep"] * k) for k in range(2, 60)]
    for name in names:
        lg = get_logger(name)
        ctx.check(lg.name == f"torchrir.{name}" and lg is get_logger(name), f"get_logger({name[:60]!r}) is {lg.name[:60]!r}")
        w.err.seek(0)
        w.err.truncate()
        lg.log(60, "x")
        ctx.check(len(w.err.getvalue().splitlines()) == 1, f"{len(w.err.getvalue().splitlines())} lines from {name[:60]!r} after {case['a']}")
    w.observe(ctx, (case["a"], "after 360 loggers"))


def _late(case, ctx):
    """A handler the user attaches after a setup keeps receiving, beside the library's own, through any further setup."""
    for first, later in itertools.product(SETUPS, itertools.product(SETUPS, repeat=2)):
        w = World("fresh")
        w.apply(ctx, ("setup", first))
        mine = Catch()
        mine.setLevel(7)
        mine.setFormatter(logging.Formatter("mine %(message)s"))
        fmt = mine.formatter
        lg = logging.getLogger("torchrir")
        lg.addHandler(mine)
        for op in later:
            w.apply(ctx, ("setup", op))
            w.observe(ctx, (first, "own handler", later))
            level = LEVELS[str(w.cfg["level"]).upper()] if isinstance(w.cfg["level"], str) else w.cfg["level"]
            for lv in PROBES:
                mine.got.clear()
                get_logger("a").log(lv, "m")
                ctx.check(mine.got == ([(lv, "m")] if lv >= max(level, 7) else []), lambda: f"{first}, own handler, {later}: level {lv} reached the user's handler {len(mine.got)} times")
            ctx.check(mine in lg.handlers and mine.level == 7 and mine.formatter is fmt, f"{first}, own handler, {later}: the user's handler was changed")
        ctx.count()
        ctx.note((first, later))


def _text(case, ctx):
    """Message forms: arguments, percent signs, several lines, long text, exceptions and non-string messages."""
    for key in SETUPS:
        w = World("fresh")
        w.apply(ctx, ("setup", key))
        for msg, args in (("100%", ()), ("%d of %s", (3, "x")), ("a\nb", ()), ("x" * 100000, ()), ("", ()), ({"a": 1}, ()), ("%(k)s", ({"k": "v"},)), ("\u00e9\u65e5", ()), (0, ()), (None, ())):
            w.err.seek(0)
            w.err.truncate()
            get_logger("a").log(60, msg, *args)
            text = str(msg) % (args[0] if args and isinstance(args[0], dict) else args) if args else str(msg)
            got = WHEN.sub("DEFAULTTIME", w.err.getvalue())
            ctx.check(got == w.line("torchrir.a", 60, text) + "\n", lambda: f"{key}: message {str(msg)[:30]!r} printed as {got[:80]!r}")
            ctx.count()
        w.err.seek(0)
        w.err.truncate()
        try:
            raise KeyError("inner")
        except KeyError:
            get_logger(None).exception("outer") if key != "50 prop" else get_logger(None).critical("outer", exc_info=True)
        got = w.err.getvalue()
        ctx.check("outer" in got and "KeyError: 'inner'" in got and got.count("Traceback") == 1, lambda: f"{key}: exception printed as {got[:200]!r}")
        ctx.note(key)


def _sub(case, ctx):
    """Setting up a logger below the namespace leaves the namespace logger as it was."""
    for first, second in itertools.product(SETUPS, SETUPS):
        if SETUPS[second].get("propagate"):
            continue
        w = World("fresh")
        w.apply(ctx, ("setup", first))
        before = w.frozen()
        lg = setup_logging(LoggingConfig(**SETUPS[second]), name="torchrir.sub")
        ctx.count()
        ctx.check(lg.name == "torchrir.sub" and w.frozen() == before, f"setup of torchrir.sub with {second} changed torchrir set up with {first}")
        w.observe(ctx, (first, "sub", second))
        level = SETUPS[second]["level"]
        level = LEVELS[level.upper()] if isinstance(level, str) else level
        for lv in PROBES:
            w.err.seek(0)
            w.err.truncate()
            lg.log(lv, "x")
            ctx.check(len(w.err.getvalue().splitlines()) == int(lv >= level), f"{first} then sub {second}: level {lv} printed {w.err.getvalue()!r}")
        ctx.note((first, second))
