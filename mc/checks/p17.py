"""P17: dataset download and unpacking under every network answer, disk error and crash point."""

import bz2
import gzip
import http.client
import io
import logging
import random
import tarfile
import urllib.error
import urllib.request
from unittest import mock

from mc import faultfs
from mc.core import explore

from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset

ID = "P17"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive enumeration of network answers, injected disk errors and crash states (every distinct disk state, with torn writes) of the real download code, with recovery runs from each"
NOTE = (
    "The real constructors run against a stand-in for urlopen that serves real http.client responses; every answer sequence of the fetch tree is run, "
    "every file-system call is failed once (no space, interrupt), every disk state between calls is taken as a crash point, and clean runs are started from each."
)
RULE = (
    "both datasets x archive layouts x starting folders; all fetch answers {ok, refused, 404, short, empty, reset, cut without length, garbage, damaged, truncated} along the whole "
    "retry tree; archives of several read blocks cut at block boundaries; one disk error or interrupt at every file-system call; a crash at every distinct disk state including torn writes (thorough: a second crash or fault during recovery). "
    "Non-trivial: distinct (scenario, disk state)."
)
ASSUMPTIONS = [
    "a crash keeps the bytes already written (process death, not power loss)",
    "a damaged archive is one the decompressor or tar reader notices; a well-formed archive of something else is not judged",
    "an answer without a length that is cut short may leave its bytes under the archive name, because nothing shows the cut; later runs must still recover",
]

DATA = {
    "cmu": {
        "cmu_us_bdl_arctic/COPYING": b"licence text",
        "cmu_us_bdl_arctic/etc/txt.done.data": b'( arctic_a0001 "Hello." )\n( arctic_a0002 "World." )\n',
        "cmu_us_bdl_arctic/wav/arctic_a0001.wav": bytes(range(200)),
        "cmu_us_bdl_arctic/wav/arctic_a0002.wav": b"RIFF" + bytes(300),
    },
    "libri": {
        "LibriSpeech/README.TXT": b"read me",
        "LibriSpeech/dev-clean/103/1240/103-1240.trans.txt": b"103-1240-0000 HELLO WORLD\n103-1240-0001 BYE\n",
        "LibriSpeech/dev-clean/103/1240/103-1240-0000.flac": bytes(range(180)),
        "LibriSpeech/dev-clean/103/1240/103-1240-0001.flac": b"fLaC" + bytes(250),
        "LibriSpeech/dev-clean/84/1/84-1.trans.txt": b"",
        "LibriSpeech/ZLAST.TXT": b"last",
    },
}
BASE = {"cmu": "ARCTIC/", "libri": ""}
HOME = {"cmu": "ARCTIC/cmu_us_bdl_arctic", "libri": "LibriSpeech/dev-clean"}
ARCHIVE = {"cmu": "ARCTIC/cmu_us_bdl_arctic.tar.bz2", "libri": "dev-clean.tar.gz"}
OTHER = {
    "cmu": {"ARCTIC": None, "ARCTIC/cmu_us_slt_arctic": None, "ARCTIC/cmu_us_slt_arctic/keep.txt": b"other speaker", "notes.txt": b"mine"},
    "libri": {"LibriSpeech": None, "LibriSpeech/test-clean": None, "LibriSpeech/test-clean/keep.txt": b"other subset", "LibriSpeech/README.TXT": b"read me", "notes.txt": b"mine"},
}
LAYOUTS = ["folders", "bare", "dotted"]
_cache = {}


def archive(kind, layout):
    if (kind, layout) not in _cache:
        raw = io.BytesIO()
        with tarfile.open(fileobj=raw, mode="w") as tar:
            seen, cut = set(), 0
            for name, data in DATA[kind].items():
                pre = "./" if layout == "dotted" else ""
                if layout != "bare":
                    parts = name.split("/")[:-1]
                    for i in range(len(parts)):
                        d = "/".join(parts[: i + 1])
                        if d not in seen:
                            seen.add(d)
                            t = tarfile.TarInfo(pre + d)
                            t.type, t.mode = tarfile.DIRTYPE, 0o755
                            tar.addfile(t)
                t = tarfile.TarInfo(pre + name)
                t.size = len(data)
                tar.addfile(t, io.BytesIO(data))
                if len(data) > 100:
                    cut = tar.offset - 512 + 50  # inside the data block of this member
        raw = raw.getvalue()
        pack = (lambda b: bz2.compress(b)) if kind == "cmu" else (lambda b: gzip.compress(b, mtime=0))
        good = pack(raw)
        flip = bytearray(good)
        for i in range(len(good) // 3, len(good) // 3 + 24):
            flip[i] ^= 0x5A
        _cache[kind, layout] = dict(good=good, damaged=bytes(flip), truncated=good[: len(good) * 2 // 3], garbage=b"<html>busy</html>" * 9, cut_member=pack(raw[:cut]))
    return _cache[kind, layout]


class _Sock:
    def __init__(self, data, fail_at=None):
        self.data, self.fail_at = data, fail_at

    def makefile(self, *_a, **_k):
        return io.BufferedReader(_Raw(self.data, self.fail_at), buffer_size=64)


class _Raw(io.RawIOBase):
    def __init__(self, data, fail_at):
        self.data, self.fail_at, self.pos = data, fail_at, 0

    def readable(self):
        return True

    def readinto(self, b):
        if self.fail_at is not None and self.pos >= self.fail_at:
            raise ConnectionResetError(104, "Connection reset by peer")
        end = min(self.pos + len(b), len(self.data) if self.fail_at is None else min(self.fail_at, len(self.data)))
        part = self.data[self.pos : end]
        b[: len(part)] = part
        self.pos = end
        return len(part)


def _response(body, length, fail=None):
    head = b"HTTP/1.1 200 OK\r\nContent-Type: application/octet-stream\r\nConnection: close\r\n"
    head += b"" if length is None else b"Content-Length: %d\r\n" % length
    head += b"\r\n"
    r = http.client.HTTPResponse(_Sock(head + body, None if fail is None else len(head) + fail))
    r.begin()
    return r


ANSWERS = ["ok", "refused", "missing", "short", "empty", "reset", "cut", "garbage", "damaged", "truncated", "cut_member"]


def answer(name, url, a):
    good = a["good"]
    if name == "ok":
        return _response(good, len(good))
    if name == "refused":
        raise urllib.error.URLError(ConnectionRefusedError(111, "Connection refused"))
    if name == "missing":
        raise urllib.error.HTTPError(url, 404, "Not Found", {}, io.BytesIO(b""))
    if name == "short":
        return _response(good[: len(good) // 2], len(good))
    if name == "empty":
        return _response(b"", len(good))
    if name == "reset":
        return _response(good, len(good), fail=len(good) // 2)
    if name == "cut":
        return _response(good[: len(good) // 2], None)
    return _response(a[name], len(a[name]))


class Net:
    """Stand-in for urllib.request.urlopen; choose(i) names the i-th answer."""

    def __init__(self, kind, layout, choose):
        self.a, self.choose, self.served = archive(kind, layout), choose, []

    def __call__(self, req, *_a, **_k):
        url = req if isinstance(req, str) else req.full_url
        name = self.choose(len(self.served))
        self.served.append(name)
        return answer(name, url, self.a)


def _open(kind, root, net, download=True):
    with mock.patch.object(urllib.request, "urlopen", net):
        return CmuArcticDataset(root, speaker="bdl", download=download) if kind == "cmu" else LibriSpeechDataset(root, subset="dev-clean", download=download)


def complete(kind, snap, start):
    """None if the dataset in snap is exactly the archive's and nothing of start was lost, else what is wrong."""
    home = HOME[kind] + "/"
    want = {BASE[kind] + n: d for n, d in DATA[kind].items()}
    for n, d in want.items():
        if snap.get(n) != d:
            return f"{n} is {'missing' if n not in snap else 'wrong'}"
    extra = [n for n, v in snap.items() if n.startswith(home) and v is not None and n not in want]
    if extra:
        return f"extra files {extra}"
    return kept(snap, start)


def kept(snap, start):
    for n, v in start.items():
        if "keep" in n or "notes" in n:
            if snap.get(n) != v:
                return f"{n}, which was there before, is gone"
    return None


class Explorer:
    def __init__(self, case, ctx):
        self.kind, self.layout, self.ctx = case["kind"], case["layout"], ctx
        self.root = ctx.dir() / "data"
        self.judged: set = set()

    def invariant(self, snap, what, start, allow_cut=False):
        a = archive(self.kind, self.layout)
        got = snap.get(ARCHIVE[self.kind])
        fine = {a["good"], a["damaged"], a["garbage"], a["truncated"], a["cut_member"]}
        if allow_cut:
            fine.add(a["good"][: len(a["good"]) // 2])
        if got is not None and got not in fine and got != start.get(ARCHIVE[self.kind]):
            return self.ctx.fail(f"{what}: a partial archive ({len(got)} of {len(a['good'])} bytes) stands under its final name")
        bad = kept(snap, start)
        return self.ctx.check(not bad, f"{what}: {bad}")

    def recover(self, snap, what, start, allow_cut=False):
        """From this disk state: offline run is complete or refused; an online run completes; then nothing is fetched."""
        ctx = self.ctx
        k = faultfs.key(snap)
        if k in self.judged:
            return True
        self.judged.add(k)
        ctx.state((self.kind, self.layout, k))
        ctx.note((self.kind, self.layout, k))
        if not self.invariant(snap, what, start, allow_cut):
            return False
        net = Net(self.kind, self.layout, lambda i: "ok")
        faultfs.restore(self.root, snap)
        ctx.count()
        try:
            _open(self.kind, self.root, net, download=False)
            bad = complete(self.kind, faultfs.snapshot(self.root), start)
            if not ctx.check(not bad, f"{what}: a later run without download takes an incomplete dataset for complete: {bad}"):
                return False
        except FileNotFoundError:
            pass
        if not ctx.check(not net.served, f"{what}: download=False fetched"):
            return False
        try:
            ds = _open(self.kind, self.root, net)
        except Exception as exc:
            return ctx.fail(f"{what}: the next run with a working network fails: {type(exc).__name__}: {exc}")
        end = faultfs.snapshot(self.root)
        bad = complete(self.kind, end, start)
        if not ctx.check(not bad, f"{what}: the next run returns an incomplete dataset: {bad}"):
            return False
        try:
            n = len(ds.available_sentences())
        except Exception as exc:
            return ctx.fail(f"{what}: recovered dataset is unusable: {exc!r}")
        ctx.check(n == 2, f"{what}: recovered dataset lists {n} of 2 utterances")
        if snap.get(ARCHIVE[self.kind]) == archive(self.kind, self.layout)["good"]:
            ctx.check(not net.served, f"{what}: a complete archive was there but {len(net.served)} fetches were made")
        if not complete(self.kind, snap, start):
            ctx.check(not net.served, f"{what}: the dataset was there but {len(net.served)} fetches were made")
        net2 = Net(self.kind, self.layout, lambda i: "ok")
        for dl in (True, False):
            _open(self.kind, self.root, net2, download=dl)
        ctx.check(not net2.served, f"{what}: a complete dataset was fetched again")
        bad = complete(self.kind, faultfs.snapshot(self.root), start)
        return ctx.check(not bad, f"{what}: opening a complete dataset damaged it: {bad}")


def starts(kind, layout):
    a = archive(kind, layout)
    arc = ARCHIVE[kind]
    parent = {arc.rsplit("/", 1)[0]: None} if "/" in arc else {}
    out = {
        "empty": {},
        "others": OTHER[kind],
        "archive": {**OTHER[kind], **parent, arc: a["good"]},
        "bad archive": {**parent, arc: a["truncated"]},
        "leftovers": {**OTHER[kind], **parent, arc + ".part": b"old rubbish", BASE[kind] + f".{HOME[kind].rsplit('/', 1)[1]}.partial": None,
                      BASE[kind] + f".{HOME[kind].rsplit('/', 1)[1]}.partial/x": b"old"},
    }
    return out


def cases(tier):
    for kind in ("cmu", "libri"):
        for layout in LAYOUTS:
            for part in range(4):
                yield dict(k="flip", kind=kind, layout=layout, part=part)
            for st in ("empty", "others", "archive", "bad archive", "leftovers"):
                yield dict(k="net", kind=kind, layout=layout, start=st)
                yield dict(k="crash", kind=kind, layout=layout, start=st)
                for part in range(4):
                    yield dict(k="disk", kind=kind, layout=layout, start=st, part=part)
                if tier != "quick":
                    for part in range(8):
                        yield dict(k="crash2", kind=kind, layout=layout, start=st, part=part)
        yield dict(k="big", kind=kind)
        if tier == "quick":
            for part in range(4):
                yield dict(k="crash2", kind=kind, layout="folders", start="others", part=part, parts=4)


CASE_LIMIT = 300


def run(case, ctx):
    logging.disable(logging.CRITICAL)
    try:
        globals()["_" + case["k"]](case, ctx)
    finally:
        logging.disable(logging.NOTSET)


def _net(case, ctx):
    """The whole tree of fetch answers for one starting folder."""
    ex = Explorer(case, ctx)
    start = starts(case["kind"], case["layout"])[case["start"]]

    def one(ch):
        faultfs.restore(ex.root, start)
        net = Net(case["kind"], case["layout"], lambda i: ANSWERS[ch.pick(len(ANSWERS))])
        try:
            _open(case["kind"], ex.root, net)
            err = None
        except Exception as exc:
            err = exc
        return net.served, err, faultfs.snapshot(ex.root)

    for ch, (served, err, snap) in explore(one):
        what = f"{case['kind']} {case['layout']} from {case['start']}: answers {served}"
        ctx.transitions += len(served)
        ctx.traces += 1
        if not ctx.check(len(served) <= 6, f"{what}: keeps fetching"):
            return
        if err is None:
            bad = complete(case["kind"], snap, start)
            if not ctx.check(not bad, f"{what}: returned an incomplete dataset: {bad}"):
                return
        faults = [s for s in served if s != "ok"]
        # an archive present but bad counts as the single failure
        if len(faults) <= (0 if case["start"] == "bad archive" else 1):
            if not ctx.check(err is None, f"{what}: a single failure was not hidden: {err!r}"):
                return
        if case["start"] == "archive" and not ctx.check(not served, f"{what}: fetched although the archive was there"):
            return
        if not ex.recover(snap, what, start, allow_cut="cut" in served):
            return


MIB = 1 << 20


def _big(case, ctx):
    """An archive of several read blocks, cut or reset at and around block boundaries."""
    kind, root = case["kind"], ctx.dir() / "data"
    prefix = next(n for n in DATA[kind] if n.endswith(("wav", "flac"))).rsplit("/", 1)[0]
    files = {n: d for n, d in DATA[kind].items()}
    files[prefix + "/big.bin"] = random.Random(5).randbytes(2 * MIB + 70_000)
    raw = io.BytesIO()
    with tarfile.open(fileobj=raw, mode="w:" + ("bz2" if kind == "cmu" else "gz")) as tar:
        for n, d in files.items():
            t = tarfile.TarInfo(n)
            t.size = len(d)
            tar.addfile(t, io.BytesIO(d))
    good = raw.getvalue()
    assert len(good) > 2 * MIB
    arc = root / ARCHIVE[kind]
    plans = [("ok", None), ("unknown length", None)]
    plans += [(how, at) for how in ("short", "reset") for at in (MIB - 1, MIB, MIB + 1, 2 * MIB, len(good) - 1)]
    for how, at in plans:
        for twice in (False, True) if at is not None else (False,):
            faultfs.restore(root, {})
            what = f"{kind}: archive of {len(good)} bytes, {how}{'' if at is None else f' after {at} bytes'}{', twice' if twice else ''}"
            served, partial = [], []

            def net(req, *_a, **_k):
                served.append(1)
                if arc.exists() and arc.read_bytes() != good:
                    partial.append(arc.stat().st_size)
                if at is None or len(served) > 1 + twice:
                    return _response(good, None if how == "unknown length" else len(good))
                return _response(good[:at], len(good)) if how == "short" else _response(good, len(good), fail=at)

            ctx.count()
            ctx.transitions += 1
            ctx.note((kind, how, at, twice))
            try:
                _open(kind, root, net)
                err = None
            except Exception as exc:
                err = exc
            if arc.exists() and arc.read_bytes() != good:
                partial.append(arc.stat().st_size)
            ctx.check(not partial, f"{what}: {partial} bytes under the final name")
            if not ctx.check(err is None or twice, f"{what}: a single failure was not hidden: {err!r}"):
                return
            if err is not None:
                _open(kind, root, lambda *_a, **_k: _response(good, len(good)))
            snap = faultfs.snapshot(root)
            wrong = [n for n, d in files.items() if snap.get(BASE[kind] + n) != d]
            if not ctx.check(not wrong, f"{what}: {wrong} missing or wrong"):
                return


def _crash(case, ctx):
    """Crash at every distinct disk state of runs with each kind of first answer."""
    ex = Explorer(case, ctx)
    start = starts(case["kind"], case["layout"])[case["start"]]
    for first in ANSWERS:
        faultfs.restore(ex.root, start)
        net = Net(case["kind"], case["layout"], lambda i: first if i == 0 else "ok")
        with faultfs.Steps(ex.root, record=True) as st:
            try:
                _open(case["kind"], ex.root, net)
            except Exception:
                pass
        ctx.transitions += st.count
        for i, snap in enumerate(st.states):
            if not ex.recover(snap, f"{case['kind']} {case['layout']} from {case['start']}: crash at disk state {i} of {len(st.states)} after answer {first}", start, allow_cut=first == "cut"):
                return
        if not net.served:
            break


def _flip(case, ctx):
    """Every single damaged byte of the archive: noticed and fetched again, or harmless."""
    ex = Explorer(case, ctx)
    good = archive(case["kind"], case["layout"])["good"]
    for pos in range(case["part"], len(good), 4):
        for bit in range(8) if ctx.tier != "quick" else (pos % 8, (pos + 5) % 8):
            bad = bytearray(good)
            bad[pos] ^= 1 << bit
            faultfs.restore(ex.root, {})
            net = Net(case["kind"], case["layout"], lambda i: "ok")
            net.a = {**net.a, "flip": bytes(bad)}
            net.choose = lambda i: "flip" if i == 0 else "ok"
            what = f"{case['kind']} {case['layout']}: archive with bit {bit} of byte {pos} flipped"
            ctx.count()
            ctx.transitions += 1
            try:
                _open(case["kind"], ex.root, net)
            except Exception as exc:
                return ctx.fail(f"{what}: a single failure was not hidden: {exc!r}")
            ctx.note((case["kind"], case["layout"], pos, bit, len(net.served)))
            wrong = complete(case["kind"], faultfs.snapshot(ex.root), {})
            if not ctx.check(not wrong, f"{what}: returned a wrong dataset: {wrong}"):
                return


def _disk(case, ctx):
    """One disk error or interrupt at every file-system call."""
    ex = Explorer(case, ctx)
    start = starts(case["kind"], case["layout"])[case["start"]]
    for first in ("ok", "short", "damaged"):
        faultfs.restore(ex.root, start)
        net = Net(case["kind"], case["layout"], lambda i: first if i == 0 else "ok")
        with faultfs.Steps(ex.root) as st:
            try:
                _open(case["kind"], ex.root, net)
            except Exception:
                pass
        for i in range(case["part"], st.count, 4):
            for exc in (faultfs.no_space(), KeyboardInterrupt()):
                faultfs.restore(ex.root, start)
                net = Net(case["kind"], case["layout"], lambda i: first if i == 0 else "ok")
                ok = False
                inj = faultfs.Steps(ex.root, inject=i, exc=exc)
                try:
                    with inj:
                        _open(case["kind"], ex.root, net)
                        ok = True
                except BaseException as got:
                    if not isinstance(got, (Exception, KeyboardInterrupt)):
                        raise
                snap = faultfs.snapshot(ex.root)
                ctx.transitions += 1
                what = f"{case['kind']} {case['layout']} from {case['start']}, answer {first}: {type(exc).__name__} at file-system call {i} ({inj.fired})"
                if ok:
                    bad = complete(case["kind"], snap, start)
                    if not ctx.check(not bad, f"{what}: returned an incomplete dataset: {bad}"):
                        return
                if not ex.recover(snap, what, start):
                    return
        if not net.served:
            break


def _crash2(case, ctx):
    """A second crash while recovering from the first."""
    ex = Explorer(case, ctx)
    start = starts(case["kind"], case["layout"])[case["start"]]
    faultfs.restore(ex.root, start)
    ok = Net(case["kind"], case["layout"], lambda i: "ok")
    with faultfs.Steps(ex.root, record=True) as st:
        _open(case["kind"], ex.root, ok)
    for i, snap in enumerate(st.states):
        if i % case.get("parts", 8) != case["part"]:
            continue
        for first in ("ok", "short"):
            faultfs.restore(ex.root, snap)
            net = Net(case["kind"], case["layout"], lambda i: first if i == 0 else "ok")
            with faultfs.Steps(ex.root, record=True) as st2:
                try:
                    _open(case["kind"], ex.root, net)
                except Exception:
                    pass
            ctx.transitions += st2.count
            for j, snap2 in enumerate(st2.states):
                if not ex.recover(snap2, f"{case['kind']} {case['layout']} from {case['start']}: crash at disk state {i}, then at {j} while recovering", start):
                    return
            if not net.served:
                break
