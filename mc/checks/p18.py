"""P18: every small archive through the real unpacking code, confined to a nested scratch folder."""

import bz2
import io
import itertools
import logging
import os
import posixpath
import tarfile
import urllib.request
from unittest import mock

from mc import faultfs
from mc.core import raises

from torchrir.datasets import CmuArcticDataset
from torchrir.datasets import _archive

ID = "P18"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of archives (all member sequences over an alphabet of kinds and path spellings) and destination states on the real unpacking code with whole-tree comparison"
NOTE = (
    "Every sequence of up to three members (thorough four) is unpacked through the dataset constructor and the extraction helper; the whole scratch tree "
    "above the destination is compared before and after, so any write outside shows, whatever path it took."
)
RULE = (
    "all ordered sequences of up to 3 (thorough: 4 over a reduced alphabet) members over files, folders, symbolic and hard links x spellings (plain, nested, dotted, parent "
    "components staying in and leaving, sibling prefix, absolute in and out), x destinations with and without links. Non-trivial: distinct (archive, destination, outcome)."
)
ASSUMPTIONS = [
    "members whose paths contradict each other (a file where a folder is needed) are not judged", "device and fifo members are not judged", "a name with a parent component that stays inside may be refused or unpacked",
    "an absolute name that already lies inside the destination may be refused or unpacked",
]

DEPTH = "a/b/c/d/e"
# (tag, kind, name, link target); {S} is the scratch folder, {D} the destination
MEMBERS = [
    ("f", "file", "x"),
    ("g", "file", "cmu_us_bdl_arctic/wav/n.wav"),
    ("dx", "file", "d/x"),
    ("dot", "file", "./y"),
    ("mid", "file", "d/./x"),
    ("back", "file", "d/../z"),
    ("dbl", "file", "d//w"),
    ("dots", "file", "..x"),
    ("dots2", "file", "a..b/c.."),
    ("dir", "dir", "d"),
    ("dirdot", "dir", "./"),
    ("deep", "dir", "e/f/g"),
    ("up", "file", "../up"),
    ("up2", "file", "d/../../up"),
    ("up3", "file", "../../../up"),
    ("updeep", "file", "d/e/../../../up"),
    ("sib", "file", "../ARCTIC-evil/x"),
    ("sib2", "file", "../ARCTICx"),
    ("abs", "file", "{S}/abs"),
    ("absup", "file", "{D}/../absup"),
    ("abssib", "file", "{D}2/x"),
    ("updir", "dir", "../updir"),
    ("absdir", "dir", "{S}/absdir"),
    ("ddir", "dir", "d/../../updir"),
    ("symout", "sym", "s", "{S}/outside"),
    ("symrel", "sym", "s", "../../outside"),
    ("symin", "sym", "s", "d"),
    ("symdeep", "sym", "d/s", "x"),
    ("hardin", "hard", "h", "x"),
    ("hardout", "hard", "h", "{S}/outside/secret"),
    ("hardup", "hard", "h", "../../secret"),
    ("hardself", "hard", "x", "x"),
    ("hardnone", "hard", "h", ""),
    ("symnone", "sym", "s", ""),
    ("symself", "sym", "s", "s"),
    ("symdot", "sym", "d", "."),
    ("harddot", "hard", "./y", "./y"),
    ("via", "file", "s/x"),
    ("vialnk", "file", "lnk/x"),
    ("lnkfile", "file", "lnkfile"),
    ("lnkin", "file", "lnkin/x"),
    ("absin", "file", "{D}/absin"),
]
BAD = {"up", "up2", "up3", "updeep", "sib", "sib2", "abs", "absup", "abssib", "updir", "absdir", "ddir", "symout", "symrel", "symin", "symdeep", "hardin", "hardout", "hardup", "hardself", "hardnone", "symnone", "symself", "symdot", "harddot"}
EITHER = {"absin", "back"}
SMALL = ["f", "dx", "back", "dir", "up", "sib", "abs", "symout", "hardin", "via", "updir"]
BY = {m[0]: m for m in MEMBERS}


def cases(tier):
    tags = [m[0] for m in MEMBERS]
    for a in tags:
        yield dict(k="seq", head=[a], links=False)
        yield dict(k="seq", head=[a], links=True)
        for b in tags:
            yield dict(k="seq3", head=[a, b], links=False)
            if tier != "quick" or a in SMALL or b in ("vialnk", "lnkfile", "lnkin"):
                yield dict(k="seq3", head=[a, b], links=True)
    if tier != "quick":
        for a, b in itertools.product(SMALL, repeat=2):
            yield dict(k="seq4", head=[a, b], links=False)


def run(case, ctx):
    logging.disable(logging.CRITICAL)
    try:
        b = Bench(ctx, case["links"])
        head = case["head"]
        tags = [m[0] for m in MEMBERS]
        if case["k"] == "seq":
            seqs = [head] + [head + [t] for t in tags]
        elif case["k"] == "seq3":
            third = tags if ctx.tier != "quick" else SMALL
            seqs = [head + [t] for t in third] + ([[t] + head for t in tags if t not in SMALL] if ctx.tier == "quick" and head[0] in SMALL else [])
        else:
            seqs = [head + list(t) for t in itertools.product(SMALL, repeat=2)]
        for seq in seqs:
            for entry in ("dataset", "helper"):
                b.judge(seq, entry)
            if ctx.messages:
                return
    finally:
        logging.disable(logging.NOTSET)


def conflict(names):
    """Do the members contradict each other (file needed as a folder)?"""
    files, dirs = set(), set()
    for kind, name in names:
        parts = name.rstrip("/").split("/")
        for i in range(1, len(parts)):
            dirs.add(posixpath.normpath("/".join(parts[:i]) or "/"))
        (dirs if kind == "dir" else files).add(posixpath.normpath(name))
    return bool(files & dirs) or any(f.startswith(g + "/") for f in files for g in files)


class Bench:
    def __init__(self, ctx, links):
        self.ctx, self.links = ctx, links
        self.scratch = ctx.dir()
        self.dest = self.scratch / DEPTH / "ARCTIC"
        start = {"outside": None, "outside/secret": b"secret", "outside/sub": None, "secret": b"s2", DEPTH: None, f"{DEPTH}/ARCTIC": None, f"{DEPTH}/ARCTIC/keep": b"keep"}
        if links:
            d = f"{DEPTH}/ARCTIC"
            start[f"{d}/lnk"] = ("link", str(self.scratch / "outside"))
            start[f"{d}/lnkfile"] = ("link", str(self.scratch / "outside/secret"))
            start[f"{d}/real"] = None
            start[f"{d}/lnkin"] = ("link", "real")
        self.start = start
        faultfs.restore(self.scratch, start)
        self.dirty = False

    def fill(self, s):
        return s.replace("{S}", str(self.scratch)).replace("{D}", str(self.dest))

    def judge(self, seq, entry):
        ctx = self.ctx
        names = [(BY[t][1], self.fill(BY[t][2])) for t in seq]
        bad = any(t in BAD for t in seq) or (self.links and any(t in ("vialnk", "lnkfile") for t in seq))
        if not bad and conflict(names):
            return
        if entry == "helper" and not hasattr(_archive, "safe_extractall"):
            return
        if self.dirty:
            faultfs.restore(self.scratch, self.start)
            self.dirty = False
        raw = io.BytesIO()
        with tarfile.open(fileobj=raw, mode="w", format=tarfile.PAX_FORMAT) as tar:
            if entry == "dataset":
                self.add(tar, "file", "cmu_us_bdl_arctic/wav/m.wav", b"base")
            for i, t in enumerate(seq):
                m = BY[t]
                self.add(tar, m[1], self.fill(m[2]), b"content %d of %s" % (i, t.encode()), self.fill(m[3]) if len(m) > 3 else "")
        ctx.count()
        what = f"archive {seq} through {entry}{' with links in the destination' if self.links else ''}"
        arc = f"{DEPTH}/ARCTIC/cmu_us_bdl_arctic.tar.bz2"
        try:
            if entry == "dataset":
                (self.scratch / arc).write_bytes(bz2.compress(raw.getvalue(), 1))
                self.dirty = True
                with mock.patch.object(urllib.request, "urlopen", side_effect=OSError("no network")):
                    CmuArcticDataset(self.dest.parent, speaker="bdl", download=True)
            else:
                raw.seek(0)
                with tarfile.open(fileobj=raw, mode="r:") as tar:
                    _archive.safe_extractall(tar, self.dest)
            err = None
        except Exception as exc:
            err = exc
        end = faultfs.snapshot(self.scratch)
        end.pop(arc, None)
        changed = {k for k in set(end) | set(self.start) if end.get(k, 0) != self.start.get(k, 0) and k not in _parents(self.start)}
        self.dirty = self.dirty or bool(changed)
        inside = f"{DEPTH}/ARCTIC/"
        out = [k for k in changed if not k.startswith(inside)]
        ctx.note((tuple(seq), entry, self.links, type(err).__name__))
        if not ctx.check(not out, f"{what}: changed {out} outside the destination"):
            return
        if err is not None:
            ok = bad or any(t in EITHER for t in seq) or (self.links and "lnkin" in seq)
            if entry == "helper" and "back" in seq and isinstance(err, OSError):
                return  # the tar library itself cannot create "d/.." while unpacking
            if ctx.check(ok, f"{what}: an ordinary archive is refused: {type(err).__name__}: {err}"):
                ctx.check(not changed, f"{what}: refused ({type(err).__name__}: {err}) after writing {sorted(changed)}")
            return
        if not ctx.check(not bad, f"{what}: unsafe archive accepted, wrote {sorted(changed)}"):
            return
        want = {}
        if entry == "dataset":
            want["cmu_us_bdl_arctic/wav/m.wav"] = b"base"
        for i, t in enumerate(seq):
            name = os.path.relpath(posixpath.normpath(os.path.join(str(self.dest), self.fill(BY[t][2]))), self.dest)
            if self.links and name.startswith("lnkin/"):
                name = "real/" + name[6:]
            want[name] = b"content %d of %s" % (i, t.encode()) if BY[t][1] == "file" else None
        for n, v in want.items():
            if n == ".":
                continue
            got = end.get(inside + n, "missing")
            if not ctx.check(got == v, f"{what}: {n} is {got!r}, expected {v!r}"):
                return
        extra = [k for k in changed if end.get(k, None) is not None and k[len(inside) :] not in want]
        ctx.check(not extra, f"{what}: unexpected files {extra}")

    def add(self, tar, kind, name, data, link=""):
        t = tarfile.TarInfo(name)
        t.mode = 0o755
        if kind == "file":
            t.size = len(data)
            tar.addfile(t, io.BytesIO(data))
            return
        t.type = {"dir": tarfile.DIRTYPE, "sym": tarfile.SYMTYPE, "hard": tarfile.LNKTYPE}[kind]
        t.linkname = link
        tar.addfile(t)


def _parents(start):
    out = set()
    for k in start:
        while "/" in k:
            k = k.rsplit("/", 1)[0]
            out.add(k)
    return out
