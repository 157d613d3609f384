"""P31: attribution notices are complete and state what was done to the data."""

import collections
import dataclasses
import itertools
import json
import logging
import types

from mc.core import raises

from torchrir.datasets import CmuArcticDataset, DatasetAttribution, LibriSpeechDataset, attribution_for, default_modification_notes
from torchrir.io import save_attribution_file

ID = "P31"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of datasets, spellings, subsets, record representations, missing-field subsets and note lists on the real attribution code"
NOTE = "Every record is written as a notice in every representation and read back line by line; every subset of the required fields is left out in every representation."
RULE = "2 datasets x spellings x 9 subsets; 2^5 missing-field subsets x 6 representations; note lists of length 0..3 over 4 notes; other objects. Non-trivial: distinct notices and refusals."
ASSUMPTIONS = ["licence facts are those of THIRD_PARTY_DATASETS.md and the datasets' home pages", "a required field is missing when the record has no such entry"]
REQUIRED = ("dataset", "source", "license_name", "license_url", "required_attribution")
SUBSETS = (None, "dev-clean", "dev-other", "test-clean", "test-other", "train-clean-100", "train-clean-360", "train-other-500", "anything")
FACTS = {
    "cmu_arctic": dict(dataset="cmu arctic", source="festvox.org/cmu_arctic", license_name="permissive", license_url="festvox.org/cmu_arctic", required_attribution="carnegie mellon university"),
    "librispeech": dict(dataset="librispeech", source="openslr.org/12", license_name="cc by 4.0", license_url="creativecommons.org/licenses/by/4.0", required_attribution="panayotov"),
}
NOTES = ("Trimmed to 8 s.", "Mixé à 0 dB — μ", "  spaced  ", "Trimmed to 8 s")
FORMS = ("dict", "proxy", "ordered", "to_dict", "dataclass", "dataclass_to_dict", "record")


def cases(tier):
    for key in FACTS:
        yield dict(k="records", key=key)
    for form in FORMS:
        yield dict(k="missing", form=form)
        yield dict(k="notice", form=form)
        yield dict(k="long", form=form)
    yield dict(k="other")
    yield dict(k="notes")


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


@dataclasses.dataclass
class Rec:
    dataset: str = "D"
    source: str = "S"
    license_name: str = "L"
    license_url: str = "U"
    required_attribution: str = "R"
    subset: str = None


@dataclasses.dataclass
class Wraps:
    payload: dict
    dataset: str

    def to_dict(self):
        return dict(self.payload)


class HasToDict:
    def __init__(self, d):
        self._d = d

    def to_dict(self):
        return self._d


def rep(d, form):
    """The mapping d in another representation."""
    if form == "dict":
        return dict(d)
    if form == "proxy":
        return types.MappingProxyType(dict(d))
    if form == "ordered":
        return collections.OrderedDict(sorted(d.items(), reverse=True))
    if form == "to_dict":
        return HasToDict(dict(d))
    if form == "dataclass":
        return dataclasses.make_dataclass("R", [(k, object) for k in d])(**d)
    if form == "dataclass_to_dict":  # its own account of itself is what counts, not how it stores it
        return Wraps(payload=dict(d), dataset="not this one")
    if form == "record":
        return DatasetAttribution(**{**{k: d[k] for k in REQUIRED}, "dataset_key": "k", "subset": d.get("subset")}) if set(REQUIRED) <= set(d) else None
    raise AssertionError(form)


class Log(logging.Handler):
    def __init__(self):
        super().__init__()
        self.out = []

    def emit(self, r):
        self.out.append(r.getMessage())


def judge(ctx, what, text, info, notes):
    ctx.count()
    lines = text.split("\n")
    for key in REQUIRED:
        ctx.check(any(str(info[key]) in ln for ln in lines), f"{what}: the notice lacks {key} = {info[key]!r}")
    sub = info.get("subset")
    has = [ln for ln in lines if ln.lower().startswith("subset")]
    ctx.check((len(has) == 1 and sub in has[0]) if sub is not None else not has, f"{what}: subset {sub!r} shown as {has}")
    listed = [ln[2:] for ln in lines if ln.startswith("- ")]
    ctx.check(listed == list(notes), f"{what}: lists notes {listed}, given {list(notes)}")
    ctx.check("modif" in text.lower(), f"{what}: no statement about modifications")
    ctx.note((what.split(":")[0], text))


def _records(case, ctx):
    key = case["key"]
    spell = {key, key.upper(), key.title(), key.swapcase(), "".join(c.upper() if i % 2 else c for i, c in enumerate(key))}
    for sp, sub in itertools.product(sorted(spell), SUBSETS):
        r = attribution_for(sp, subset=sub) if sub is not None else attribution_for(sp)
        d = r.to_dict()
        what = f"attribution_for({sp!r}, {sub!r})"
        ctx.count()
        for f, fact in FACTS[key].items():
            ctx.check(fact in str(d[f]).lower(), f"{what}: {f} is {d[f]!r}")
        ctx.check(d["dataset_key"] == key and d["attribution_required"] is True, f"{what}: {d}")
        ctx.check(d["subset"] == (sub if key == "librispeech" else None), f"{what}: subset {d['subset']!r}")
        ctx.check(json.loads(json.dumps(d)) == d and d == {f.name: getattr(r, f.name) for f in dataclasses.fields(r)}, f"{what}: the mapping differs from the record or JSON")
        ctx.check(d["license_url"].startswith("http") and d["source"].startswith("http"), f"{what}: no links")
        d["dataset"] = "changed"
        ctx.check(attribution_for(sp, subset=sub) == r, f"{what}: changed by changing a mapping of it")
        for dyn in (False, True):
            notes = default_modification_notes(dynamic=dyn)
            out = ctx.dir()
            p = save_attribution_file(out_dir=out, dataset_attribution=r, modifications=notes)
            judge(ctx, what, p.read_text(encoding="utf-8"), r.to_dict(), notes)
    cls, kw = (CmuArcticDataset, {}) if key == "cmu_arctic" else (LibriSpeechDataset, {})
    if key == "librispeech":
        for sub in SUBSETS[1:-1]:
            ds = object.__new__(cls)
            ds.subset = sub
            ctx.check(ds.attribution_info() == attribution_for(key, subset=sub), f"the dataset's own record for {sub} is {ds.attribution_info()}")
            ctx.count()
    else:
        ctx.check(object.__new__(cls).attribution_info() == attribution_for(key), "the dataset's own record differs")
    for bad in ("", "libri", "librispeech ", "cmu-arctic", "cmu arctic", "vctk", "librispeech2", "cmu_arctic_x", "cmu"):
        for sub in (None, "dev-clean"):
            ctx.count()
            ctx.check(raises(lambda: attribution_for(bad, subset=sub), ValueError), f"dataset {bad!r} accepted")
            ctx.note(("refused", bad))


def _missing(case, ctx):
    full = dict(dataset="My set", source="http://x/y", license_name="CC0", license_url="http://l", required_attribution="Me & you", subset="part")
    for n in range(6):
        for gone in itertools.combinations(REQUIRED, n):
            for opt in (True, False):
                d = {k: v for k, v in full.items() if k not in gone and (opt or k != "subset")}
                obj = rep(d, case["form"])
                if obj is None:
                    continue
                for existing in (False, True):
                    out = ctx.dir() / "a" / "b"
                    if existing:
                        out.mkdir(parents=True)
                        (out / "ATTRIBUTION.txt").write_text("older notice")
                    what = f"{case['form']} without {gone}"
                    if gone:
                        exc = raises(lambda: save_attribution_file(out_dir=out, dataset_attribution=obj, modifications=["x"]), ValueError)
                        ctx.count()
                        ctx.check(exc is not None, f"{what}: accepted")
                        if exc is not None:
                            ctx.check(all(g in str(exc) for g in gone), f"{what}: refused with {exc}")
                        files = {p.name: p.read_text() for p in out.iterdir()} if out.exists() else {}
                        ctx.check(files == ({"ATTRIBUTION.txt": "older notice"} if existing else {}), f"{what}: left {files}")
                        ctx.note((case["form"], gone, opt, existing))
                    else:
                        p = save_attribution_file(out_dir=out, dataset_attribution=obj, modifications=["x"])
                        judge(ctx, what, p.read_text(encoding="utf-8"), d, ["x"])
                        ctx.check([q.name for q in out.iterdir()] == ["ATTRIBUTION.txt"], f"{what}: wrote {list(out.iterdir())}")


def _notice(case, ctx):
    base = dict(dataset="Ünïcode set", source="http://x/y?z=1&q", license_name="A: B - C", license_url="http://l#frag", required_attribution="Me, you, and 彼")
    lists = [list(c) for n in range(4) for c in itertools.product(NOTES, repeat=n)]
    lg = logging.getLogger("mc.p31")
    lg.propagate = False
    lg.setLevel(logging.DEBUG)
    for i, notes in enumerate(lists):
        sub = (None, "dev-clean")[i % 2]
        d = dict(base, subset=sub) if (sub is not None or i % 3 == 0) else base
        name = (None, "NOTICE.md", "a b.txt")[i % 3]
        out = ctx.dir() / "deep"
        h = Log()
        lg.addHandler(h)
        keep = list(notes)
        obj = rep(d, case["form"])
        p = save_attribution_file(out_dir=out, dataset_attribution=obj, modifications=notes, logger=lg if i % 4 else None, **({"attribution_name": name} if name else {}))
        lg.removeHandler(h)
        what = f"{case['form']} notes {notes}"
        ctx.check(p == out / (name or "ATTRIBUTION.txt") and [q for q in out.iterdir()] == [p], f"{what}: returned {p}, wrote {list(out.iterdir())}")
        ctx.check(h.out == ([f"saved: {p}"] if i % 4 else []), f"{what}: logged {h.out}")
        ctx.check(notes == keep and (not isinstance(obj, dict) or dict(obj) == d), f"{what}: changed its inputs")
        judge(ctx, what, p.read_bytes().decode("utf-8"), d, notes)
        before = p.read_bytes()
        save_attribution_file(out_dir=out, dataset_attribution=obj, modifications=notes, **({"attribution_name": name} if name else {}))
        ctx.check(p.read_bytes() == before, f"{what}: a second notice differs from the first")
        save_attribution_file(out_dir=out, dataset_attribution=obj, modifications=["only this"], **({"attribution_name": name} if name else {}))
        judge(ctx, what + ": replaced", p.read_text(encoding="utf-8"), d, ["only this"])


def _long(case, ctx):
    """Long notes, many notes and long fields."""
    for size in (79, 80, 81, 120, 255, 256, 1000, 5000, 70000):
        word = "word, " * (size // 6) + "x" * (size % 6)
        solid = "y" * size
        for field in (None, *REQUIRED, "subset"):
            d = dict(dataset="My set", source="http://x/y", license_name="CC0", license_url="http://l", required_attribution="Me & you", subset="part")
            if field:
                d[field] = word
            notes = [word, solid] if field is None else ["n"]
            p = save_attribution_file(out_dir=ctx.dir(), dataset_attribution=rep(d, case["form"]), modifications=notes)
            judge(ctx, f"{case['form']} {field or 'notes'} of {size} letters", p.read_text(encoding="utf-8"), d, notes)
    for count in (9, 10, 33, 100, 1000):
        notes = [f"note {i % (count // 2)}" for i in range(count)]
        d = dict(dataset="My set", source="http://x/y", license_name="CC0", license_url="http://l", required_attribution="Me & you")
        obj = rep(d, case["form"])
        p = save_attribution_file(out_dir=ctx.dir(), dataset_attribution=obj, modifications=notes)
        judge(ctx, f"{case['form']} {count} notes", p.read_text(encoding="utf-8"), d, notes)


def _other(case, ctx):
    for obj in (None, "text", 3, ["dataset"], [("dataset", "x")], object(), {"dataset"}, attribution_for):
        out = ctx.dir() / "o"
        exc = raises(lambda: save_attribution_file(out_dir=out, dataset_attribution=obj, modifications=[]), TypeError, ValueError)
        ctx.count()
        ctx.check(exc is not None, f"{obj!r} accepted as a record")
        ctx.check(not out.exists() or not list(out.iterdir()), f"{obj!r}: left {list(out.iterdir()) if out.exists() else ''}")
        ctx.note(repr(obj)[:30])


def _notes(case, ctx):
    st, dy = default_modification_notes(dynamic=False), default_modification_notes(dynamic=True)
    ctx.count(2)
    ctx.check(any("static" in n.lower() for n in st) and not any("dynamic" in n.lower() for n in st), f"static notes are {st}")
    ctx.check(any("dynamic" in n.lower() for n in dy) and not any("static" in n.lower() for n in dy), f"dynamic notes are {dy}")
    ctx.check(all(isinstance(n, str) and n.strip() for n in st + dy) and len(st) == len(dy) >= 2, f"notes {st} {dy}")
    st.append("mine")
    dy.clear()
    ctx.check(default_modification_notes(dynamic=False) == st[:-1] and len(default_modification_notes(dynamic=True)) >= 2, "changing a returned list changed the defaults")
    ctx.note(tuple(st))
    ctx.note("dynamic")
