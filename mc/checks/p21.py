"""P21: collating every small batch."""

import dataclasses
import itertools
import math

import torch

from mc.core import raises

from torchrir.datasets import DatasetItem, collate_dataset_items

ID = "P21"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of batches (lengths, orders, optional fields, pad values, rate mismatches) on the real collate function"
NOTE = "All batches of one to four items over the length alphabet in every order; each row, length and label is compared with its own item."
RULE = (
    "all length vectors of 1..4 items over {0,1,2,5} (thorough {0,1,2,3,5,8}) x pad values x metadata option x containers; all optional-field patterns; dtypes; a rate mismatch "
    "at every position; batches of up to 300 items and 70001 samples. Non-trivial: distinct (batch, output)."
)
ASSUMPTIONS = ["items of one batch share dtype and are mono (1-D)"]


@dataclasses.dataclass(frozen=True)
class Tagged(DatasetItem):
    metadata: object = None


def cases(tier):
    alphabet = (0, 1, 2, 5) if tier == "quick" else (0, 1, 2, 3, 5, 8)
    for n in (1, 2, 3, 4):
        for first in alphabet:
            yield dict(k="len", n=n, first=first, alphabet=alphabet)
    yield dict(k="fields")
    yield dict(k="rates")
    for n in (9, 33, 70, 130, 300):
        yield dict(k="big", n=n)


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def item(i, n, dt=torch.float32, **kw):
    d = dict(audio=(torch.arange(n, dtype=torch.float64) + 10 * (i + 1)).to(dt), sample_rate=16000, utterance_id=f"u{i}", text=f"text {i}", speaker=f"s{i}")
    return DatasetItem(**{**d, **kw})


def judge(ctx, what, items, got, pad, meta):
    ctx.count()
    n = len(items)
    longest = max(x.audio.numel() for x in items)
    ok = tuple(got.audio.shape) == (n, longest) and got.audio.dtype == items[0].audio.dtype and got.sample_rate == items[0].sample_rate
    ok = ok and got.lengths.dtype == torch.long and got.lengths.tolist() == [x.audio.numel() for x in items]
    if not ctx.check(ok, f"{what}: shape {tuple(got.audio.shape)} lengths {got.lengths} rate {got.sample_rate}"):
        return False
    for i, x in enumerate(items):
        m = x.audio.numel()
        rest = got.audio[i, m:]
        filled = torch.isnan(rest).all() if math.isnan(pad) else (rest == torch.tensor(pad, dtype=rest.dtype)).all()
        if not ctx.check(torch.equal(got.audio[i, :m], x.audio) and bool(filled), f"{what}: row {i} is {got.audio[i].tolist()}"):
            return False
    lab = [(x.utterance_id, x.text, x.speaker) for x in items]
    ctx.check(list(zip(got.utterance_ids, got.texts, got.speakers)) == lab and len(got.utterance_ids) == n, f"{what}: labels {got.utterance_ids} {got.texts} {got.speakers}")
    want = [getattr(x, "metadata", None) for x in items] if meta else None
    ctx.check(got.metadata == want, f"{what}: metadata {got.metadata}, expected {want}")
    ctx.note((what, str(got.audio.tolist()), str(got.metadata)))
    return True


def _len(case, ctx):
    for rest in itertools.product(case["alphabet"], repeat=case["n"] - 1):
        lens = (case["first"], *rest)
        for pad, meta, dt, form in itertools.product((None, 0.0, -1.0, 0.5, float("nan")), (False, True), (torch.float32, torch.float64), ("list", "gen", "tuple")):
            if form != "list" and (pad is not None or dt != torch.float32):
                continue
            items = [item(i, n, dt) for i, n in enumerate(lens)]
            keep = [x.audio.clone() for x in items]
            arg = items if form == "list" else tuple(items) if form == "tuple" else (x for x in items)
            kw = {} if pad is None else dict(pad_value=pad)
            got = collate_dataset_items(arg, keep_metadata=meta, **kw)
            if not judge(ctx, f"lengths {lens} pad {pad} metadata {meta} {dt}", items, got, pad or 0.0, meta):
                return
            got.audio.add_(1)
            if not ctx.check(all(torch.equal(a, x.audio) for a, x in zip(keep, items)) and len(items) == len(lens), f"lengths {lens}: items modified or shared with the batch"):
                return


def _fields(case, ctx):
    for pat in itertools.product(range(6), repeat=3):
        items = []
        for i, p in enumerate(pat):
            kw = [{}, dict(text=None), dict(speaker=None), dict(text=None, speaker=None), dict(text="", speaker=""), dict(utterance_id="same")][p]
            items.append(item(i, i + 1, **kw))
        for meta in (False, True):
            if not judge(ctx, f"fields {pat}", items, collate_dataset_items(items, keep_metadata=meta), 0.0, meta):
                return
    for pat in itertools.product((False, True), repeat=3):
        items = [Tagged(**{f.name: getattr(item(i, 2), f.name) for f in dataclasses.fields(DatasetItem)}, metadata={"i": i}) if p else item(i, 2) for i, p in enumerate(pat)]
        for meta in (False, True):
            judge(ctx, f"metadata {pat} {meta}", items, collate_dataset_items(items, keep_metadata=meta), 0.0, meta)
    for pat in itertools.product(({}, 0, "", [], False, (), "none", None), repeat=2):
        items = [Tagged(**{f.name: getattr(item(i, 2), f.name) for f in dataclasses.fields(DatasetItem)}, metadata=p) for i, p in enumerate(pat)]
        got = collate_dataset_items(items, keep_metadata=True)
        judge(ctx, f"metadata values {pat}", items, got, 0.0, True)
        ctx.check([type(m) for m in got.metadata] == [type(m) for m in pat], f"metadata values {pat}: passed on as {got.metadata}")
    for step in (1, 2):
        base = torch.arange(12, dtype=torch.float32)
        items = [item(0, 1, audio=base[::step]), item(1, 1, audio=base[1::3])]
        judge(ctx, f"strided {step}", items, collate_dataset_items(items), 0.0, False)


def _big(case, ctx):
    """Large batches: one long item at either end or in the middle, one differing rate anywhere."""
    n = case["n"]
    for at, long in itertools.product(sorted({0, n // 2, n - 1}), (1, 257, 2049, 70001)):
        items = [item(i, long if i == at else i % 5, text=None if i % 7 == 0 else f"text {i}") for i in range(n)]
        if not judge(ctx, f"{n} items, {long} samples at {at}", items, collate_dataset_items(items), 0.0, False):
            return
    for at in range(n):
        items = [item(i, 2, sample_rate=8000 if i == at else 16000) for i in range(n)]
        ctx.count()
        ctx.check(raises(lambda: collate_dataset_items(items), ValueError), f"{n} items, another rate at {at}: accepted")


def _rates(case, ctx):
    ctx.check(raises(lambda: collate_dataset_items([]), ValueError) and raises(lambda: collate_dataset_items(iter(())), ValueError), "empty batch accepted")
    for n in (1, 2, 3, 4):
        for pat in itertools.product((16000, 8000), repeat=n):
            items = [item(i, 2, sample_rate=r) for i, r in enumerate(pat)]
            ctx.count()
            ctx.note(pat)
            if len(set(pat)) == 1:
                judge(ctx, f"rates {pat}", items, collate_dataset_items(items), 0.0, False)
            else:
                ctx.check(raises(lambda: collate_dataset_items(items), ValueError), f"rates {pat} accepted")
