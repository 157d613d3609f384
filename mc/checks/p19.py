"""P19: dataset listings and items for every small folder content and enumeration order."""

import io
import itertools
import os
import shutil
from contextlib import contextmanager
from unittest import mock

import numpy as np
import soundfile as sf
import torch

from mc.core import explore, raises

from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset
from torchrir.datasets import cmu_arctic_speakers

ID = "P19"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of transcript lines, present-audio subsets and directory enumeration orders (as environment choices) on the real dataset classes"
NOTE = (
    "The directory listing calls are answered by a controlled environment: all permutations for folders of up to three entries and four orders for larger ones; transcripts and "
    "present audio range over all small combinations; listings, indexing and audio are compared with what was written."
)
RULE = (
    "CMU: all sequences of up to 3 (thorough 4) of 10 line kinds x all subsets of present audio (absent audio lying in other folders); LibriSpeech: speakers x chapters x lines x present subsets x all enumeration orders x "
    "speaker restriction; all invalid speakers, subsets and missing folders. Non-trivial: distinct (content, listing)."
)
ASSUMPTIONS = ["transcripts list utterances in identifier order; identifiers are unique", "the enumeration order of a folder may change between calls, not within one"]

LINES = [
    ("plain", "Author of the danger trail, Philip Steels, etc."),
    ("quote", 'He said "no" twice.'),
    ("endquote", 'She said "yes"'),
    ("paren", "Not (at all) here"),
    ("space", "two  spaces   inside"),
    ("pad", "  padded "),
    ("uni", "Ünïcode déjà-vu"),
    ("empty", ""),
    ("num", "1908 arctic_a0001 wav"),
    ("close", 'a ") b'),
]
MORE = [
    ("openquote", '"Yes," he said, "no."'),
    ("allquote", '"Yes"'),
    ("apos", "'TIS THE END O'"),
    ("dash", "- a dash - in - front -"),
    ("dots", "...and so on..."),
    ("parens", "(whispered)"),
    ("hash", "# not a comment; {braces} [brackets] <tags> \\ slash / %s $1"),
    ("id", "arctic_a0001 84-121-0000"),
]


def cases(tier):
    top = 3 if tier == "quick" else 4
    for n in range(1, top + 1):
        for first in range(len(LINES)):
            yield dict(k="cmu", n=n, first=first)
    yield dict(k="cmuform")
    for mask in range(64):
        yield dict(k="libri", mask=mask)
    for i in range(len(LINES + MORE)):
        yield dict(k="libritext", line=i)
    yield dict(k="order")
    for kind in range(5):
        yield dict(k="large", kind=kind)
    yield dict(k="refuse")


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


_wavs = {}


def audio(i, fmt):
    """(file bytes, samples): recognisable by content and length."""
    if (i, fmt) not in _wavs:
        x = (np.arange(5 + i) * 64 + 1000 * (i + 1)).astype(np.int16)
        buf = io.BytesIO()
        sf.write(buf, x, 16000 if fmt == "WAV" else 8000, format=fmt, subtype="PCM_16")
        _wavs[i, fmt] = (buf.getvalue(), x.astype(np.float64) / 32768)
    return _wavs[i, fmt]


def same(ctx, what, got, fs, i, fmt):
    want = audio(i, fmt)[1]
    ok = got.dtype == torch.float32 and tuple(got.shape) == want.shape and np.max(np.abs(got.double().numpy() - want)) < 1e-6 and fs == (16000 if fmt == "WAV" else 8000)
    return ctx.check(ok, f"{what}: audio of another entry or altered (shape {tuple(got.shape)}, rate {fs})")


def judge_items(ctx, what, ds, want, fmt, speaker):
    """want: list of (utterance id, text, audio index, speaker)."""
    got = [(s.utterance_id, s.text) for s in ds.available_sentences()]
    exp = [(u, t) for u, t, *_ in want]
    ctx.count()
    if not ctx.check(got == exp, f"{what}: lists {got}, expected {exp}"):
        return False
    if not ctx.check(len(ds) == len(want), f"{what}: length {len(ds)}, expected {len(want)}"):
        return False
    items = list(ds)
    for j, (u, t, i, spk) in enumerate(want):
        for name, it in (("index", ds[j]), ("negative index", ds[j - len(want)]), ("iteration", items[j])):
            ok = (it.utterance_id, it.text, it.speaker) == (u, t, speaker(spk))
            if not ctx.check(ok, f"{what}: {name} {j} returns {(it.utterance_id, it.text, it.speaker)}, expected {(u, t, speaker(spk))}"):
                return False
            if not same(ctx, f"{what}: {name} {j}", it.audio, it.sample_rate, i, fmt):
                return False
        x, fs = ds.load_audio(u)
        if not same(ctx, f"{what}: load_audio {u}", x, fs, i, fmt):
            return False
    ctx.check(len(items) == len(want), f"{what}: iterating gives {len(items)} items of {len(want)}")
    ctx.check(raises(lambda: ds[len(want)], IndexError) and raises(lambda: ds[-len(want) - 1], IndexError), f"{what}: out-of-range index accepted")
    ctx.note((what.split(":")[0], tuple(exp)))
    return True


def write_cmu(root, texts, present, fmt_line=None, speaker="bdl", extra=()):
    base = root / "ARCTIC" / f"cmu_us_{speaker}_arctic"
    (base / "wav").mkdir(parents=True)
    (base / "etc").mkdir()
    ids = [f"arctic_a{j:04d}" for j in range(1, len(texts) + 1)]
    body = "".join((fmt_line or '( {u} "{t}" )\n').replace("{u}", u).replace("{t}", t) for u, t in zip(ids, texts))
    (base / "etc" / "txt.done.data").write_bytes(body.encode())
    for j, u in enumerate(ids):
        if present[j]:
            (base / "wav" / f"{u}.wav").write_bytes(audio(j, "WAV")[0])
        else:
            (base / f"{u}.wav").write_bytes(audio(18, "WAV")[0])
            (base / "etc" / f"{u}.wav").write_bytes(audio(18, "WAV")[0])
    for name in extra:
        (base / "wav" / name).write_bytes(b"not audio")
    return [(u, t, j, speaker) for j, (u, t) in enumerate(zip(ids, texts)) if present[j]]


def _cmu(case, ctx):
    n = case["n"]
    pool = range(len(LINES)) if ctx.tier != "quick" or n < 3 else (0, 1, 5, 7, 9)
    for rest in itertools.product(pool, repeat=n - 1):
        texts = [LINES[i][1] for i in (case["first"], *rest)]
        for present in itertools.product((False, True), repeat=n):
            d = ctx.dir()
            want = write_cmu(d, texts, present, extra=("arctic_b0001.wav", "arctic_a0001.wav.bak", "arctic_a0002.txt", "arctic_a0001.old.wav", "arctic_a0002.1.wav", "arctic_a0001 copy.wav", "arctic_a0002_x.wav", "xarctic_a0001.wav"))
            (d / "ARCTIC" / "cmu_us_bdl_arctic" / "wav" / "arctic_b0002.wav").write_bytes(audio(9, "WAV")[0])
            ctx.traces += 1
            ok = judge_items(ctx, f"CMU lines {texts} present {present}", CmuArcticDataset(d, speaker="bdl"), want, "WAV", lambda s: s)
            shutil.rmtree(d)
            if not ok:
                return


def _cmuform(case, ctx):
    """Line layouts and other speakers' folders."""
    forms = ['( {u} "{t}" )\n', '({u} "{t}")\n', '(  {u}   "{t}"  )\n', '  ( {u} "{t}" )  \n', '( {u} "{t}" )\r\n', '\n( {u} "{t}" )\n\n', '( {u} "{t}" )\n \n']
    for form, (kind, text) in itertools.product(forms, LINES + MORE):
        d = ctx.dir()
        want = write_cmu(d, [text, "second line"], [True, True], form)
        for other in ("slt", "awb"):
            write_cmu(d, ["other"] * 3, [True] * 3, speaker=other)
        judge_items(ctx, f"CMU form {form!r} text {kind}", CmuArcticDataset(d, speaker="bdl"), want, "WAV", lambda s: s)
        ds = CmuArcticDataset(d, speaker="slt")
        ctx.check(len(ds) == 3 and ds[0].speaker == "slt" and ds[0].text == "other", "another speaker's folder is mixed in")
        ctx.check(ds.list_speakers() == cmu_arctic_speakers() and len(set(ds.list_speakers())) == 18, "speaker list changed")
        shutil.rmtree(d)


TREE = [("103", "1240", 2), ("103", "9", 1), ("84", "121123", 2), ("1034", "1", 1)]


def write_libri(root, mask, subset="dev-clean", tree=TREE, texts=None):
    base = root / "LibriSpeech" / subset
    want, lost, bit = [], [], 0
    for spk, chap, n in tree:
        c = base / spk / chap
        c.mkdir(parents=True)
        rows = []
        for j in range(n):
            u = f"{spk}-{chap}-{j:04d}"
            t = texts[j] if texts else f"TEXT {u.upper()} BODY"
            rows.append(f"{u} {t}\n")
            if mask >> bit & 1:
                (c / f"{u}.flac").write_bytes(audio(bit, "FLAC")[0])
                want.append((u, t.strip(), bit, spk))
            else:
                # a sound file of that name elsewhere is not this entry's audio
                lost.append(f"{u}.flac")
            bit += 1
        (c / f"{spk}-{chap}.trans.txt").write_text("".join(rows), encoding="utf-8")
        (c / f"{spk}-{chap}-9999.flac").write_bytes(audio(19, "FLAC")[0])
    for name in lost:
        home = tuple(name.split("-")[:2])
        for spk, chap, _ in tree:
            if (spk, chap) != home:
                (base / spk / chap / name).write_bytes(audio(18, "FLAC")[0])
            (base / spk / name).write_bytes(audio(18, "FLAC")[0])
    (base / "NOTES.TXT").write_text("not a speaker")
    return want


def _norm(ds):
    return [s.utterance_id for s in ds.available_sentences()]


def _libri(case, ctx):
    d = ctx.dir()
    want = write_libri(d, case["mask"])
    write_libri(d, 63, subset="test-other", tree=[("103", "1240", 2), ("77", "1", 1)], texts=["OTHER", "OTHER"])
    for spk in (None, "103", "84", "1034"):
        exp = [w for w in want if spk in (None, w[3])]
        ds = LibriSpeechDataset(d, subset="dev-clean", speaker=spk)
        order = _norm(ds)
        if not ctx.check(sorted(order) == sorted(w[0] for w in exp), f"LibriSpeech mask {case['mask']:06b} speaker {spk}: lists {order}, expected {[w[0] for w in exp]}"):
            return
        exp.sort(key=lambda w: order.index(w[0]))
        judge_items(ctx, f"LibriSpeech mask {case['mask']:06b} speaker {spk}", ds, exp, "FLAC", lambda s: s)
        for s in ds.available_sentences():
            ctx.check(s.utterance_id.split("-")[:2] == [s.speaker_id, s.chapter_id], f"{s} names another speaker or chapter")
        ctx.check(ds.list_speakers() == ([spk] if spk else ["103", "1034", "84"]), f"speakers {ds.list_speakers()}")
    shutil.rmtree(d)


def _libritext(case, ctx):
    text = (LINES + MORE)[case["line"]][1]
    for mask in range(8):
        d = ctx.dir()
        want = write_libri(d, mask, tree=[("5", "6", 3)], texts=["FIRST", text, "LAST  ONE"])
        judge_items(ctx, f"LibriSpeech text {text!r} mask {mask}", LibriSpeechDataset(d, subset="dev-clean"), want, "FLAC", lambda s: s)
        shutil.rmtree(d)


class _Scan:
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    def close(self):
        pass


@contextmanager
def enumeration(ch, root):
    """Directory listings below root come back in the order the environment chooses (once per folder)."""
    scandir, listdir, chosen = os.scandir, os.listdir, {}

    def perm(path, names):
        path = os.path.realpath(os.fspath(path))
        if not path.startswith(str(root)):
            return names
        names = sorted(names)
        if path not in chosen:
            n = len(names)
            if n <= 1:
                orders = [tuple(range(n))]
            elif n <= 3:
                orders = list(itertools.permutations(range(n)))
            else:
                r = tuple(range(n))
                orders = [r, r[::-1], r[n // 2 :] + r[: n // 2], r[1::2] + r[::2]]
            chosen[path] = orders[ch.pick(len(orders))] if len(orders) > 1 else orders[0]
        return [names[i] for i in chosen[path]] if len(chosen[path]) == len(names) else names

    def my_scandir(path="."):
        if isinstance(path, int):
            return scandir(path)
        with scandir(path) as it:
            entries = {e.name: e for e in it}
        return _Scan([entries[n] for n in perm(path, list(entries))])

    def my_listdir(path="."):
        return listdir(path) if isinstance(path, int) else perm(path, listdir(path))

    with mock.patch.object(os, "scandir", my_scandir), mock.patch.object(os, "listdir", my_listdir):
        yield chosen


def _order(case, ctx):
    """One order for every enumeration order of the file system."""
    trees = [[("103", "1", 1), ("84", "2", 1)], [("103", "1", 1), ("103", "9", 1), ("84", "7", 1)], [("9", "1", 2), ("10", "1", 1)], [("103", "1", 1), ("84", "2", 1), ("1034", "3", 1)]]
    for t, tree in enumerate(trees):
        d = ctx.dir()
        write_libri(d, 63, tree=tree)
        if len({s for s, _, _ in tree}) == 3:
            (d / "LibriSpeech" / "dev-clean" / "NOTES.TXT").unlink()
        for spk in (None, tree[0][0]):
            first = None

            def one(ch):
                with enumeration(ch, os.path.realpath(d)):
                    ds = LibriSpeechDataset(d, subset="dev-clean", speaker=spk)
                    return _norm(ds), [x.utterance_id for x in ds], ds.list_speakers()

            for ch, out in explore(one, limit=4000):
                ctx.transitions += max(1, len(ch.trace))
                ctx.traces += 1
                ctx.count()
                ctx.state((t, spk, tuple(ch.trace)))
                first = first or out
                if not ctx.check(out == first, f"tree {tree} speaker {spk}: listing depends on the enumeration order: {first} / {out}"):
                    return
            ctx.note((t, spk, str(first)))
        shutil.rmtree(d)
    d = ctx.dir()
    want = write_cmu(d, ["a", "b", "c", "d"], [True, False, True, True])

    def one(ch):
        with enumeration(ch, os.path.realpath(d)):
            return _norm(CmuArcticDataset(d, speaker="bdl"))

    for ch, out in explore(one, limit=4000):
        ctx.traces += 1
        ctx.transitions += max(1, len(ch.trace))
        ctx.state(("cmu", tuple(ch.trace)))
        if not ctx.check(out == [w[0] for w in want], f"CMU listing {out} depends on the enumeration order"):
            return


def _large(case, ctx):
    """The sizes of the published corpora: both series, hundreds of lines, dozens of speakers and chapters, long texts, late gaps."""
    k = case["kind"]
    for n in (99, 257, 593, 1132) if k < 2 else ():
        d = ctx.dir()
        base = d / "ARCTIC" / "cmu_us_bdl_arctic"
        (base / "wav").mkdir(parents=True)
        (base / "etc").mkdir()
        half = (n + 1) // 2
        ids = [f"arctic_a{j:04d}" for j in range(1, half + 1)] + [f"arctic_b{j:04d}" for j in range(1, n - half + 1)]
        gone = {0, 9, half - 1, half, n - 1} if k == 0 else set(range(0, n, 2))
        want = []
        for j, u in enumerate(ids):
            if j not in gone:
                (base / "wav" / f"{u}.wav").write_bytes(audio(j % 18, "WAV")[0])
                want.append((u, f"line {j} of {n}", j % 18, "bdl"))
        (base / "etc" / "txt.done.data").write_text("".join(f'( {u} "line {j} of {n}" )\n' for j, u in enumerate(ids)))
        judge_items(ctx, f"CMU {n} lines, {len(gone)} without audio", CmuArcticDataset(d, speaker="bdl"), want, "WAV", lambda s: s)
        shutil.rmtree(d)
    if k == 2:
        for size in (100, 1000, 5000, 70000):
            text = ("word %d of a very long line, " % size) * (size // 20)
            d = ctx.dir()
            want = write_cmu(d, ["short", text.strip(), "short again"], [True] * 3)
            judge_items(ctx, f"CMU text of {len(text)} characters", CmuArcticDataset(d, speaker="bdl"), want, "WAV", lambda s: s)
            shutil.rmtree(d)
            d = ctx.dir()
            want = write_libri(d, 7, tree=[("5", "6", 3)], texts=["FIRST", text.strip(), "LAST"])
            judge_items(ctx, f"LibriSpeech text of {len(text)} characters", LibriSpeechDataset(d, subset="dev-clean"), want, "FLAC", lambda s: s)
            shutil.rmtree(d)
    trees = {3: [(str(s), str(1000 * s + c), 2) for s in range(95, 135) for c in (1, 9, 10)], 4: [("7", str(c), 1 + c % 3) for c in range(1, 60)] + [("70", "1", 1200)]}
    for mask_of in (lambda total: (1 << total) - 1, lambda total: sum(1 << j for j in range(total) if j % 7)) if k in trees else ():
        tree = trees[k]
        total = sum(n for _, _, n in tree)
        mask = mask_of(total)
        d = ctx.dir()
        want, bit = [], 0
        for spk, chap, n in tree:
            c = d / "LibriSpeech" / "train-clean-100" / spk / chap
            c.mkdir(parents=True)
            rows = []
            for j in range(n):
                u = f"{spk}-{chap}-{j:04d}"
                rows.append(f"{u} TEXT {u}\n")
                if mask >> bit & 1:
                    (c / f"{u}.flac").write_bytes(audio(bit % 18, "FLAC")[0])
                    want.append((u, f"TEXT {u}", bit % 18, spk))
                bit += 1
            (c / f"{spk}-{chap}.trans.txt").write_text("".join(rows))
        for spk in (None, tree[0][0], tree[-1][0]):
            exp = [w for w in want if spk in (None, w[3])]
            ds = LibriSpeechDataset(d, subset="train-clean-100", speaker=spk)
            order = {u: i for i, u in enumerate(_norm(ds))}
            what = f"LibriSpeech of {len(tree)} chapters, {total} lines, speaker {spk}"
            if not ctx.check(sorted(order) == sorted(w[0] for w in exp), f"{what}: {len(order)} listed of {len(exp)}, e.g. {sorted(set(order) ^ {w[0] for w in exp})[:4]}"):
                return
            exp.sort(key=lambda w: order[w[0]])
            judge_items(ctx, what, ds, exp, "FLAC", lambda s: s)
            ctx.check(ds.list_speakers() == ([spk] if spk else sorted({s for s, _, _ in tree})), f"{what}: speakers {ds.list_speakers()}")
        shutil.rmtree(d)


def _refuse(case, ctx):
    d = ctx.dir()
    write_cmu(d, ["a"], [True])
    write_libri(d, 63)
    empty = ctx.dir()
    documented = "aew ahw aup awb axb bdl clb eey fem gka jmk ksp ljm lnh rms rxr slp slt".split()
    ctx.check(sorted(cmu_arctic_speakers()) == documented, f"the accepted speakers are {cmu_arctic_speakers()}")
    for spk in ("", "BDL", "bd", "bdl ", "xxx", "cmu_us_bdl_arctic", "..", None):
        for root in (d, empty):
            ctx.check(raises(lambda: CmuArcticDataset(root, speaker=spk), ValueError), f"CMU speaker {spk!r} accepted")
            ctx.count()
            ctx.note(("spk", spk))
    for spk in cmu_arctic_speakers():
        ctx.check(raises(lambda: CmuArcticDataset(empty, speaker=spk), FileNotFoundError), f"CMU {spk} without data accepted")
        if spk != "bdl":
            ctx.check(raises(lambda: CmuArcticDataset(d, speaker=spk), FileNotFoundError), f"CMU {spk} without data accepted")
    for sub in ("", "dev", "DEV-CLEAN", "train-clean", "dev-clean/103", "train-clean-500", ".."):
        ctx.check(raises(lambda: LibriSpeechDataset(d, subset=sub), ValueError), f"subset {sub!r} accepted")
        ctx.note(("sub", sub))
    for sub in ("dev-other", "test-clean", "test-other", "train-clean-100", "train-clean-360", "train-other-500"):
        ctx.check(raises(lambda: LibriSpeechDataset(d, subset=sub), FileNotFoundError), f"missing subset {sub} accepted")
    ctx.check(raises(lambda: LibriSpeechDataset(empty, subset="dev-clean"), FileNotFoundError), "empty root accepted")
    for spk in ("1", "10", "10345", "840", "x"):
        ctx.check(raises(lambda: LibriSpeechDataset(d, subset="dev-clean", speaker=spk), FileNotFoundError), f"missing speaker {spk!r} accepted")
        ctx.note(("libri speaker", spk))
    ds = CmuArcticDataset(d, speaker="bdl")
    for bad in (0.0, "0", None, [0], slice(0, 1)):
        ctx.check(raises(lambda: ds[bad], TypeError), f"index {bad!r} accepted")
