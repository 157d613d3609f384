"""P20: source loading under every shuffle and speaker draw."""

import itertools
import random

import torch

from mc.core import explore, raises

from torchrir.datasets import load_dataset_sources
from torchrir.datasets import choose_speakers
from torchrir.datasets.base import BaseDataset

ID = "P20"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of the choice tree of a stubbed random generator (every shuffle, reshuffle and speaker draw) through the real loader, over all small utterance-length vectors"
NOTE = (
    "The generator's integer draws are choice points, so every permutation the shuffles can produce is executed; the returned signals are rebuilt from the reported utterance ids alone."
)
RULE = (
    "all speaker counts 1..3, sentence counts 1..3, length vectors over {0,1,2,3,7}, targets around every partial sum and the wrap-around points, all draws (thorough: two and three speakers with three "
    "sentences each); all refusals at each position; seeded repeats. Non-trivial: distinct (setting, reported speakers and utterances)."
)
ASSUMPTIONS = ["the duration is at least one sample", "draws go through random.Random's integer methods"]


class Rng(random.Random):
    def __init__(self, ch):
        super().__init__(0)
        self.ch = ch

    def __new__(cls, *_):
        return super().__new__(cls)

    def _randbelow(self, n):
        return self.ch.pick(n) if n > 1 else 0


class S:
    def __init__(self, u):
        self.utterance_id, self.text = u, u


class Data(BaseDataset):
    """speakers: {name: [(utterance, length, rate)]}; the sentence list object is shared between calls."""

    def __init__(self, world, speaker):
        self.world, self.speaker = world, speaker

    def list_speakers(self):
        return self.world.names

    def available_sentences(self):
        return self.world.lists[self.speaker or self.world.names[0]]

    def load_audio(self, u):
        self.world.loads += 1
        if self.world.loads > 500:
            raise AssertionError("keeps loading")
        return self.world.audio[u]


class World:
    def __init__(self, spec, rate=10):
        self.names = list(spec)
        self.lists, self.audio, self.loads = {}, {}, 0
        k = 1
        for spk, lens in spec.items():
            self.lists[spk] = []
            for j, n in enumerate(lens):
                n, r = n if isinstance(n, tuple) else (n, rate)
                u = f"{spk}/{j}"
                self.lists[spk].append(S(u))
                self.audio[u] = (torch.arange(k, k + n, dtype=torch.float32), r)
                k += n + 5

    def factory(self, speaker):
        return Data(self, speaker)


def cases(tier):
    lens = (1, 2, 3, 7)
    for n in (1, 2, 3):
        for v in itertools.combinations_with_replacement(lens, n):
            yield dict(k="one", lens=v)
    for v in ((0, 1), (0, 3), (0, 0, 2), (0, 1, 2), (2, 0, 3)):
        yield dict(k="one", lens=v)
    pairs = [((0, 2), (3, 0)), ((1,), (3,)), ((2, 3), (1,)), ((2, 3), (7, 1)), ((1, 1), (1, 2)), ((3,), (2, 1, 1))]
    if tier != "quick":
        pairs += [((1, 2, 3), (2, 2, 1)), ((3, 1, 1), (7, 7))]
    for v in pairs:
        yield dict(k="two", lens=v)
    yield dict(k="speakers")
    yield dict(k="fraction")
    yield dict(k="refuse")
    yield dict(k="seed")
    for lens in ((1,), (2,), (1, 1), (1, 2, 1)):
        yield dict(k="short", lens=lens)
    for n in (12, 40, 130):
        yield dict(k="large", n=n)


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def judge(ctx, what, w, out, num, target, rate=10):
    sig, fs, info = out
    ctx.count()
    if not ctx.check(fs == rate and tuple(sig.shape) == (num, target) and len(info) == num, f"{what}: shape {tuple(sig.shape)} rate {fs}, expected ({num}, {target}) at {rate}"):
        return False
    spk = [s for s, _ in info]
    if not ctx.check(len(set(spk)) == num and set(spk) <= set(w.names), f"{what}: speakers {spk}"):
        return False
    for row, (s, ids) in zip(sig, info):
        own = {x.utterance_id for x in w.lists[s]}
        ids = list(ids)
        if not ctx.check(set(ids) <= own, lambda: f"{what}: speaker {s} is given {ids}"):
            return False
        full = torch.cat([w.audio[u][0] for u in ids]) if ids else torch.zeros(0)
        last = w.audio[ids[-1]][0].numel() if ids else 0
        if not ctx.check(len(full) >= target and torch.equal(full[:target], row), lambda: f"{what}: signal of {s} is not {ids} cut to {target}: {row.tolist()}"):
            return False
        if not ctx.check(len(full) - last < target, lambda: f"{what}: {ids} is longer than needed for {target} samples"):
            return False
        n = len(own)
        for b in range(0, len(ids), n):
            blk = ids[b : b + n]
            if not ctx.check(len(set(blk)) == len(blk), lambda: f"{what}: {ids} repeats a sentence before all were used"):
                return False
    ctx.note((what, str(info)[:3000]))
    return True


def _tree(ctx, what, spec, num, target, limit=None):
    w = World(spec)
    lists = {k: list(v) for k, v in w.lists.items()}
    names = list(w.names)

    def one(ch):
        w.loads = 0
        return load_dataset_sources(dataset_factory=w.factory, num_sources=num, duration_s=target / 10 + 0.04, rng=Rng(ch))

    for ch, out in explore(one, limit):
        ctx.transitions += max(1, len(ch.trace))
        ctx.traces += 1
        ctx.state((what, tuple(ch.trace)))
        if not judge(ctx, what, w, out, num, target):
            return False
        if not ctx.check(w.lists == lists and w.names == names, f"{what}: the dataset's own lists were reordered"):
            return False
    return True


def _one(case, ctx):
    lens = case["lens"]
    tot = sum(lens)
    for target in range(1, 2 * tot + 2):
        if len(lens) == 3 and target > tot + min(lens) and ctx.tier == "quick" and target not in (2 * tot, 2 * tot + 1):
            continue
        if not _tree(ctx, f"lengths {lens} target {target}", {"a": lens}, 1, target, limit=20000):
            return


def _two(case, ctx):
    a, b = case["lens"]
    for target in range(1, max(sum(a), sum(b)) + 2):
        for num in (1, 2):
            if not _tree(ctx, f"lengths {a} {b} target {target} sources {num}", {"a": a, "b": b}, num, target, limit=60000):
                return


def _speakers(case, ctx):
    """Every draw of distinct speakers."""
    for total in range(1, 6):
        spec = {f"s{i}": (2,) for i in range(total)}
        for num in range(1, total + 1):
            w = World(spec)
            seen = set()
            for ch, got in explore(lambda ch: choose_speakers(w.factory(None), num, Rng(ch))):
                ctx.traces += 1
                ctx.transitions += max(1, len(ch.trace))
                ctx.state(("spk", total, num, tuple(ch.trace)))
                seen.add(tuple(got))
                if not ctx.check(len(got) == num == len(set(got)) and set(got) <= set(w.names), f"{num} of {total} speakers: {got}"):
                    return
                ctx.note(("spk", total, tuple(got)))
            ctx.check(w.names == list(spec), "speaker list reordered")
            if total <= 4 and not _tree(ctx, f"{num} of {total} speakers", spec, num, 3):
                return


def _short(case, ctx):
    """Utterances of a sample or two, repeated thousands of times."""
    for target in (400, 999, 1000, 1001, 4097, 20000):
        for num in (1, 2):
            w = World({"a": case["lens"], "b": case["lens"][::-1]})
            w.loads = -(10**6)
            out = load_dataset_sources(dataset_factory=w.factory, num_sources=num, duration_s=target / 10 + 0.04, rng=random.Random(target))
            if not judge(ctx, f"lengths {case['lens']} target {target} sources {num}", w, out, num, target):
                return


def _large(case, ctx):
    """Many speakers, many sentences, several rounds of the list."""
    n = case["n"]
    for num, sent, rounds in ((1, n, 2.5), (min(n, 33), 7, 3.3), (n, 2, 0.7), (3, n, 1.0)):
        lens = [(5 + 11 * j) % 23 + 1 for j in range(sent)]
        spec = {f"s{i:03d}": tuple(lens[i % sent :] + lens[: i % sent]) for i in range(n)}
        for seed in range(2):
            w = World(spec)
            w.loads = -(10**6)
            target = max(1, int(sum(lens) * rounds))
            out = load_dataset_sources(dataset_factory=w.factory, num_sources=num, duration_s=target / 10 + 0.04, rng=random.Random(seed))
            if not judge(ctx, f"{num} of {n} speakers, {sent} sentences, {rounds} rounds", w, out, num, target):
                return


def _fraction(case, ctx):
    """Target length int(duration * rate) at awkward durations and rates."""
    for rate, dur in itertools.product((10, 100, 8000, 16000, 44100), (0.001, 0.1, 0.29, 0.3, 0.57, 0.7, 1.1, 1.15, 2.3)):
        target = int(dur * rate)
        if target == 0:
            continue
        for lens in ((target,), (target - 1, 2) if target > 1 else (1, 2), (target + 1,), (max(1, target // 3), max(1, target // 2))):
            w = World({"a": lens, "b": lens[::-1]}, rate)
            for seed in range(3):
                w.loads = 0
                out = load_dataset_sources(dataset_factory=w.factory, num_sources=2, duration_s=dur, rng=random.Random(seed))
                if not judge(ctx, f"duration {dur} rate {rate} lengths {lens}", w, out, 2, target, rate):
                    return


def _refuse(case, ctx):
    def load(w, num=2, dur=0.8):
        return raises(lambda: load_dataset_sources(dataset_factory=w.factory, num_sources=num, duration_s=dur, rng=random.Random(1)), ValueError, RuntimeError)

    for total in range(0, 4):
        for num in range(total + 1, total + 3):
            w = World({f"s{i}": (9,) for i in range(total)})
            ctx.check(load(w, num), f"{num} sources from {total} speakers accepted")
            ctx.check(raises(lambda: choose_speakers(w.factory(None), num, random.Random(0)), ValueError, RuntimeError), f"choose_speakers: {num} of {total}")
            ctx.note(("too many", total, num))
            ctx.count()
    for pos, k in itertools.product(range(3), (1, 2, 3)):
        spec = {f"s{i}": (() if i == pos else (9,)) for i in range(3)}
        ctx.check(load(World(spec), 3), f"speaker {pos} without sentences accepted")
        spec = {f"s{i}": (((9, 20),) if i == pos else (9,)) for i in range(3)}
        ctx.check(load(World(spec), 3), f"speaker {pos} with another sample rate accepted")
        spec = {f"s{i}": ((0,) * k if i == pos else (9,)) for i in range(3)}
        ctx.check(load(World(spec), 3), f"speaker {pos} with only {k} empty utterances accepted")
        ctx.note(("pos", pos, k))
    for pos in range(3):
        spec = {"a": tuple((2, 20 if i == pos else 10) for i in range(3))}
        ctx.check(load(World(spec), 1, 0.6), f"utterance {pos} with another sample rate accepted")


def _seed(case, ctx):
    """Only the dataset and the generator's seed matter, whatever ran before."""
    spec = {"a": (3, 1, 2), "b": (2, 2, 5), "c": (1, 4), "d": (7,)}
    shared = World(spec)
    base = {}
    for seed in range(40):
        w = World(spec)
        base[seed] = load_dataset_sources(dataset_factory=w.factory, num_sources=3, duration_s=1.7, rng=random.Random(seed))
    for rnd in range(3):
        for seed in range(40) if rnd != 1 else reversed(range(40)):
            random.seed(rnd)
            torch.manual_seed(rnd)
            shared.loads = 0
            got = load_dataset_sources(dataset_factory=shared.factory, num_sources=3, duration_s=1.7, rng=random.Random(seed))
            ctx.count()
            if not ctx.check(torch.equal(got[0], base[seed][0]) and got[1:] == base[seed][1:], f"seed {seed} gives another result after earlier calls"):
                return
            ctx.note((seed, str(got[2])))
    ctx.check(len({str(v[2]) for v in base.values()}) > 5, "different seeds never differ")
    for lens in ((3, 1, 2), (2, 2), (4, 4, 4, 4)):
        w = World({"a": lens})
        got = set()
        for seed in range(40):
            w.loads = 0
            got.add(str(load_dataset_sources(dataset_factory=w.factory, num_sources=1, duration_s=0.1 * sum(lens), rng=random.Random(seed))[2]))
        ctx.check(len(got) > 1, f"the sentences of a speaker ({lens}) come in one order whatever the seed")

