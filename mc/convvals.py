"""Every signal and response over a small alphabet of sample values (zeros, equal, weak and strong ones)."""

import itertools

import torch

D = torch.float64
WEAK = -2e-6
# responses: absent, two different ones, a weak copy
RESP = [(0.0, 0.0), (1.0, 0.5), (-0.25, 2.0), (1e-6, 5e-7)]


def signals(S, n, alphabet=(0.0, 1.0, WEAK)):
    for v in itertools.product(alphabet, repeat=S * n):
        yield torch.tensor(v, dtype=D).view(S, n)


def responses(T, S, M, k=len(RESP)):
    for v in itertools.product(RESP[:k], repeat=T * S * M):
        yield torch.tensor(v, dtype=D).view(T, S, M, 2)


def dynamic_pairs(part, parts, deep=False):
    """(signal (S,n), responses (T,S,M,2)) for every assignment of values; `part` of `parts` of them."""
    shapes = [
        (signals(1, 4), list(responses(3, 1, 1))),
        (signals(2, 3, (0.0, 1.0)), list(responses(2, 2, 1, 3))),
        (signals(1, 3), list(responses(2, 1, 2, 3))),
        (signals(2, 2, (0.0, 1.0)), list(responses(2, 2, 2, 2))),
        (signals(1, 8, (0.0, 1.0)), list(responses(2, 1, 1))),
        (signals(1, 5), list(responses(1, 1, 1))),
    ]
    if deep:
        shapes += [(signals(1, 6), list(responses(4, 1, 1, 3))), (signals(2, 3), list(responses(2, 2, 1)))]
    i = 0
    for xs, hs in shapes:
        for x in xs:
            i += 1
            if i % parts == part:
                for h in hs:
                    yield x, h


def static_pairs(part, parts, deep=False):
    """(signal (S,n), responses (S,M,L)) likewise."""
    def resp(S, M, L, alphabet=(0.0, 1.0, 1e-6)):
        return [torch.tensor(v, dtype=D).view(S, M, L) for v in itertools.product(alphabet, repeat=S * M * L)]

    top = 5 if deep else 4
    shapes = [(signals(1, n), resp(1, 1, l)) for n in range(1, top + 1) for l in range(1, top)]
    shapes += [(signals(2, 2), resp(2, 1, 2)), (signals(2, 2), resp(2, 2, 1)), (signals(3, 1), resp(3, 2, 1, (0.0, 1.0)))]
    i = 0
    for xs, hs in shapes:
        for x in xs:
            i += 1
            if i % parts == part:
                for h in hs:
                    yield x, h
