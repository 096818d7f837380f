"""Large graphs: long paths, cycles, stars, combs, trees and ladders, a thousand vertices and more, named in shuffled order."""
import random

SHAPES = ["path", "path", "cycle", "star", "comb", "tree", "ladder", "two paths"]
BLOCK = 50
RATE = 0.006        # share of runs on a large graph


def gen(rng, lo, hi, shapes=SHAPES):
    if rng.random() < 0.5:
        lo = max(lo, hi - 4)
    return {"shape": rng.choice(shapes), "blocks": [0] * rng.randint(lo, hi), "seed": rng.randrange(1 << 30)}


def names(spec):
    n = BLOCK * max(1, len(spec["blocks"]))
    out = [f"n{i:05d}" for i in range(n)]
    if spec["seed"] & 1:
        random.Random(spec["seed"]).shuffle(out)
    return out


def pairs(spec):
    n = BLOCK * max(1, len(spec["blocks"]))
    shape = spec["shape"]
    if shape == "star":
        out = [(0, i) for i in range(1, n)]
    elif shape == "comb":
        out = [(i, i + 2) for i in range(0, n - 2, 2)] + [(i, i + 1) for i in range(0, n - 1, 2)]
    elif shape == "tree":
        out = [((i - 1) // 2, i) for i in range(1, n)]
    elif shape == "ladder":
        out = [(i, i + 2) for i in range(n - 2)] + [(i, i + 1) for i in range(0, n - 1, 2)]
    else:
        out = [(i, i + 1) for i in range(n - 1)]
        if shape == "cycle":
            out.append((0, n - 1))
        if shape == "two paths":
            out.remove((n // 2, n // 2 + 1))
    if spec["seed"] & 2:
        random.Random(spec["seed"] + 1).shuffle(out)
    return out
