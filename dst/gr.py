"""Shared pieces for the graph properties."""
from . import lp  # noqa: F401  (installs the seams and imports pytimize from the tree under test)
from pytimize.graphs import DirectedGraph, UndirectedGraph  # noqa: F401

ODD = ["A", "B", "a", "b", "0", "1", "10", "2", "01", "-", "a-b", "a b", "\u00e9", "e\u0301", "Z", "~", "_", "x" * 60, "None", "True", "(a)", "a,b", ":", "\u65e5\u672c"]
LETTERS = "abcdefghijklmnopqrstuvwxyz"


def gen_names(rng, k):
    """k distinct names in sorted order: single letters, or longer names sharing letters and prefixes."""
    style = rng.random()
    if 0.2 < style < 0.3 and k <= len(ODD):
        return sorted(rng.sample(ODD, k))
    if style < 0.3:
        names = rng.sample(LETTERS, k)
    elif style < 0.55 and k <= 14:
        names = rng.sample(["s", "t", "st", "ts", "a", "ab", "ba", "abc", "b", "bc", "s1", "t1", "sink", "source"], k)
    else:
        names = set()
        while len(names) < k:
            names.add("".join(rng.choice("abst12") for _ in range(rng.randint(1, 4))))
        names = list(names)
    return sorted(names)


def rename(rng, names):
    """Another order-preserving set of names: same graph, different hash values and so other set orders."""
    return [LETTERS[i] + "".join(rng.choice(LETTERS) for _ in range(rng.randint(0, 5))) for i in range(len(names))]


def components(vertices, adj):
    left, out = set(vertices), []
    while left:
        seen, todo = set(), [min(left)]
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            todo.extend(adj[v] - seen)
        out.append(frozenset(seen))
        left -= seen
    return out
