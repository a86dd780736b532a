"""
Enumeration of pytrees, and reference semantics over them.
A tree is 'L' (leaf), 'N' (None), ('t'|'l', children) or ('d', ((key, child), ...)).
No jax here.
"""
import functools
import itertools

KEYS = (("a",), ("b",), ("a", "b"), ("a", "c"), ("b", "c"), ("a", "b", "c"))


class No(Exception):
    """The reference refuses."""


@functools.lru_cache(None)
def exactly(n, none=False, keys=KEYS):
    """All trees of exactly n nodes."""
    if n == 1:
        return ("L", ("t", ()), ("l", ()), ("d", ())) + (("N",) if none else ())
    out = []
    for k in range(1, n):
        for sizes in compositions(n - 1, k):
            for ch in itertools.product(*[exactly(s, none, keys) for s in sizes]):
                out.append(("t", ch))
                out.append(("l", ch))
                for ks in keys:
                    if len(ks) == k:
                        out.append(("d", tuple(zip(ks, ch))))
    return tuple(out)


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(1, n - k + 2):
        for rest in compositions(n - i, k - 1):
            yield (i,) + rest


def upto(n, none=False, keys=KEYS):
    return [t for i in range(1, n + 1) for t in exactly(i, none, keys)]


def children(t):
    if t in ("L", "N"):
        return ()
    return tuple(c for _, c in t[1]) if t[0] == "d" else t[1]


def nleaves(t):
    return 1 if t == "L" else sum(nleaves(c) for c in children(t))


def depth(t):
    return 0 if t in ("L", "N") or not t[1] else 1 + max(depth(c) for c in children(t))


def build(t, mk, rev=False):
    """
    A python tree; mk() makes the leaves in depth first order.  rev: the
    insertion order of dictionaries is the reverse of the key order.
    """
    if t == "L":
        return mk()
    if t == "N":
        return None
    k, ch = t
    if k == "t":
        return tuple(build(c, mk, rev) for c in ch)
    if k == "l":
        return [build(c, mk, rev) for c in ch]
    d = {kk: build(c, mk, rev) for kk, c in ch}
    return {kk: d[kk] for kk in reversed(list(d))} if rev else d


def numbered(t, start=1, step=1, rev=False):
    i = itertools.count(start, step)
    return build(t, lambda: next(i), rev)


def ref_broadcast(src, sv, tgt):
    """The tree of the target's structure with the source leaves at or above each place; or No."""
    if src == "L":
        return build(tgt, lambda: sv)
    if tgt == "L":
        raise No()
    if src == "N" or tgt == "N":
        if src != tgt:
            raise No()
        return None
    if src[0] != tgt[0] or len(src[1]) != len(tgt[1]):
        raise No()
    if src[0] == "d":
        if [k for k, _ in src[1]] != [k for k, _ in tgt[1]]:
            raise No()
        return {k: ref_broadcast(a, sv[k], b) for (k, a), (_, b) in zip(src[1], tgt[1])}
    r = [ref_broadcast(a, v, b) for a, v, b in zip(src[1], sv, tgt[1])]
    return tuple(r) if src[0] == "t" else r


def leaves(v, t):
    """Depth first leaves (sorted keys) of the value v built from t."""
    if t == "L":
        return [v]
    if t == "N":
        return []
    if t[0] == "d":
        return [x for k, c in t[1] for x in leaves(v[k], c)]
    return [x for y, c in zip(v, t[1]) for x in leaves(y, c)]


def same(a, b, eq):
    """Same python structure (kinds, keys, lengths) and eq on the leaves."""
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k], eq) for k in b)
    if isinstance(b, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y, eq) for x, y in zip(a, b))
    if b is None:
        return a is None
    return not isinstance(a, (dict, tuple, list)) and a is not None and bool(eq(a, b))


def big():
    """Deep, wide and lopsided trees, far beyond the sizes that can be enumerated completely."""
    out = []
    wrap = [lambda t: ("t", (t,)), lambda t: ("l", ("L", t)), lambda t: ("d", (("a", t), ("b", "L"))), lambda t: ("t", ("L", t)),
            lambda t: ("l", (t, ("t", ()))), lambda t: ("d", (("k", t),))]
    for n in (5, 6, 7, 8, 9, 12, 17, 24, 33):
        for off in (0, 3):
            t = "L"
            for i in range(n):
                t = wrap[(i + off) % len(wrap)](t)
            out.append(t)
    pair = ("t", ("L", "L"))
    for n in (5, 6, 7, 8, 9, 10, 11, 13, 17, 33):
        out += [("t", ("L",) * n), ("l", ("L",) * n), ("d", tuple((k, "L") for k in sorted("k%d" % i for i in range(n)))),
                ("l", tuple("L" if i % 2 else pair for i in range(n))), ("d", tuple((k, pair) for k in sorted(str(i) for i in range(n))))]
    t = "L"
    for i in range(5):          # complete binary trees
        t = ("tl"[i % 2], (t, t)) if i != 2 else ("d", (("u", t), ("v", t)))
        if i > 1:
            out.append(t)
    return out


def pruned_once(t):
    """All trees obtained from t by replacing one subtree by a leaf."""
    yield "L"
    if t in ("L", "N"):
        return
    for i, c in enumerate(children(t)):
        if c != "L":
            for p in pruned_once(c):
                if t[0] == "d":
                    yield ("d", t[1][:i] + ((t[1][i][0], p),) + t[1][i + 1:])
                else:
                    yield (t[0], t[1][:i] + (p,) + t[1][i + 1:])
