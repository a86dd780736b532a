"""Task lists shared by the properties of the ACT kinetics."""
from . import lib_const as K

EPS = (1e-4, 1e-3, 0.1, 0.25, 0.5, 0.75, 0.99)
DEP = (1.0, 0.5, 0.25, 0.0, 2.0)


def wide(tier, accs=("one",), deep=True, resets=True, dtypes=True, special=False):
    t = []
    thorough = tier == "thorough"
    d5 = 6 if thorough else 5
    for eps in EPS:
        for dep in DEP:
            t.append(dict(family="wide", alphabet=K.H5, depth=d5, eps=eps, dep=dep, acc=accs[0], cost=2))
    # clamping, odd values
    for eps, dep in ((1e-4, 1.0), (0.25, 1.0), (0.5, 0.5), (0.1, 0.25)):
        t.append(dict(family="wide", alphabet=K.H7, depth=5 if thorough else 4, eps=eps, dep=dep, acc=accs[0]))
    # fine probabilities
    for eps in (1e-4, 0.25, 0.5):
        t.append(dict(family="wide", alphabet=(0.0625, 0.4375, 0.5, 0.875), depth=6 if thorough else 5, eps=eps,
                      acc=accs[0], mode="jit"))
    if resets:
        pats = [(0,), (1,), (2,), (0, 1), (1, 3), (0, 2, 3), (0, 1, 2, 3)]
        for i, p in enumerate(pats):
            t.append(dict(family="wide", alphabet=K.H5, depth=5, eps=(1e-4, 0.25, 0.5)[i % 3], acc=accs[i % len(accs)],
                          resets=p, mode=("eager", "jit")[i % 2], cost=2))
        t.append(dict(family="wide", alphabet=K.H5, depth=4, rounds=3, resets=(1, 3), eps=1e-4, acc=accs[0]))
        t.append(dict(family="wide", alphabet=K.H5, depth=4, rounds=3, resets=(3,), eps=0.5, dep=0.5, acc=accs[0]))
    # layouts, accumulator sets and modes
    for i, a in enumerate(accs):
        t.append(dict(family="wide", alphabet=K.H5, depth=4, acc=a, mode="eager", cost=2))
        t.append(dict(family="wide", alphabet=K.H5, depth=3, acc=a, layout=("two", "three", "col", "row")[i % 4],
                      mode=("jit", "eager")[i % 2], eps=(1e-4, 0.25)[i % 2], resets=(1,) if resets else (), cost=2))
    for lay in ("two", "three", "col", "row"):
        t.append(dict(family="wide", alphabet=K.H5, depth=4, acc=accs[0], layout=lay, eps=0.25))
    if dtypes:
        for eps in (1e-4, 0.25, 1e-8):
            t.append(dict(family="wide", alphabet=K.H5, depth=4, dt="b2", eps=eps, acc=accs[0],
                          mode="jit" if eps == 0.25 else "eager", resets=(2,) if resets else ()))
            # float16 only eagerly: this XLA crashes when it compiles some float16 programs
            t.append(dict(family="wide", alphabet=K.H5, depth=4, dt="f2", eps=eps, acc=accs[0],
                          resets=(2,) if resets else (), may_crash_xla=True))
        t.append(dict(family="wide", alphabet=K.H5, depth=4, dt="f4", eps=1e-9, acc=accs[0]))
        for acc in ("f2", "b2", "mixdt"):
            t.append(dict(family="wide", alphabet=K.H5, depth=3, acc=acc, dt="f4", may_crash_xla=acc != "b2"))
        t.append(dict(family="wide", alphabet=K.H5, depth=3, acc="mixdt", dt="b2", may_crash_xla=True))
        for acc, dt in (("f8", "f8"), ("f8", "f4"), ("vec", "f8")):
            t.append(dict(family="wide", alphabet=K.H5, depth=3, acc=acc, dt=dt, x64=True))
    for kind in ("int", "array"):
        for dep in (0.0, 1.0):
            t.append(dict(family="wide", alphabet=K.H5, depth=3, dep=dep, dep_kind=kind, acc=accs[0]))
    if special:
        for sp in ("nan", "inf", "ninf"):
            for i, a in enumerate(accs):
                t.append(dict(family="wide", alphabet=K.H5, depth=4, acc=a, special=sp, eps=(1e-4, 0.25)[i % 2],
                              mode=("eager", "jit")[i % 2], resets=(2,) if resets and i % 2 else ()))
    return t


def joint(tier, accs=("one", "vec")):
    thorough = tier == "thorough"
    H3, H4, H5 = (0.0, 0.5, 1.0), (0.0, 0.25, 0.75, 1.0), K.H5
    t = [dict(family="joint", batch=(), alphabet=H5, depth=6 if thorough else 5, acc=accs[0], cost=5),
         dict(family="joint", batch=(1,), alphabet=H5, depth=6 if thorough else 5, acc=accs[-1], eps=0.25, cost=5),
         dict(family="joint", batch=(2,), alphabet=H4, depth=4 if thorough else 3, acc=accs[0], cost=9, cap=6000),
         dict(family="joint", batch=(2,), alphabet=H3, depth=5 if thorough else 4, acc=accs[-1], eps=0.5, dep=0.5, cost=9,
              cap=6000),
         dict(family="joint", batch=(3,), alphabet=H3, depth=4 if thorough else 3, acc=accs[0], cost=9, cap=4000),
         dict(family="joint", batch=(2, 2), alphabet=H3, depth=3 if thorough else 2, acc=accs[-1], cost=9, cap=3000),
         dict(family="joint", batch=(1, 3), alphabet=H3, depth=3 if thorough else 2, acc=accs[-1], eps=0.25, cost=9,
              cap=3000),
         dict(family="joint", batch=(4,), alphabet=(0.5, 1.0), depth=4 if thorough else 3, acc=accs[-1], cost=9, cap=4000)]
    return t


def edited(tier, accs=("one", "tuple", "vec")):
    th = tier == "thorough"
    t = []
    P, R_, N = (0.0, 0.25, 0.5, 0.75, 0.875, 1.0), (0.0, 0.5, 1.0), (0.0, 3.0)
    k = 0
    for eps in (1e-4, 0.25, 0.5, 0.2):
        for eps_at in ((), ((0, 0.5),), ((1, 0.5),), ((1, 0.125), (2, 0.75))):
            for resets in ((), (0,), (1,)):
                if not th and (k % 2 or not eps_at and resets == (1,)):
                    k += 1
                    continue
                t.append(dict(family="edited", starts=[list(P), list(R_), list(N)], alphabet=(0.0, 0.25, 0.5, 1.0) if th else (0.0, 0.25, 1.0),
                              depth=3 if th else 2 + (len(eps_at) > 1), eps=eps, eps_at=[list(x) for x in eps_at], resets=list(resets),
                              dep=(1.0, 0.5)[k // 2 % 2], acc=accs[k // 2 % len(accs)], mode=("eager", "jit")[k // 4 % 2], cost=2))
                k += 1
    return t


def oddstart(tier, accs=("vec", "tuple", "one")):
    """Defaults, and edited defaults, that are partly not finite."""
    t = []
    for i, a in enumerate(accs):
        for j, sp in enumerate(("nan", "inf", "ninf")):
            if (i + j) % 2 and tier != "thorough" and len(accs) > 3:
                continue
            t.append(dict(family="wide", alphabet=(0.0, 0.25, 0.75, 1.0), depth=3, rounds=2, resets=(2, 4), acc=a, default_special=sp,
                          layout=("flat", "two", "col")[(i + j) % 3] if i else "flat", mode=("eager", "jit")[(i + j) // 2 % 2]))
        t.append(dict(family="edited", starts=[[0.0, 0.5, 0.875, 1.0], [0.0, 0.5], [0.0, 3.0]], alphabet=(0.0, 0.25, 1.0), depth=2, acc=a, resets=[0, 1],
                      default_special=("nan", "inf", "ninf")[i % 3], mode=("jit", "eager")[i % 2]))
    return t


def orders(tier):
    return [dict(family="orders", acc=a, batch=b, eps=e, mode=mode, cost=4) for a, b, e, mode in (
        ("two", (2,), 1e-4, "eager"), ("swap", (3,), 0.25, "eager"), ("five", (2,), 0.5, "eager"), ("two", (2, 2), 0.25, "jit")) + (
            (("names", (3,), 1e-4, "eager"), ("many", (2,), 0.25, "eager")) if tier == "thorough" else ())]


def alias(tier, ops=("cacheall", "iter1", "reset", "edit1"), depth=3):
    """One and the same array at several places."""
    cfgs = [dict(batch=(2,), acc="swap", alias="updates"), dict(batch=(2,), acc="list", alias="updates", eps=0.5), dict(batch=(2,), acc="nested", alias="defaults", mode="jit"),
            dict(batch=(), acc="five", alias="updates"), dict(batch=(1, 2), acc="swap", alias="both", dep=0.5)]
    return hist(tier, ops, depth + (tier == "thorough"), cfgs)


def arrays(tier, depth=4):
    """Halting probabilities and updates handed over as numpy arrays."""
    cfgs = [dict(batch=(2,), acc="tuple"), dict(batch=(), acc="two", eps=0.25), dict(batch=(2, 1), acc="two", dep=0.5)]
    return hist(tier, ("cacheall", "iter1", "reset"), depth + (tier == "thorough"), cfgs, given="numpy")


def duo(tier):
    """Pairs of unrelated controllers: alike in all but a little."""
    t = []
    pairs = [("eager", dict(batch=(2,), acc="two", eps=1e-4), dict(batch=(2,), acc="two", eps=0.25, dep=0.5, default_salt=2)),
             ("eager", dict(batch=(2,), acc="vec", eps=0.5), dict(batch=(3,), acc="vec", eps=1e-4, default_salt=4)),
             ("jit", dict(batch=(2,), acc="tuple", eps=0.25), dict(batch=(2,), acc="tuple", eps=0.5, default_salt=3))]
    if tier == "thorough":
        pairs += [("eager", dict(batch=(1, 2), acc="nested"), dict(batch=(2, 1), acc="nested", eps=0.25)), ("jit", dict(batch=(), acc="five"), dict(batch=(1,), acc="five", dep=0.5)),
                  ("eager", dict(batch=(2,), acc="vec", dt="b2"), dict(batch=(2,), acc="vec", dt="f4"))]
    for k, (mode, a, b) in enumerate(pairs):
        for s in range(4) if tier == "thorough" else (k,):
            t.append(dict(family="duo", mode=mode, one=a, other=b, of=4, shard=s, cost=6))
    return t


def big(tier, **kw):
    """Accumulators of high rank, many, wide and deep ones; batches of high rank."""
    t = []
    for i, a in enumerate(("tall", "many", "wide", "deep")):
        t.append(dict(family="wide", alphabet=(0.0, 0.25, 0.75, 1.0), depth=3, rounds=2, resets=(2, 4), acc=a, eps=(1e-4, 0.25)[i % 2], mode=("eager", "jit")[i % 2], cost=4, **kw))
        t.append(dict(family="wide", alphabet=(0.25, 0.5, 1.0), depth=3, resets=(1,), acc=a, layout="six", eps=(0.5, 1e-4)[i % 2], dep=(1.0, 0.5)[i // 2],
                      mode=("jit", "eager")[i % 2], cost=4, **kw))
        t.append(dict(family="joint", batch=((2,), (), (1, 2), (2,))[i], acc=a, alphabet=(0.25, 1.0), depth=2, cap=300, cost=3))
    for i, b in enumerate(((2,), ())):
        t.append(dict(family="joint", batch=b, acc="crowd", alphabet=(0.25, 0.75, 1.0), depth=2, cap=30, eps=(1e-4, 0.5)[i], cost=3))
        t.append(dict(family="joint", batch=b, acc="huge", alphabet=(0.25, 0.75, 1.0), depth=3, cap=100, eps=(1e-4, 0.5)[i], cost=3))
    for i, a in enumerate(("one", "vec", "hi", "tuple")):
        t.append(dict(family="wide", alphabet=(0.0, 0.25, 0.75, 1.0), depth=4, resets=(1, 3), acc=a, layout="six", eps=(1e-4, 0.25)[i % 2], mode=("eager", "jit")[i % 2], **kw))
    return t


def long(tier, acc="vec"):
    t = [dict(family="long", steps=80, unit=1 / 64, acc=acc, mode="jit", cost=3),
         dict(family="long", steps=70, unit=1 / 32, acc=acc, eps=0.25, mode="jit", cost=3),
         dict(family="long", steps=48, unit=1 / 64, acc=acc, mode="jit", reset_every=11, cost=3),
         dict(family="long", steps=40, unit=1 / 16, dep=0.5, acc=acc, mode="eager", cost=3)]
    t.append(dict(family="marathon", steps=140000 if tier == "thorough" else 70000, unit=2.0 ** -17, acc=acc, cost=6))
    t.append(dict(family="marathon", steps=1100, unit=2.0 ** -11, acc=acc, eps=0.25, dep=0.5, cost=3))
    if tier == "thorough":
        t += [dict(family="long", steps=600, unit=1 / 512, acc=acc, mode="jit", cost=9),
              dict(family="long", steps=200, unit=1 / 128, acc=acc, mode="jit", dt="b2", cost=5)]
    return t


def hist(tier, ops, depth, configs, **kw):
    out = []
    for c in configs:
        d = dict(family="hist", ops=list(ops), depth=depth, cost=8)
        d.update(c)
        d.update(kw)
        out.append(d)
    return out
