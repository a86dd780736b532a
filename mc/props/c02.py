"""C02: accumulators are default plus weighted updates."""
from .. import kin

BOUNDS = ("all sequences of 2-3 iterations from all combinations of edited probabilities, residuals, counts, with edits of epsilon in between; all sequences of 3-6 iterations over 4-7 halting probabilities for 19 accumulator sets (1-5 accumulators, "
          "leaves of rank 0-3 after the batch, nested and empty trees, colliding sizes), batch layouts of rank 0-3, "
          "7 epsilons x 5 depression constants, dtype mixes, eager and compiled; joint actions of batches up to 4 "
          "elements; operation histories to the stated depth; runs of up to 140000 steps; updates that are partly not finite for running elements; weights of 2^-30 with updates of 2^30, contents of 2^-60 and 2^100")
ASSUMPTIONS = ["integer updates and dyadic probabilities: the sums are exact in every dtype used"]
ALL = ("vec", "one", "mat", "hi", "unit", "two", "swap", "tuple", "list", "dict", "nested", "empties", "hollow",
       "five", "names", "record", "kinds")


def tasks(tier):
    d = 5 if tier == "thorough" else 4
    odd = [dict(family="wide", alphabet=(0.25, 0.5, 1.0), depth=3, acc=a, poison=("nan", "inf", "ninf")[(i + k) % 3], poison_step=k, poison_part=True, eps=(1e-4, 0.25)[i % 2],
                mode=("eager", "jit")[(i + k) % 2], resets=(2,) if i % 2 else ()) for i, a in enumerate(ALL) for k in range(2 if tier == "thorough" or i < 4 else 1)]
    t = kin.wide(tier, accs=ALL, special=False) + kin.long(tier, "tuple") + kin.edited(tier, ALL) + kin.oddstart(tier, ("vec", "tuple", "nested", "hi"))
    t += odd + kin.duo(tier) + kin.alias(tier) + kin.big(tier) + kin.orders(tier)
    for i, a in enumerate(("vec", "nested", "tuple", "five")):
        # tiny weights of huge updates; huge and tiny contents
        t.append(dict(family="wide", alphabet=(0.0, 2.0 ** -30, 2.0 ** -28, 2.0 ** -27), depth=4, acc=a, uscale=2.0 ** 30, eps=(1e-4, 0.25)[i % 2], mode=("eager", "jit")[i % 2]))
        for s in (2.0 ** -60, 2.0 ** 100):
            t.append(dict(family="wide", alphabet=(0.0, 0.25, 0.5, 1.0), depth=4, acc=a, uscale=s, dscale=s, eps=(0.25, 1e-4)[i % 2], mode=("jit", "eager")[i % 2], resets=(2,) if i % 2 else ()))
    t += kin.joint(tier, accs=("tuple", "hi"))
    for a in ALL:
        for batch in ((), (1,), (2,), (3,), (2, 2), (1, 2), (2, 3), (2, 1, 2)):
            t.append(dict(family="joint", batch=batch, acc=a, alphabet=(0.25, 1.0) if len(batch) < 2 else (0.5, 1.0),
                          depth=2 if tier == "quick" else 3, cap=300, variants=2 if len(batch) < 2 else 1, cost=3)
                     if (len(batch) != 2 or a in ("vec", "hi", "nested", "mat")) and (len(batch) != 3 or a in ("vec", "hi"))
                     and batch != (2, 3) else
                     dict(family="hist", batch=batch, acc=a, ops=["cacheall", "iter1", "iter"], depth=3, cost=3))
    t += kin.hist(tier, ("cache", "cache2", "iter", "reset", "edit1"), d,
                  [dict(batch=(2,), acc="two"), dict(batch=(3,), acc="swap", mode="jit", eps=0.25)])
    return t


class Monitor:
    def step(self, R, x):
        from .. import lib
        R.checks += 1
        got, want = x.post["acc"], x.mpost.acc
        if x.cfg.dscale != 1:       # very large or small values are compared at their own scale
            got, want = (lib.tmap_any(lambda v: v / x.cfg.dscale, t) for t in (got, want))
        d = lib.differs({"acc": got}, {"acc": want}, ("acc",))
        if d:
            R.violation(x.case(), "accumulators after %s: %s" % (x.op[0], d))
        if x.cpost is not None:
            for nm in x.cfg.names:
                R.checks += 1
                if not lib.tree_close(lib.tmap_any(lib.arr, x.cpost[nm]), x.mpost.acc[nm], 1e-6):
                    R.violation(x.case(), "item access gives another value for accumulator %r" % nm)


def run(task, R):
    from .. import families
    families.dispatch(task, R, Monitor())
