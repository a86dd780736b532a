"""C07: reset of halted elements."""
import numpy as np
from .. import kin

BOUNDS = ("all sequences of 2-3 iterations from all combinations of edited probabilities, residuals, counts, with edits of epsilon in between; all sequences of 3-6 iterations per element with resets in every pattern of positions (repeated resets "
          "included), 17 accumulator sets, layouts and dtypes, also with accumulators, defaults and edited defaults that are NaN or infinite when "
          "reset; joint actions and resets of batches up to 4; histories with edited defaults and probabilities")
ASSUMPTIONS = ["compared bit for bit; negative and positive zero are the same value"]
ALL = ("vec", "one", "mat", "hi", "two", "tuple", "dict", "nested", "empties", "five", "hollow", "list", "swap", "unit", "names", "record", "kinds")


def tasks(tier):
    th = tier == "thorough"
    d = 5 if th else 4
    t = kin.wide(tier, accs=ALL) + kin.joint(tier, accs=("tuple", "hi"))
    # every pattern of reset positions
    T = 5 if th else 4
    for mask in range(1, 2 ** T):
        pat = [i for i in range(T) if mask >> i & 1]
        t.append(dict(family="wide", alphabet=(0.0, 0.25, 0.75, 1.0), depth=T, resets=pat, acc=ALL[mask % len(ALL)],
                      eps=(1e-4, 0.25, 0.5)[mask % 3], dep=(1.0, 0.5)[mask % 2], mode=("eager", "jit")[mask // 2 % 2]))
    for i, a in enumerate(ALL):
        for j, v in enumerate(("nan", "inf", "ninf")):
            t.append(dict(family="wide", alphabet=(0.25, 0.5, 1.0), depth=3, rounds=2, resets=(2, 5), poison=v,
                          poison_step=(i + j) % 3, acc=a, mode=("eager", "jit")[j % 2]))
    t += kin.hist(tier, ("cacheall", "iter", "reset", "edit"), d - 1,
                  [dict(batch=(2,), acc="two"), dict(batch=(3,), acc="nested", mode="jit", eps=0.25)])
    t += kin.hist(tier, ("cacheall", "iter1", "iter", "reset", "edit1", "copy"), d,
                  [dict(batch=(), acc="one"), dict(batch=(2, 2), acc="vec", eps=0.5)])
    t += kin.duo(tier) + kin.alias(tier) + kin.long(tier) + kin.edited(tier, ALL) + kin.oddstart(tier, ALL) + kin.big(tier) + kin.big(tier, default_special="nan")[::3] + kin.orders(tier)
    return t


class Monitor:
    def step(self, R, x):
        from .. import lib
        from ..model import left, tleaves
        R.checks += 1
        d = lib.differs(x.post, lib.model_obs(x.mpost))
        if d:
            R.violation(x.case(), "after %s: %s" % (x.op[0], d))
        if x.op[0] != "reset":
            return
        h = x.mpre.halted
        R.note("resets")
        if h.any():
            R.note("resets_of_halted_elements")
        for f in ("p", "r", "n"):
            R.checks += 1
            if x.post[f][h].any():
                R.violation(x.case(), "%s of reset elements is %s" % (f, lib.short(x.post[f][h])))
            if not np.array_equal(x.post[f][~h], x.pre[f][~h]):
                R.violation(x.case(), "reset changed %s of unhalted elements" % f)
        for nm in x.cfg.names:
            for a, b, df, dd in zip(*[tleaves(o[k][nm]) for o, k in (
                    (x.pre, "acc"), (x.post, "acc"), (x.pre, "dft"), (x.post, "dft"))]):
                R.checks += 1
                if not np.array_equal(b[h], df[h], equal_nan=True):
                    R.violation(x.case(), "accumulator %r of reset elements is %s, default %s" % (
                        nm, lib.short(b[h]), lib.short(df[h])))
                if not np.array_equal(b[~h], a[~h], equal_nan=True):
                    R.violation(x.case(), "reset changed accumulator %r of unhalted elements from %s to %s" % (
                        nm, lib.short(a[~h]), lib.short(b[~h])))
                if not np.array_equal(df, dd, equal_nan=True):
                    R.violation(x.case(), "reset changed the defaults of %r" % nm)
        if x.cpost is not None:
            R.checks += 1
            R.trans()
            again = lib.observe(lib.reset(x.cpost, x.cfg.mode))
            d = lib.same_obs(again, x.post)
            if d:
                R.violation(x.case(), "a second reset changes something: %s" % d)

    def refused(self, R, x):
        if x.want is None:
            R.violation(x.case(), "%s raised %s: %s" % (x.op[0], type(x.exc).__name__, str(x.exc)[:400]))


def run(task, R):
    from .. import families
    families.dispatch(task, R, Monitor())
