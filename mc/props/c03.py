"""C03: halted elements are frozen."""
import numpy as np
from .. import kin

BOUNDS = ("all sequences of 2-3 iterations from all combinations of edited probabilities, residuals, counts, with edits of epsilon in between; all sequences of 4-6 iterations per element, so all continuations after a halt in any step, with finite, NaN "
          "and infinite updates for the halted elements; 12 accumulator sets, layouts and dtypes; joint actions; "
          "histories including edited probabilities and epsilons")
ASSUMPTIONS = ["compared bit for bit against the state before the iteration"]
ALL = ("vec", "one", "mat", "hi", "two", "tuple", "dict", "nested", "empties", "five", "record", "kinds")


def tasks(tier):
    d = 5 if tier == "thorough" else 4
    t = kin.wide(tier, accs=ALL, special=True) + kin.long(tier, "tuple") + kin.edited(tier, ALL) + kin.oddstart(tier, ("vec", "tuple", "nested", "hi"))
    t += kin.duo(tier) + kin.alias(tier) + kin.joint(tier, accs=("tuple", "hi")) + kin.big(tier, special="nan") + kin.big(tier, special="inf")[::3]
    t += kin.hist(tier, ("cacheall", "iter", "reset", "edit1"), d,
                  [dict(batch=(2,), acc="two"), dict(batch=(3,), acc="nested", mode="jit", eps=0.25),
                   dict(batch=(), acc="one"), dict(batch=(2, 2), acc="vec", eps=0.5)])
    return t


class Monitor:
    def step(self, R, x):
        from .. import lib
        from ..model import left, tleaves
        if x.op[0] != "iter":
            return
        h = x.mpre.halted
        if not h.any():
            return
        R.note("steps_with_halted_elements")
        for f in ("p", "r", "n"):
            R.checks += 1
            if not np.array_equal(x.pre[f][h], x.post[f][h]):
                R.violation(x.case(), "%s of halted elements changed from %s to %s" % (
                    f, lib.short(x.pre[f][h]), lib.short(x.post[f][h])))
        for nm in x.cfg.names:
            for a, b in zip(tleaves(x.pre["acc"][nm]), tleaves(x.post["acc"][nm])):
                R.checks += 1
                if a.shape != b.shape or not np.array_equal(a[h], b[h], equal_nan=True):
                    R.violation(x.case(), "accumulator %r of halted elements changed from %s to %s" % (
                        nm, lib.short(a[h]), lib.short(b[h]) if a.shape == b.shape else b.shape))
        if x.rep is not None:
            R.checks += 1
            if not np.asarray(x.rep["halted"])[h].all():
                R.violation(x.case(), "a halted element is no longer reported halted after an iteration")


def run(task, R):
    from .. import families
    families.dispatch(task, R, Monitor())
