"""C04: residuals and iteration counts."""
import numpy as np
from .. import kin

BOUNDS = ("all sequences of 2-3 iterations from all combinations of edited probabilities, residuals, counts, with edits of epsilon in between; all sequences of 4-6 iterations over 4-7 probabilities per element with resets in 7 patterns, 7 epsilons x 5 "
          "depression constants, layouts and dtypes; joint actions of batches up to 4; runs of up to 600 steps, and up to 140000 in a compiled loop; "
          "operation histories")
ASSUMPTIONS = ["iteration counts stay below what the core dtype represents exactly"]


def tasks(tier):
    d = 5 if tier == "thorough" else 4
    return (kin.big(tier) + kin.duo(tier) + kin.alias(tier) + kin.wide(tier, accs=("one", "vec", "nested")) + kin.joint(tier) + kin.long(tier) + kin.edited(tier)
            + kin.hist(tier, ("cacheall", "iter", "reset", "edit1"), d,
                       [dict(batch=(2,), acc="one"), dict(batch=(3,), acc="vec", eps=0.25, mode="jit"),
                        dict(batch=(2, 2), acc="vec", eps=0.5, dep=0.5)]))


class Monitor:
    """Agreement with the model, and the two identities from ghost variables."""

    def start(self, R, cfg, c, m):
        self.mass = np.zeros(cfg.batch)          # weights of all iterations but the halting one
        self.count = np.zeros(cfg.batch)

    def step(self, R, x):
        from .. import lib
        R.checks += 1
        d = lib.differs(x.post, lib.model_obs(x.mpost), ("r", "n"))
        if d:
            R.violation(x.case(), "after %s: %s" % (x.op[0], d))
        if getattr(self, "mass", None) is None or x.case()["family"] != "wide":
            return
        if x.op[0] == "iter":
            run_ = ~x.mpre.halted
            newly = x.mpost.halted & run_
            w = x.post["p"] - x.pre["p"]
            self.mass = np.where(run_ & ~newly, self.mass + w, self.mass)
            self.count = self.count + run_
        elif x.op[0] == "reset":
            z = x.mpre.halted
            self.mass, self.count = np.where(z, 0, self.mass), np.where(z, 0, self.count)
        h = x.mpost.halted
        R.checks += 2
        bad = np.where(h, np.abs(self.mass + x.post["r"] - 1), np.abs(x.post["r"]))
        if bad.size and bad.max() > 1e-6:
            R.violation(x.case(), "earlier mass plus residual is not one (or residual of a running element not zero): %s"
                        % lib.short(x.post["r"][bad > 1e-6][:5]))
        if not np.array_equal(self.count, x.post["n"]):
            R.violation(x.case(), "iteration counts %s, expected %s" % (
                lib.short(x.post["n"][self.count != x.post["n"]][:5]),
                lib.short(self.count[self.count != x.post["n"]][:5])))


def run(task, R):
    from .. import families
    families.dispatch(task, R, Monitor())
