"""C01: probability mass and halting."""
import numpy as np
from .. import kin

BOUNDS = ("all sequences of 2-3 iterations from all combinations of edited probabilities, residuals, counts, with edits of epsilon in between; all sequences of 4-6 iterations over 4-7 halting probabilities per element, with resets, for 7 epsilons x 5 "
          "depression constants, layouts and dtypes; all joint actions of batches up to 4 elements to depth 2-6; "
          "long runs to 600 steps, and to 140000 in a compiled loop; all histories of edits and protocol operations to the stated depth")
ASSUMPTIONS = ["halting probabilities are finite numbers of the core dtype",
               "dyadic probabilities make the arithmetic exact, so no comparison depends on rounding order"]


def tasks(tier):
    d = 4 if tier == "thorough" else 3
    return (kin.big(tier) + kin.duo(tier) + kin.alias(tier) + kin.wide(tier, accs=("one", "vec")) + kin.joint(tier) + kin.long(tier) + kin.edited(tier)
            + kin.hist(tier, ("cacheall", "iter", "reset", "edit1"), d + 1,
                       [dict(batch=(2,), acc="one"), dict(batch=(3,), acc="vec", eps=0.25, mode="jit"),
                        dict(batch=(), acc="one"), dict(batch=(2, 2), acc="vec", eps=0.5, dep=0.5)]))


class Monitor:
    def step(self, R, x):
        from .. import lib
        p, q, m = x.pre["p"], x.post["p"], x.mpost
        R.checks += 3
        d = lib.differs(x.post, lib.model_obs(m), ("p",))
        if d:
            R.violation(x.case(), "cumulative probability after %s: %s" % (x.op[0], d))
        if q.size and (q.min() < 0 or q.max() > 1 + 1e-6):
            R.violation(x.case(), "probability outside [0,1]: %s .. %s" % (q.min(), q.max()))
        if x.op[0] == "iter":
            if q.size and (q - p).min() < -1e-7:
                R.violation(x.case(), "probability decreased in an iteration by %g" % (q - p).min())
        rep = x.rep
        if rep is not None:
            R.checks += 3
            want = m.halted
            if not np.array_equal(np.asarray(rep["halted"]), want):
                R.violation(x.case(), "halted report %s, but probabilities %s against threshold %s" % (
                    lib.short(rep["halted"]), lib.short(m.p), 1 - m.eps))
            ax = x.axes
            wa, wo = (want.all(), want.any()) if ax is None else (want.all(axis=ax), want.any(axis=ax))
            if not np.array_equal(np.asarray(rep["all"]), wa) or not np.array_equal(np.asarray(rep["any"]), wo):
                R.violation(x.case(), "all/any halted reported %s/%s for %s" % (rep["all"], rep["any"], lib.short(want)))
            if x.cpost is not None and ax is None:
                self.asked_again(R, x, m, lib)
            if "thr" in rep and abs(rep["thr"] - (1 - m.eps)) > 1e-3 * (1 if x.cfg.dt in ("f2", "b2") else 1e-3):
                R.violation(x.case(), "halt threshold %s for epsilon %s" % (rep["thr"], m.eps))


    def asked_again(self, R, x, m, lib):
        """The same tensors under other thresholds, and other tensors under the same, each seen before and after."""
        around = [1 - v + d for v in (m.p.min(), m.p.max()) for d in (1 / 64, -1 / 64)] if m.p.size else []      # all and any change here
        for eps in [e for e in around if 0 < e < 1][::1 if m.p.size < 20 else 3] + [0.5, m.eps]:
            c, want = lib.TensorEditor.edit_controller(x.cpost, "silence").set_epsilon(eps).build(), m.but(eps=eps).halted
            for _ in range(2):
                R.checks += 1
                if not np.array_equal(lib.arr(c.halted_batches), want) or bool(lib.arr(c.is_completely_halted)) != want.all() or bool(lib.arr(c.is_any_halted)) != want.any():
                    R.violation(x.case(), "with epsilon edited to %s: halted %s, all %s, any %s; expected %s" % (
                        eps, lib.short(lib.arr(c.halted_batches)), c.is_completely_halted, c.is_any_halted, lib.short(want)))
                c = lib.ACT_Controller.load(c.save())


def run(task, R):
    from .. import families
    families.dispatch(task, R, Monitor())
