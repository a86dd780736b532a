"""C19: execute_act is the bounded ACT loop."""
import itertools
import numpy as np

BOUNDS = ("every schedule of halting probabilities over 3-5 values for 2-5 steps for every element of batches up to 4, x every "
          "maximum 0-6 and the default, x depression constants, epsilons, 8 accumulator sets, 4 kinds of state, 4 kinds of "
          "starting controller (fresh, partly or all halted, with mass and iterations already there), checking on and off, positional and keyword arguments of the user: compiled and mapped against the model; layers that execute other layers in their iterations; several layers of a class in every order; all schedules of one element and "
          "selected ones of more, eagerly, against the plain python loop on the real code, with the executions counted")
ASSUMPTIONS = ["the layer's functions are pure; the plain loop is the one in the documentation of execute_act, bounded by max_iterations"]


def tasks(tier):
    th = tier == "thorough"
    t = []
    A5, A4, A3, A2 = (0.0, 0.25, 0.5, 0.75, 1.0), (0.0, 0.25, 0.5, 1.0), (0.25, 0.5, 1.0), (0.5, 1.0)
    accs = ("one", "vec", "two", "tuple", "nested", "swap", "five", "hi", "record", "kinds")
    kinds = ("tuple", "dict", "list", "nest")
    starts = ("fresh", "some", "mass", "all")
    space = [((), A5, 5), ((1,), A5, 4), ((2,), A4, 3), ((2,), A3, 4), ((3,), A3, 3 if th else 2), ((2, 2), A2, 3), ((1, 2), A3, 3), ((4,), A2, 4 if th else 3)]
    k = 0
    for si, (b, al, T) in enumerate(space):
        for j in range(6 if th else 3):
            t.append(dict(kind="space", batch=b, alphabet=al, T=T, acc=accs[(si + j) % 10], state=kinds[(si + j) % 4], start="fresh" if j == 0 else starts[(si + j) % 4],
                          eps=(1e-4, 0.25, 0.5)[(si + j) % 3], dep=(1.0, 0.5, 0.0, 2.0)[(si + 2 * j) % 4], check=bool((si + j) % 2), cost=6))
    for i, (b, al, T) in enumerate([((), A5, 2), ((), A3, 3), ((2,), A2, 2), ((1,), A4, 2), ((2, 1), A2, 2), ((3,), A2, 1)]):
        for how in ("eager", "jit"):
            t.append(dict(kind="runs", batch=b, alphabet=al, T=T, acc=accs[i % 10], state=kinds[i % 4], start=starts[i % 3], how=how,
                          eps=(1e-4, 0.25)[i % 2], dep=(1.0, 0.5)[i // 2 % 2], maxes=[0, 1, 2, 3, 6] if th else [0, 1, 3] if i % 2 else [1, 2, 5], cost=12 if how == "eager" else 5))
    t.append(dict(kind="args", cost=10))
    t.append(dict(kind="args", acc="two", batch=(2, 2), cost=10))
    t.append(dict(kind="wrap", cost=6))
    for how in ("eager", "jit"):
        t.append(dict(kind="nested", how=how, maxes=[0, 1, 2, 4] if th else [1, 3] if how == "eager" else [3], cost=14))
    t.append(dict(kind="several", cost=12))
    t.append(dict(kind="space", batch=(2,), alphabet=A4, T=2, acc="b2", state="tuple", start="fresh", dt="b2", eps=0.25, dep=1.0, check=True))
    t.append(dict(kind="space", batch=(2,), alphabet=A4, T=2, acc="f8", state="tuple", start="fresh", dt="f8", eps=1e-9, dep=0.5, check=True, x64=True))
    t.append(dict(kind="long", acc="vec", batch=(9,), maxes=[0, 1, 9, 10, 11, 40, 100, 10 ** 6], cost=4))
    return t


def model_run(L, cfg, H, maxes, dep, lead=()):
    """Model of all schedules H [K, T, *batch] at once, for each maximum: (model, state counter)."""
    from ..model import Model, tmap
    K, T = H.shape[:2]
    rep = lambda x: np.broadcast_to(x, (K,) + x.shape)
    d = {k: tmap(rep, v) for k, v in cfg.defaults().items()}
    p, r, n = L.start_p(), L.start_r(), L.start_n()
    z = np.zeros((K,) + cfg.batch)
    m = Model(cfg.eps, dep, *([z, z, z] if p is None else [rep(p), rep(r), rep(n)]), d, d, {k: None for k in cfg.names})
    runs = np.zeros(K, int)
    axes = tuple(range(1, 1 + len(cfg.batch)))
    out = {}
    for step in range(max(maxes) + 1):
        if step in maxes:
            out[step] = (m, runs.copy())
        going = ~m.halted.all(axis=axes) if axes else ~m.halted
        runs = runs + going
        m = m.but(upd=L.model_updates(step, (K,))).iterate(H[:, step % T])
        # schedules that are completely halted are frozen in the model by themselves
    return out


def xs(runs):
    return 2 - 0.5 ** np.asarray(runs, dtype=float)      # x -> x / 2 + 1 from 1


def run(task, R):
    import jax
    from .. import lib
    from ..actlayer import Layer
    globals()["run_" + task["kind"]](task, R, jax, lib, Layer)


def run_space(task, R, jax, lib, Layer):
    jnp = lib.jnp
    cfg = lib.cfg_of(task)
    T, n = task["T"], cfg.n
    H = np.array(list(itertools.product(task["alphabet"], repeat=T * n)), dtype=np.float64).reshape((-1, T) + cfg.batch)
    cap = 16384
    if len(H) > cap:
        raise AssertionError("schedule space larger than planned: %d" % len(H))
    L = Layer(cfg, task["state"], task["start"])
    maxes = list(range(0, 7))
    dep, check = task["dep"], task["check"]

    def one(table, dep, mx):
        c, s = L.execute_act(L.initial(table), dep, mx, check)
        ed = lib.TensorEditor.edit_controller(c, "silence")
        step, x, tab = L.unpack(s)
        return dict(p=c.probabilities, r=c.residuals, n=c.iterations, acc=dict(c.accumulators), dft=dict(ed.defaults), dep=c.depression_constant, halted=c.halted_batches,
                    upd=dict(ed.updates)), (step, x, tab)
    f = jax.jit(jax.vmap(one, in_axes=(0, None, None)))
    ref = model_run(L, cfg, H, maxes, dep)
    HJ = jnp.asarray(H, lib.DT[cfg.dt])
    for mx in maxes:
        o, (step, x, tab) = jax.tree_util.tree_map(np.asarray, f(HJ, dep, mx))
        m, runs = ref[mx]
        R.trans(len(H) * (mx + 1))
        R.trace(len(H))
        R.checks += 4
        case = lambda: {"task": task, "max_iterations": mx}
        a = lambda t: {k: lib.tmap_any(lib.arr, v) for k, v in t.items()}
        ob = {"p": lib.arr(o["p"]), "r": lib.arr(o["r"]), "n": lib.arr(o["n"]), "acc": a(o["acc"]), "dft": a(o["dft"]), "upd": a(o["upd"])}
        bad = np.flatnonzero(step != runs)
        if len(bad):
            R.violation(dict(case(), schedule=H[bad[0]].tolist()), "the layer ran %d times instead of %d" % (step[bad[0]], runs[bad[0]]))
        if not lib.close(lib.arr(x), xs(runs), 1e-5) or not np.array_equal(lib.arr(tab), lib.arr(HJ)):
            R.violation(case(), "the final state differs")
        for nm in cfg.names:
            if ob["upd"][nm] is not None:
                R.violation(case(), "updates of %r are pending" % nm)
        w = lib.model_obs(m)
        d = lib.differs(ob, w, ["p", "r", "n", "acc", "dft"], tol=2e-2 if cfg.dt == "b2" else 1e-5)
        if d:
            who = first_bad(ob, w, lib)
            R.violation(dict(case(), schedule=H[who].tolist() if who is not None else None), d[:600])
        if not np.array_equal(o["halted"], m.halted):
            R.violation(case(), "halted elements differ")
        R.outcome((mx, int(runs.sum())))
        R.add_states(len(np.unique(np.concatenate([m.p.reshape(len(H), -1), m.r.reshape(len(H), -1), m.n.reshape(len(H), -1)], axis=1).round(5), axis=0)))
    R.sample({"schedules": len(H), "max": maxes, "runs at the largest": int(runs.max())})


def first_bad(a, b, lib):
    for f in ("p", "r", "n"):
        d = np.abs(a[f] - b[f]).reshape(len(a[f]), -1).max(axis=1)
        if (d > 1e-5).any():
            return int(np.argmax(d > 1e-5))
    return None


def compare(R, lib, jax, L, got, want, case, tol=1e-6):
    (c, s), (c2, s2) = got, want
    R.checks += 3
    if not isinstance(c, lib.ACT_Controller):
        R.violation(case, "the first result is a %s" % type(c).__name__)
    d = lib.differs(lib.observe(c), lib.observe(c2), tol=tol)
    if d:
        R.violation(case, "compared to the plain loop: %s" % d)
    a, b = lib.reports(c), lib.reports(c2)
    if any(not np.array_equal(a[k], b[k]) for k in a if k != "thr"):
        R.violation(case, "reports %s, plain loop %s" % (a, b))
    la, ta = jax.tree_util.tree_flatten(s)
    lb, tb = jax.tree_util.tree_flatten(s2)
    if ta != tb or any(not lib.close(lib.arr(x), lib.arr(y), 1e-6) or jax.numpy.asarray(x).dtype != jax.numpy.asarray(y).dtype for x, y in zip(la, lb)):
        R.violation(case, "final state %s, plain loop %s" % (lib.short(lib.tmap_any(lib.arr, s)), lib.short(lib.tmap_any(lib.arr, s2))))


def run_runs(task, R, jax, lib, Layer):
    jnp = lib.jnp
    cfg = lib.cfg_of(task)
    T = task["T"]
    H = np.array(list(itertools.product(task["alphabet"], repeat=T * cfg.n)), dtype=np.float64).reshape((-1, T) + cfg.batch)
    L = Layer(cfg, task["state"], task["start"], count=True)
    P = Layer(cfg, task["state"], task["start"], count=False)
    jits = {}
    for i, h in enumerate(H):
        table = cfg.h(h)
        for mx in task["maxes"]:
            want = P.plain(P.initial(table), task["dep"], mx)
            for check in ((True, False) if task["how"] == "jit" or i % 3 == 0 else (bool(i % 2),)):
                if task["how"] == "jit":
                    if check not in jits:
                        jits[check] = jax.jit(lambda s, mx, check=check: L.execute_act(s, task["dep"], mx, check))
                    L.calls = 0
                    got = jits[check](L.initial(table), mx)
                else:
                    L.calls = 0
                    got = L.execute_act(L.initial(table), task["dep"], mx, check)
                jax.block_until_ready(jax.tree_util.tree_leaves(got))
                jax.effects_barrier()
                case = {"task": task, "schedule": h.tolist(), "max_iterations": mx, "check": check}
                R.checks += 1
                if L.calls != want[2]:
                    R.violation(case, "the layer was executed %d times instead of %d" % (L.calls, want[2]))
                compare(R, lib, jax, L, got, want[:2], case)
                R.trans(want[2] + 1)
                R.trace()
                R.state((i, mx, check))
                R.outcome((want[2],))
    R.sample({"schedules": len(H), "maxes": task["maxes"], "how": task["how"]})


def run_args(task, R, jax, lib, Layer):
    """Extra arguments, defaults, positional and keyword forms."""
    jnp = lib.jnp
    cfg = lib.cfg_of(dict(task, acc=task.get("acc", "vec"), eps=0.25))
    tables = [np.full((3,) + cfg.batch, v) for v in (0.05, 0.3)] + [np.broadcast_to(np.array([0.25, 0.0, 0.5]).reshape((3,) + (1,) * len(cfg.batch)), (3,) + cfg.batch)]
    for ti, h in enumerate(tables):
        L = Layer(cfg, "dict", "fresh")
        P = Layer(cfg, "dict", "fresh")
        s = L.initial(cfg.h(h))
        forms = [("nothing but the state", lambda: L.execute_act(s), (1.0, 10), (), {}),
                 ("depression", lambda: L.execute_act(s, 0.5), (0.5, 10), (), {}),
                 ("keyword maximum", lambda: L.execute_act(s, max_iterations=4), (1.0, 4), (), {}),
                 ("keyword depression", lambda: L.execute_act(s, depression_constant=0.5), (0.5, 10), (), {}),
                 ("keyword check", lambda: L.execute_act(s, check_for_errors=False), (1.0, 10), (), {}),
                 ("keyword state", lambda: L.execute_act(initial_state=s, max_iterations=2), (1.0, 2), (), {}),
                 ("one extra", lambda: L.execute_act(s, 1.0, 5, True, 3.0), (1.0, 5), (3.0,), {}),
                 ("two extras", lambda: L.execute_act(s, 1.0, 5, False, 2.0, "x"), (1.0, 5), (2.0, "x"), {}),
                 ("extra keyword", lambda: L.execute_act(s, 1.0, 5, True, eps=0.5), (1.0, 5), (), {"eps": 0.5}),
                 ("extra both", lambda: L.execute_act(s, 0.5, 7, True, 1.0, 2.0, eps=0.75, other=[1]), (0.5, 7), (1.0, 2.0), {"eps": 0.75, "other": [1]}),
                 ("extra keyword only", lambda: L.execute_act(s, eps=0.9, max_iterations=3), (1.0, 3), (), {"eps": 0.9}),
                 ("array depression and maximum", lambda: L.execute_act(s, jnp.asarray(0.5), jnp.asarray(3)), (0.5, 3), (), {}),
                 ("int depression", lambda: L.execute_act(s, 1, 3), (1, 3), (), {}),
                 ("zero depression", lambda: L.execute_act(s, 0.0, 3), (0.0, 3), (), {}),
                 ("negative maximum", lambda: L.execute_act(s, 1.0, -1), (1.0, -1), (), {})]
        for i, (args, kw) in enumerate([((3.0,), {}), ((2.0, "x"), {}), ((), {"eps": 0.5}), ((1.0, 2.0), {"eps": 0.75, "other": [1]}), ((), {"a": 1, "b": None})]):
            for check in (True, False):
                forms.append(("arguments %d, check %s" % (i, check), lambda args=args, kw=kw, check=check: L.execute_act(s, 1.0, 4, check, *args, **kw), (1.0, 4), args, kw))
        forms.append(("keywords only, unchecked", lambda: L.execute_act(s, eps=0.5, check_for_errors=False), (1.0, 10), (), {"eps": 0.5}))
        for label, call, (dep, mx), args, kw in forms:
            L.made, L.lazy = [], []
            got = call()
            want = P.plain(P.initial(cfg.h(h)), dep, mx, *args, **kw)
            case = {"form": label, "table": ti}
            compare(R, lib, jax, L, got, want[:2], case)
            R.checks += 1
            if not L.made or any(repr(x) != repr((args, kw)) for x in L.made):
                R.violation(case, "make_controller was given %s instead of %s" % (L.made, (args, kw)))
            R.trans(want[2] + 1)
            R.state((label, ti))
            R.outcome((label, want[2]))
            R.trace()
    # the initial state is not changed
    L = Layer(cfg, "list")
    s = L.initial(cfg.h(tables[1]))
    before = [np.asarray(x).copy() for x in jax.tree_util.tree_leaves(s)]
    a = L.execute_act(s, 1.0, 3)
    b = L.execute_act(s, 1.0, 3)
    R.checks += 2
    if any(not np.array_equal(x, np.asarray(y)) for x, y in zip(before, jax.tree_util.tree_leaves(s))):
        R.violation({}, "the initial state was changed")
    compare(R, lib, jax, L, a, b, {"twice": True}, tol=0.0)
    R.sample({"forms": [f[0] for f in forms]})


def run_wrap(task, R, jax, lib, Layer):
    """execute_act inside jit, vmap, scan, nested in another layer, over depression constants."""
    jnp = lib.jnp
    cfg = lib.cfg_of(dict(acc="two", batch=(2,), eps=0.25))
    L, P = Layer(cfg, "tuple"), Layer(cfg, "tuple")
    al = (0.25, 0.5, 1.0)
    H = np.array(list(itertools.product(al, repeat=4)), dtype=np.float64).reshape(-1, 2, 2)
    deps, maxes = (1.0, 0.5, 0.25, 0.0), (0, 1, 2, 4)
    f = jax.jit(jax.vmap(jax.vmap(jax.vmap(lambda t, d, m: L.execute_act(L.initial(t), d, m, True), (None, None, 0)), (None, 0, None)), (0, None, None)))
    C, S = f(cfg.h(H), jnp.asarray(deps), jnp.asarray(maxes))
    _, scanned = jax.lax.scan(lambda k, t: (k, L.execute_act(L.initial(t), 0.5, 4, True)), 0, cfg.h(H))
    mapped = jax.lax.map(lambda t: L.execute_act(L.initial(t), 1.0, 2, False), cfg.h(H))
    take = lambda tree, idx: jax.tree_util.tree_map(lambda x: x[idx], tree)
    for i in range(len(H)):
        for j, d in enumerate(deps):
            for k, mx in enumerate(maxes):
                want = P.plain(P.initial(cfg.h(H[i])), d, mx)
                case = {"schedule": H[i].tolist(), "dep": d, "max": mx}
                compare(R, lib, jax, L, take((C, S), (i, j, k)), want[:2], dict(case, how="jit of vmaps"))
                R.trans(want[2] + 1)
                R.trace()
                R.state((i, j, k))
                R.outcome(want[2])
                if (d, mx) == (0.5, 4):
                    compare(R, lib, jax, L, take(scanned, i), want[:2], dict(case, how="scan"))
                if (d, mx) == (1.0, 2):
                    compare(R, lib, jax, L, take(mapped, i), want[:2], dict(case, how="map"))
    R.sample({"schedules": len(H), "deps": deps, "maxes": maxes})


def run_nested(task, R, jax, lib, Layer):
    """A layer whose iterations execute another layer, with other arguments, before or after its own work."""
    jnp = lib.jnp
    ocfg, icfg = lib.cfg_of(dict(acc="two", batch=(2,), eps=0.25)), lib.cfg_of(dict(acc="tuple", batch=(1, 2), eps=0.5))
    inner = Layer(icfg, "dict")

    class Outer(Layer):
        def __init__(self, execute, first):
            super().__init__(ocfg, "tuple")
            self.execute, self.first = execute, first

        def run_iteration(self, controller, state):
            step, x, (table, itable, total) = state
            if self.first:
                c, s = self.execute(inner.initial(itable))[:2]
            controller, (step, x, _) = super().run_iteration(controller, (step, x, table))
            if not self.first:
                c, s = self.execute(inner.initial(itable))[:2]
            s = inner.unpack(s)
            return controller, (step, x, (table, itable, total + s[0] + 10 * s[1] + 100 * c.iterations.sum() + c.probabilities.sum() + jax.tree_util.tree_leaves(c[inner_name])[0].sum()))
    inner_name = icfg.names[0]
    tables = [np.array(x, dtype=np.float64) for x in itertools.product((0.25, 0.5, 1.0), repeat=2)]
    args = [(1.0, 2, True), (0.5, 1, False), (1.0, 4, False), (0.5, 3, True), (1.0, 0, True)]
    k = 0
    for h in tables:
        for ia, (idep, imax, icheck) in enumerate(args):
            for omax in task["maxes"]:
                k += 1
                ocheck, odep, first = bool(k % 2), (1.0, 0.5)[k // 2 % 2], bool(k // 4 % 2)
                if task["how"] == "eager" and k % 3:
                    continue
                execute = lambda s, P=False: (inner.plain(s, idep, imax) if P else inner.execute_act(s, idep, imax, icheck))
                L = Outer(execute, first)
                P = Outer(lambda s: execute(s, True), first)
                oh = np.broadcast_to(h.reshape(2, 1), (2, 2)) / (1, 2)
                ih = np.broadcast_to(h[::-1].reshape(2, 1, 1), (2, 1, 2))
                s0 = lambda: (jnp.asarray(0, jnp.int32), jnp.asarray(1.0, jnp.float32), (ocfg.h(oh), icfg.h(ih), jnp.asarray(0.0, jnp.float32)))
                run = lambda s: L.execute_act(s, odep, omax, ocheck)
                got = (jax.jit(run) if task["how"] == "jit" else run)(s0())
                want = P.plain(s0(), odep, omax)
                case = {"table": h.tolist(), "inner": [idep, imax, icheck], "outer": [odep, omax, ocheck], "first": first}
                compare(R, lib, jax, L, got, want[:2], case, tol=1e-5)
                R.trans(want[2] + 1)
                R.trace()
                R.state((k,))
                R.outcome((want[2], round(float(want[1][2][2]), 3)))
    R.sample({"inner arguments": args, "maxes": task["maxes"]})


def run_several(task, R, jax, lib, Layer):
    """Layers of one class which differ in what they hold, executed in every order, more than once."""
    cfgs = [lib.cfg_of(dict(acc="vec", batch=(2,), eps=e, default_salt=s)) for e, s in ((0.25, 1), (0.5, 2), (0.25, 3))]
    h = np.array([[0.25, 0.5], [0.5, 0.25]])

    class Scaled(Layer):
        by = 1.0

        def run_iteration(self, controller, state):
            c, s = super().run_iteration(controller, state)
            return c, self.pack(s[0], s[1] * self.by, s[2])

    def layers():
        out = []
        for i, c in enumerate(cfgs):
            l = Scaled(c, "tuple")
            l.by = (1.0, 2.0, 0.5)[i]
            out.append(l)
        return out
    for how in ("eager", "jit"):
        for order in itertools.product(range(3), repeat=3):
            ls = layers()
            for n, i in enumerate(order):
                l = ls[i]
                run = lambda s, l=l, n=n: l.execute_act(s, 1.0, 3, bool(n % 2))
                got = (jax.jit(run) if how == "jit" else run)(l.initial(cfgs[i].h(h)))
                want = l.plain(l.initial(cfgs[i].h(h)), 1.0, 3)
                compare(R, lib, jax, l, got, want[:2], {"order": order, "at": n, "how": how})
                R.trans(want[2])
                R.state((how, order[:n + 1]))
            R.trace()
        # one after the other, changed in between
        l = layers()[0]
        for by in (1.0, 3.0, 0.5, 1.0):
            l.by = by
            got = l.execute_act(l.initial(cfgs[0].h(h)), 1.0, 3)
            compare(R, lib, jax, l, got, l.plain(l.initial(cfgs[0].h(h)), 1.0, 3)[:2], {"changed to": by})
            R.trans()
    R.outcome("several")
    R.sample({"orders": 27})


def run_long(task, R, jax, lib, Layer):
    cfg = lib.cfg_of(dict(acc=task["acc"], batch=task["batch"], eps=0.25))
    L, P = Layer(cfg, "tuple"), Layer(cfg, "tuple")
    h = (np.arange(9) + 1).reshape(1, 9) / 64.0
    h = np.broadcast_to(h, (2, 9))
    f = jax.jit(lambda s, d, mx: L.execute_act(s, d, mx, True))
    for dep in (1.0, 0.5):
        want, n = P.make_controller(None, dep), 0
        s = P.initial(cfg.h(h))
        snaps = {}
        step = jax.jit(P.run_iteration)
        while True:
            snaps[n] = (want, s)
            if bool(want.is_completely_halted) or n > 120:
                break
            want, s = step(want, s)
            n += 1
        for mx in task["maxes"]:
            k = min(mx, n)
            compare(R, lib, jax, L, f(L.initial(cfg.h(h)), dep, mx), snaps[k], {"dep": dep, "max": mx}, tol=1e-5)
            R.trans(k + 1)
            R.trace()
            R.state((dep, mx))
            R.outcome(k)
    # a layer that halts after 98304 iterations: the maximum is all there is before, however large
    h = np.full((2, 9), 1 / 64)
    for chk in (True, False):
        g = jax.jit(lambda s, mx, chk=chk: L.execute_act(s, 2.0 ** -11, mx, chk))
        for mx in [x + d for x in (128, 256, 512, 1024, 4096, 32768, 65536) for d in (-1, 0, 1)]:
            c, s = g(L.initial(cfg.h(h)), mx)
            ran, want = int(L.unpack(s)[0]), {float(mx)}
            R.checks += 2
            R.trans(mx)
            R.state(("never", mx, chk))
            if ran != mx or set(np.asarray(c.iterations).tolist()) != want or bool(c.is_any_halted):
                R.violation({"max": mx, "check": chk}, "a layer that hardly halts ran %d times, with iterations %s, instead of %d" % (ran, np.asarray(c.iterations).tolist(), mx))
    R.sample({"steps": n, "maxes": task["maxes"]})
