"""C10: every execution mode computes the same process."""
import itertools
import numpy as np

BOUNDS = ("all sequences of 2-4 iterations over 4-5 probabilities with every pattern of resets after them, for 13 "
          "accumulator sets, epsilons, depression constants, layouts and dtypes, executed in 15 modes: eagerly, compiled "
          "step by step, compiled as a whole, scan, while loop, fori loop, vmap over controllers (batch rank 0, 1, 2; "
          "eager, compiled, under scan), vmap over inputs, closed over, created in the compiled program with traced "
          "defaults and depression constant, rematerialised, viewers, builders and silent edits in compiled programs; "
          "every observable after every step")
ASSUMPTIONS = ["dyadic probabilities and integer updates, so that fused or reordered arithmetic is exact",
               "float16 is left out of compiled modes: this XLA crashes compiling some float16 programs"]
ACCS = ("one", "vec", "hi", "two", "swap", "tuple", "list", "nested", "empties", "hollow", "five", "names", "b2", "record", "kinds")


def tasks(tier):
    th = tier == "thorough"
    t = []
    T = 4 if th else 3
    pats = [p for k in range(T + 1) for p in itertools.combinations(range(T), k)]
    for i, a in enumerate(ACCS):
        for j in range(8 if th else 1):
            t.append(dict(acc=a, alphabet=(0.0, 0.25, 0.75, 1.0), depth=T, eps=(1e-4, 0.25, 0.5)[(i + j) % 3],
                          dep=(1.0, 0.5, 0.25)[(i + j // 2) % 3], resets=list(pats[(3 * i + 5 * j) % len(pats)]), cost=6))
    for p in pats if th else pats[1:8:3]:
        t.append(dict(acc="tuple", alphabet=(0.0, 0.25, 0.5, 0.75, 1.0), depth=T, eps=0.25, resets=list(p), cost=5))
    t.append(dict(acc="vec", alphabet=(-0.5, 0.25, 0.75, 1.5), depth=3, resets=[1], cost=5))
    for i, dep in enumerate((0.25, 2.0, 0.5)):
        t.append(dict(acc=("vec", "tuple", "one")[i], alphabet=(-1.0, 0.5, 1.0, 3.0), depth=3, resets=[i], dep=dep, eps=0.25, cost=5))
    for i, (a, w) in enumerate((("swap", "updates"), ("list", "defaults"))):
        t.append(dict(acc=a, alias=w, alphabet=(0.0, 0.25, 0.75, 1.0), depth=3, resets=[i], eps=0.25, cost=5))
    t.append(dict(acc="f8", dt="f8", alphabet=(0.0, 0.25, 0.75, 1.0), depth=3, resets=[1], x64=True, cost=5))
    t.append(dict(acc="f8", dt="f4", alphabet=(0.0, 0.25, 0.75, 1.0), depth=3, resets=[0], x64=True, cost=5))
    t.append(dict(acc="b2", dt="b2", alphabet=(0.0, 0.25, 0.75, 1.0), depth=3, resets=[1], cost=5))
    t.append(dict(acc="vec", dt="b2", alphabet=(0.0, 0.25, 0.75, 1.0), depth=3, resets=[0], eps=1e-4, cost=5))
    for kind, dep in (("int", 1.0), ("array", 0.5), ("int", 0.0)):
        t.append(dict(acc="vec", alphabet=(0.0, 0.25, 0.75, 1.0), depth=3, resets=[0], dep=dep, dep_kind=kind, cost=5))
    return t


def run(task, R):
    import jax
    from jax import numpy as jnp
    from jax import lax
    from .. import lib, families
    from src.jax_act import ControllerBuilder, ACT_Controller, TensorEditor, ACTViewer
    T = task["depth"]
    hs = lib.grid(tuple(task["alphabet"]), T)
    N = hs.shape[1]
    cfg = lib.cfg_of(task, batch=(N,))
    resets = np.array([t in task["resets"] for t in range(T)])
    ups = [{nm: cfg.tree(nm, cfg.updates(t)[nm]) for nm in cfg.names} for t in range(T)]
    dft = {nm: cfg.tree(nm, cfg.defaults()[nm]) for nm in cfg.names}
    H = jnp.stack([cfg.h(h) for h in hs])
    U = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *ups)
    RS = jnp.asarray(resets)

    def create(dft, batch, dep=None):
        b = ControllerBuilder.new_builder(list(batch), lib.DT[cfg.dt], cfg.eps, cfg.depression() if dep is None else dep)
        for nm in cfg.names:
            b = b.define_accumulator_directly(nm, dft[nm])
        return b.build()

    def view(c):
        v = c.make_viewer()
        return dict(p=c.probabilities, r=c.residuals, n=c.iterations, acc=dict(c.accumulators), dft=dict(v.defaults),
                    halted=c.halted_batches, vhalted=v.halted_batches, thr=jnp.asarray(c.halt_threshold, jnp.float32),
                    dep=jnp.asarray(c.depression_constant, jnp.float32))

    def flags(c):
        return dict(all=c.is_completely_halted, any=c.is_any_halted)

    def commit(c, h, u):
        for nm in cfg.names:
            c = c.cache_update(nm, u[nm])
        return c.iterate_act(h)

    def cond_reset(c, rs):
        return lax.cond(rs, lambda c: c.reset_batches(), lambda c: c, c)

    def np_(x):
        return jax.tree_util.tree_map(np.asarray, x)

    # ---- reference: eager, operation by operation
    ref, reff = [], []
    eager = [create(dft, (N,))]
    for t in range(T):
        c = commit(eager[-1], H[t], ups[t])
        a = c
        if resets[t]:
            c = c.reset_batches()
        ref.append((np_(view(a)), np_(view(c))))
        reff.append((np_(flags(a)), np_(flags(c))))
        eager.append(c)
    ev = lambda: np.concatenate([ref[t][0]["p"].reshape(N, -1) for t in range(T)], axis=1)
    R.add_states(len(np.unique(ev(), axis=0)))

    def same(mode, t, phase, got, want, extra=None):
        fg, tg = jax.tree_util.tree_flatten(got)
        fw, tw = jax.tree_util.tree_flatten(want)
        R.checks += 1
        case = {"task": task, "mode": mode, "step": t, "phase": phase}
        if tg != tw:
            R.violation(case, "mode %s gives another structure: %s instead of %s" % (mode, tg, tw))
        for x, y in zip(fg, fw):
            x, y = np.asarray(x), np.asarray(y)
            if x.dtype != y.dtype or x.shape != y.shape:
                R.violation(case, "mode %s gives %s%s instead of %s%s" % (mode, x.dtype, x.shape, y.dtype, y.shape))
            xf, yf = x.astype(np.float64), y.astype(np.float64)
            # scalars: threshold and depression constant, which may be a python or a traced float
            if not (np.array_equal(xf, yf) or y.ndim == 0 and np.allclose(xf, yf, rtol=1e-6, atol=1e-7)):
                i = tuple(int(v) for v in np.argwhere(xf != yf)[0])
                e = i[0] if i else 0
                R.violation({**case, "element": e, "history": hs[:, e % N].tolist()},
                            "mode %s differs from eager execution at step %d (%s): %s instead of %s" % (
                                mode, t, phase, xf[i] if i else xf, yf[i] if i else yf))

    def same_run(mode, got, sl=None):
        """got: list over steps of (view, view after reset) pairs."""
        for t in range(T):
            for ph in (0, 1):
                same(mode, t, ("commit", "reset")[ph], got[t][ph], ref[t][ph])
        R.trans(N * T)
        R.trace(N)
        R.note("mode " + mode.split("/")[0], N)

    def unstack(ys):
        ys = np_(ys)
        return [tuple(jax.tree_util.tree_map(lambda x: x[t], y) for y in ys) for t in range(T)]

    def loop_step(c, x):
        h, u, rs = x
        a = commit(c, h, u)
        b = cond_reset(a, rs)
        return b, (view(a), view(b))

    # ---- compiled step by step
    jc = jax.jit(commit)
    jr = jax.jit(lambda c: c.reset_batches())
    jv, jf = jax.jit(view), jax.jit(flags)
    c, got = create(dft, (N,)), []
    for t in range(T):
        a = jc(c, H[t], ups[t])
        c = jr(a) if resets[t] else a
        got.append((np_(jv(a)), np_(jv(c))))
        same("flags compiled", t, "commit", np_(jf(a)), reff[t][0])
    same_run("compiled steps", got)

    # ---- compiled as a whole, with the controller created inside
    def whole(dft, dep, H, U):
        c, out = create(dft, (N,), dep), []
        for t in range(T):
            a = commit(c, H[t], jax.tree_util.tree_map(lambda x: x[t], U))
            c = a.reset_batches() if resets[t] else a
            out.append((view(a), view(c)))
        return out
    same_run("compiled whole, created inside", np_(jax.jit(whole)(dft, jnp.asarray(task.get("dep", 1.0), lib.DT[cfg.dt]), H, U)))

    # ---- compiled from builder passed in
    def from_builder(b, dft, H, U):
        for nm in cfg.names[1:]:
            b = b.define_accumulator_directly(nm, dft[nm])
        return [x for x in _unrolled(b.build(), H, U)]

    def _unrolled(c, H, U):
        for t in range(T):
            a = commit(c, H[t], jax.tree_util.tree_map(lambda x: x[t], U))
            c = a.reset_batches() if resets[t] else a
            yield (view(a), view(c))
    b0 = ControllerBuilder.new_builder([N], lib.DT[cfg.dt], cfg.eps, cfg.depression())
    b0 = b0.define_accumulator_directly(cfg.names[0], dft[cfg.names[0]])
    same_run("builder passed in", np_(jax.jit(from_builder)(b0, dft, H, U)))

    # ---- scan, eager call and compiled
    c0 = create(dft, (N,))
    last, ys = lax.scan(loop_step, c0, (H, U, RS))
    same_run("scan", unstack(ys))
    same("scan", T - 1, "carry", np_(view(last)), ref[T - 1][1])
    _, ys = jax.jit(lambda c, x: lax.scan(jax.checkpoint(loop_step), c, x))(c0, (H, U, RS))
    same_run("scan, rematerialised", unstack(ys))

    # ---- while and fori loops
    empty = jax.tree_util.tree_map(lambda s: jnp.zeros((T,) + s.shape, s.dtype),
                                   jax.eval_shape(lambda c, x: loop_step(c, x)[1], c0, (H[0], ups[0], RS[0])))

    def body(i, cb):
        c, buf = cb
        c, y = loop_step(c, (H[i], jax.tree_util.tree_map(lambda x: x[i], U), RS[i]))
        return c, jax.tree_util.tree_map(lambda b, v: b.at[i].set(v), buf, y)
    _, ys = lax.fori_loop(0, T, body, (c0, empty))
    same_run("fori loop", unstack(ys))
    _, _, ys = jax.jit(lambda c, e: lax.while_loop(lambda s: s[0] < T, lambda s: (s[0] + 1,) + body(s[0], s[1:]),
                                                   (jnp.asarray(0), c, e)))(c0, empty)
    same_run("while loop", unstack(ys))

    # ---- vmap over independent controllers of batch shape (), (1,), (2,), (1, 2)
    def resh(x, lead, batch):
        return x.reshape((lead, N // int(np.prod(batch, dtype=int))) + tuple(batch) + x.shape[2:]) if lead is not None else \
            x.reshape((N // int(np.prod(batch, dtype=int)),) + tuple(batch) + x.shape[1:])

    for batch in ((), (1,), (2,), (1, 2)):
        if N % max(1, int(np.prod(batch, dtype=int))):
            continue
        d2 = jax.tree_util.tree_map(lambda x: resh(x, None, batch), dft)
        H2 = resh(H, T, batch)
        U2 = jax.tree_util.tree_map(lambda x: resh(x, T, batch), U)
        K = H2.shape[1]
        back = lambda tree: jax.tree_util.tree_map(
            lambda x: x.reshape((N,) + x.shape[1 + len(batch):]) if x.ndim >= 1 + len(batch) else x[0], np_(tree))

        def prog(d, H, U):
            c, out = create(d, batch), []
            for t in range(T):
                a = commit(c, H[t], jax.tree_util.tree_map(lambda x: x[t], U))
                c = a.reset_batches() if resets[t] else a
                out.append((view(a), view(c)))
            return out

        def prog_scan(d, H, U):
            return lax.scan(loop_step, create(d, batch), (H, U, RS))[1]

        fix = lambda out: [tuple(fixv(v) for v in pair) for pair in out]

        def fixv(v):
            v = dict(v)
            thr, dep = v.pop("thr"), v.pop("dep")
            v = back(v)
            v["thr"], v["dep"] = np.asarray(thr)[0], np.asarray(dep)[0]
            return v
        if batch in ((), (2,)):
            same_run("vmap over controllers/%s" % (batch,), fix(jax.vmap(prog, in_axes=(0, 1, 1))(d2, H2, U2)))
        same_run("compiled vmap over controllers/%s" % (batch,), fix(jax.jit(jax.vmap(prog, in_axes=(0, 1, 1)))(d2, H2, U2)))
        if batch in ((), (1, 2)):
            ys = np_(jax.jit(jax.vmap(prog_scan, in_axes=(0, 1, 1)))(d2, H2, U2))
            out = [tuple(jax.tree_util.tree_map(lambda x: x[:, t], y) for y in ys) for t in range(T)]
            same_run("scan under vmap/%s" % (batch,), fix(out))
        # controllers passed as mapped arguments, step by step
        cs = jax.vmap(lambda d: create(d, batch))(d2)
        vc, vr, vv = jax.vmap(commit), jax.vmap(lambda c: c.reset_batches()), jax.vmap(view)
        if batch == (1,):
            out = []
            for t in range(T):
                a = vc(cs, H2[t], jax.tree_util.tree_map(lambda x: x[t], U2))
                cs = vr(a) if resets[t] else a
                out.append((vv(a), vv(cs)))
            same_run("vmap over passed controllers/%s" % (batch,), fix(out))

    # ---- per-controller resets chosen by data under vmap: cond becomes select
    # ---- from every reached state: closed over, mapped over inputs, viewers, edits
    looked = lambda v: dict(p=v.probabilities, r=v.residuals, n=v.iterations, acc=dict(v.accumulators), dft=dict(v.defaults), upd=dict(v.updates),
                            on=view_acc(v.unhalted_only()), off=view_acc(v.halted_only()))
    view_acc = lambda v: dict(v.accumulators)
    rng_masks = [np.arange(N) % 2 == 0, np.arange(N) < N // 3, np.zeros(N, bool)]
    for t in range(T):
        c = eager[t]
        u = ups[t]
        closed = jax.jit(lambda h, u: view(commit(c, h, u)))(H[t], u)
        same("closed over", t, "commit", np_(closed), ref[t][0])
        # objects first looked at inside a compiled program that closes over them serve as well outside it afterwards
        fresh = lambda: jax.tree_util.tree_map(lambda x: x, c)
        for what, f in (("read", lambda o, h, u: view(o)), ("committed", lambda o, h, u: view(commit(o, h, u))), ("viewed", lambda o, h, u: looked(o.make_viewer())),
                        ("read and committed", lambda o, h, u: (view(o), view(commit(o, h, u)), view(o.reset_batches())))):
            o = fresh()
            first, mid, last = jax.jit(lambda h, u: f(o, h, u))(H[t], u), f(o, H[t], u), jax.jit(lambda h, u: f(o, h, u))(H[t], u)
            want = f(c, H[t], u)
            for mode, g in (("in it", first), ("outside it", mid), ("in another", last)):
                same("closed over, %s, %s" % (what, mode), t, what, np_(g), np_(want))
            R.trans(3)
        w = fresh().make_viewer()
        for mode, g in (("in it", jax.jit(lambda h: looked(w))(H[t])), ("outside it", looked(w)), ("in another", jax.vmap(lambda h: looked(w))(H[t]))):
            if mode == "in another":
                g = jax.tree_util.tree_map(lambda x: x[0], g)
            same("viewer closed over, %s" % mode, t, "viewer", np_(g), np_(looked(c.make_viewer())))
        alts = jnp.stack([jnp.roll(H[t], k) for k in range(4)])
        many = np_(jax.vmap(lambda h: view(commit(c, h, u)))(alts))
        manyc = np_(jax.vmap(lambda c, h: view(commit(c, h, u)), in_axes=(None, 0))(c, alts))
        for k in range(4):
            one = np_(view(commit(c, alts[k], u)))
            for mode, m in (("vmap over inputs", many), ("vmap over inputs, controller passed", manyc)):
                same(mode, t, "input %d" % k, jax.tree_util.tree_map(lambda x: x[k], m), one)
                R.trans(N)
        # viewers
        pend = c
        for nm in cfg.names[:1]:
            pend = pend.cache_update(nm, u[nm])
        for nm_, f in (("halted_only", lambda v, m: v.halted_only()), ("unhalted_only", lambda v, m: v.unhalted_only()),
                       ("mask_data", lambda v, m: v.mask_data(m)), ("transform", lambda v, m: v.transform(lambda x: x * 2 + 1)),
                       ("twice", lambda v, m: v.mask_data(m).transform(lambda x: x[..., None]))):
            m = jnp.asarray(rng_masks[t % 3])
            vw = lambda v: dict(p=v.probabilities, r=v.residuals, n=v.iterations, acc=dict(v.accumulators),
                                dft=dict(v.defaults), upd=dict(v.updates))
            want = np_(vw(f(pend.make_viewer(), m)))
            R.trans(2 * N)
            same("viewer %s compiled" % nm_, t, nm_, np_(vw(jax.jit(lambda c, m: f(c.make_viewer(), m))(pend, m))), want)
            same("viewer %s passed in" % nm_, t, nm_, np_(jax.jit(lambda v, m: vw(f(v, m)))(pend.make_viewer(), m)), want)
        # silent edits in a compiled program, then the process goes on
        def edit(c, p, r, n, a, d, eps):
            ed = TensorEditor.edit_controller(c, "silence")
            ed = ed.set_probabilities(p).set_residuals(r).set_iterations(n).set_epsilon(eps)
            nm = cfg.names[0]
            return ed.set_accumulator(nm, a).set_defaults(nm, d).set_updates(nm, a).set_updates(nm, None).build()

        def go(c, *e):
            c = edit(c, *e)
            a = commit(c, H[t], u)
            return view(c), view(a), view(a.reset_batches())
        nm = cfg.names[0]
        e = (jnp.roll(H[t], 1).clip(0, 1), H[t].clip(0, 1), jnp.abs(H[t]) * 4, u[nm], dft[nm], 0.5)
        want = np_(go(c, *e))
        got = np_(jax.jit(go)(c, *e))
        for k in range(3):
            same("silent edit compiled", t, ("edited", "commit", "reset")[k], got[k], want[k])
        edc = jax.jit(lambda ed: ed.set_epsilon(0.5).build())(TensorEditor.edit_controller(c, "silence"))
        same("editor passed in", t, "edited", np_(view(edc)), np_(view(TensorEditor.edit_controller(c).set_epsilon(0.5).build())))
        R.trans(4 * N)
    # data dependent resets, mapped: every controller has its own pattern
    pats = np.array(list(itertools.product((False, True), repeat=T)))

    def pattern_run(rs):
        return lax.scan(loop_step, c0, (H, U, rs))[1]
    ys = np_(jax.jit(jax.vmap(pattern_run))(jnp.asarray(pats)))
    for k, p in enumerate(pats):
        if k % (1 if len(pats) <= 8 else 4) and not np.array_equal(p, resets):
            continue
        c = c0
        for t in range(T):
            a = commit(c, H[t], ups[t])
            c = a.reset_batches() if p[t] else a
            for ph, w in ((0, a), (1, c)):
                same("mapped reset pattern %s" % p.astype(int).tolist(), t, str(ph),
                     jax.tree_util.tree_map(lambda x: x[k][t], ys[ph]), np_(view(w)))
        R.trans(2 * N * T)
        R.trace(N)
    R.outcome((task["acc"], tuple(task["resets"]), round(float(ref[-1][0]["p"].astype(np.float64).sum()), 3)))
    R.sample({"histories": N, "resets": task["resets"], "last p": ref[-1][0]["p"].astype(float)[:5].tolist()})
