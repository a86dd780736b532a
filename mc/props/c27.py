"""C27: operations leave tree structure, shapes and dtypes of a controller alone; values in their own dtype."""
import itertools
import numpy as np
from .. import nodes

BOUNDS = ("every assignment of 3 floating dtypes to the 1-3 leaves of 7 accumulator sets x 3 dtypes of the core (4 with double precision "
          "enabled), x kinds of depression constant: every history of up to 3 (thorough: 4) operations out of two iterations, a compiled "
          "iteration, reset, save and load, flattening, editing, with the structure, shapes, dtypes and the values to the resolution of "
          "each leaf's own dtype after each; updates of every other dtype refused or converted; each of the configurations as the carry of while, fori and scan from a fresh controller")
ASSUMPTIONS = ["halting probabilities the dtype of the core",
               "float16 is only executed eagerly where the XLA compiler of this environment crashes on it"]

STRUCTS = {"one": {"a": 0}, "pair": {"a": (0, 1)}, "two": {"b": 0, "a": 1}, "deep": {"z": {"y": [0, (1,)], "x": ()}, "m": 2}, "odd": {"": [0, 1], "é": {"k": {"j": 2}, "e": []}},
           "rec": {"r": nodes.Rec(nodes.Box([0], "b"), [nodes.Pt(1, 0)])}, "od": {"o": nodes.OrderedDict([("z", nodes.Rec(0, ())), ("b", 1)])}}
EXTRA = [(2,), (), (2, 2)]
TOL = {"f4": 2.0 ** -20, "b2": 2.0 ** -5, "f2": 2.0 ** -8, "f8": 2.0 ** -48}


def tasks(tier):
    th = tier == "thorough"
    t = [dict(kind="updates", x64=x, cost=5, combos=[]) for x in (False, True)]
    k = 0
    for x64 in (False, True):
        D = ("f4", "b2", "f8") if x64 else ("f4", "b2", "f2")
        for sname in STRUCTS:
            n = {"one": 1, "pair": 2, "two": 2, "deep": 3, "odd": 3, "rec": 2, "od": 2}[sname]
            combos = list(itertools.product(D, repeat=n))
            for core in D if not x64 else ("f4", "f8", "b2", None):
                if not th and x64 and n == 3 and core == "b2":
                    continue
                step = 9 if n == 3 else 9
                for i in range(0, len(combos), step):
                    k += 1
                    depth = (4 if th else 3) if n == 1 else 3 if th or n == 2 and k % 2 else 2
                    batch = [(2,), (), (2, 1), (3,), (1, 2)][k % 5]
                    f2 = "f2" in D
                    t.append(dict(kind="hist", struct=sname, core=core, combos=combos[i:i + step], depth=depth, batch=batch, x64=x64, eps=(0.25, 1e-4)[k % 2],
                                  dep=(1.0, 0.5)[k // 2 % 2], dep_kind=("float", "array", "int")[k % 3], cost=10 if depth > 2 else 5))
                safe = [c for c in combos if "f2" not in c and core != "f2"]
                if safe:
                    t.append(dict(kind="carry", struct=sname, core=core, combos=safe if th else safe[k % 2::5 if n == 3 else 2] or safe, batch=[(2,), (), (2, 1)][k % 3], x64=x64, eps=0.25,
                                  dep=(1.0, 0.5)[k % 2], dep_kind=("float", "array", "int")[k % 3], cost=7))
    return t


def run(task, R):
    if task["kind"] == "updates":
        return run_updates(task, R)
    for combo in task["combos"]:
        {"hist": hist, "carry": carry}[task["kind"]](task, tuple(combo), R)


class World:
    def __init__(self, task, combo):
        from .. import lib
        self.lib, self.combo = lib, combo
        self.batch = tuple(task["batch"])
        self.core = task["core"] or ("f8" if task["x64"] else "f4")
        self.struct = STRUCTS[task["struct"]]
        self.names = list(self.struct)
        dep = 1.0 if task["dep_kind"] == "int" else task["dep"]
        self.eps, self.dep, self.dk, self.given = task["eps"], dep, task["dep_kind"], task["core"]

    def leafdt(self, i):
        return self.combo[i]

    def map(self, f, t):
        return self.lib.tmap(f, t)

    def value(self, i, salt):
        """Values that use the whole mantissa of the leaf's dtype."""
        shape = self.batch + EXTRA[i]
        n = int(np.prod(shape, dtype=int))
        unit = {"f4": 2.0 ** -21, "b2": 2.0 ** -5, "f2": 2.0 ** -8, "f8": 2.0 ** -50}[self.leafdt(i)]
        v = 1.0 + (np.arange(n) * 3 + salt * 5 + i * 2) % 7 * unit + (np.arange(n) + salt) % 2
        return v.reshape(shape)

    def tree(self, name, salt):
        return self.map(lambda i: self.value(i, salt + 3 * self.names.index(name)), self.struct[name])

    def jax(self, name, salt):
        lib = self.lib
        return self.map(lambda i: lib.jnp.asarray(self.value(i, salt + 3 * self.names.index(name)), lib.DT[self.leafdt(i)]), self.struct[name])

    def fresh(self):
        lib = self.lib
        dep = {"float": lambda: float(self.dep), "int": lambda: int(self.dep), "array": lambda: lib.jnp.asarray(self.dep, lib.DT[self.core])}[self.dk]()
        b = lib.ControllerBuilder.new_builder(list(self.batch), None if self.given is None else lib.DT[self.core], self.eps, dep)
        for nm in self.names:
            b = b.define_accumulator_directly(nm, self.jax(nm, 0))
        m = lib.Model.fresh(self.batch, self.eps, self.dep, {nm: self.tree(nm, 0) for nm in self.names})
        return b.build(), m

    def h(self, k):
        i = np.arange(int(np.prod(self.batch, dtype=int))).reshape(self.batch)
        return np.choose((i + k) % 3, (0.5, 0.25, 1.0) if k else (0.25, 1.0, 0.5))

    def cached(self, c, salt):
        for nm in self.names:
            c = c.cache_update(nm, self.jax(nm, salt))
        return c

    def mcached(self, m, salt):
        return m.but(upd={nm: self.tree(nm, salt) for nm in self.names})

    def signature(self, c):
        jax, jnp = self.lib.jax, self.lib.jnp
        ls, td = jax.tree_util.tree_flatten(c)
        return td, [(jnp.shape(x), jnp.result_type(x)) for x in ls]

    def compare(self, R, c, m, case):
        """Values of every leaf to the resolution of its dtype, and the dtypes."""
        lib = self.lib
        R.checks += 1
        ed = lib.TensorEditor.edit_controller(c, "silence")
        tc = {"f4": 1e-6, "f8": 1e-12, "b2": 1e-2, "f2": 1e-3}[self.core]
        for f, a, b in (("probabilities", c.probabilities, m.p), ("residuals", c.residuals, m.r), ("iterations", c.iterations, m.n)):
            if a.dtype != lib.DT[self.core] or not lib.close(lib.arr(a), b, tc):
                R.violation(case(), "%s are %s %s, expected %s" % (f, a.dtype, lib.short(lib.arr(a)), lib.short(b)))
        for what, d, md in (("accumulators", c.accumulators, m.acc), ("defaults", ed.defaults, m.dft)):
            if set(d) != set(self.names):
                R.violation(case(), "%s have the names %s" % (what, sorted(d)))
            for nm in self.names:
                def go(i, a, b):
                    if nodes.kind(i) is not None:
                        if nodes.kind(a) != nodes.kind(i):
                            R.violation(case(), "%s of %r have the structure %s" % (what, nm, lib.short(lib.tmap_any(lib.arr, a))))
                        for x, y, z in zip(*map(nodes.kids, (i, a, b))):
                            go(x, y, z)
                    else:
                        dt = self.leafdt(i)
                        if a.dtype != lib.DT[dt] or not lib.close(lib.arr(a), b, TOL[dt]):
                            R.violation(case(), "a leaf of %s of %r is %s %s, expected %s %s" % (what, nm, a.dtype, lib.arr(a).tolist(), lib.DT[dt].__name__, b.tolist()))
                go(self.struct[nm], d[nm], md[nm])


def hist(task, combo, R):
    from .. import lib
    from src.jax_act import ACT_Controller
    w = World(task, combo)
    c0, m0 = w.fresh()
    sig = w.signature(c0)
    low = "f2" in combo or w.core == "f2"
    flat = lambda c: lib.jax.tree_util.tree_unflatten(*reversed(lib.jax.tree_util.tree_flatten(c)))
    ops = [("iterate 0", lambda c, k: w.cached(c, k + 1).iterate_act(w_h(w, 0)), lambda m, k: w.mcached(m, k + 1).iterate(w.h(0))),
           ("iterate 1", lambda c, k: w.cached(c, k + 2).iterate_act(w_h(w, 1)), lambda m, k: w.mcached(m, k + 2).iterate(w.h(1))),
           ("reset", lambda c, k: c.reset_batches(), lambda m, k: m.reset()),
           ("save and load", lambda c, k: ACT_Controller.load(c.save()), lambda m, k: m),
           ("flatten", lambda c, k: flat(c), lambda m, k: m),
           ("edit", lambda c, k: lib.TensorEditor.edit_controller(c).build(), lambda m, k: m)]
    if not low:
        ops.append(("compiled iterate", lambda c, k: lib.j_iterate(w.cached(c, k + 1), w_h(w, 1)), lambda m, k: w.mcached(m, k + 1).iterate(w.h(1))))
    front = [(c0, m0, ())]
    seen = set()
    for d in range(task["depth"]):
        nxt = []
        for c, m, h in front:
            for name, f, g in ops:
                hh = h + (name,)
                case = lambda: {"struct": task["struct"], "core": task["core"], "dtypes": combo, "history": hh}
                try:
                    c2 = f(c, d)
                except Exception as e:
                    e.mc_case = case()
                    raise
                m2 = g(m, d)
                R.trans()
                R.checks += 1
                s2 = w.signature(c2)
                if s2 != sig:
                    R.violation(case(), "structure, shapes or dtypes changed: %s" % diff_sig(sig, s2))
                w.compare(R, c2, m2, case)
                R.state((combo, task["struct"], task["core"], m2.key()))
                # two forms of the same state both continue: the identities only once
                key = (name in ("save and load", "flatten", "edit", "compiled iterate") and name, m2.key())
                if key not in seen:
                    seen.add(key)
                    nxt.append((c2, m2, hh))
        front = nxt
        R.trace(len(nxt))
    R.outcome((task["struct"], task["core"]))
    R.sample({"struct": task["struct"], "core": task["core"], "dtypes": list(combo), "history": list(front[-1][2]) if front else []})


def w_h(w, k):
    return w.lib.jnp.asarray(w.h(k), w.lib.DT[w.core])


def diff_sig(a, b):
    if a[0] != b[0]:
        return "%s instead of %s" % (b[0], a[0])
    return "; ".join("leaf %d is %s instead of %s" % (i, y, x) for i, (x, y) in enumerate(zip(a[1], b[1])) if x != y)


def run_updates(task, R):
    """Updates of another dtype than their accumulator: refused, or the dtype stays."""
    from .. import lib
    jnp = lib.jnp
    D = ("f4", "b2", "f8") if task["x64"] else ("f4", "b2", "f2")
    ints = (jnp.int32, jnp.bool_, jnp.uint8)
    for core in D:
        for acc in D:
            for upd in [lib.DT[x] for x in D] + list(ints):
                for wrap in (lambda x: x, lambda x: [x, (x,)]):
                    for how in ("eager", "jit", "edited"):
                        if how == "jit" and "f2" in (core, acc) or how == "jit" and upd == jnp.float16:
                            continue
                        b = lib.ControllerBuilder.new_builder([2], lib.DT[core], 0.25)
                        c = b.define_accumulator_directly("a", wrap(jnp.asarray([[1.0], [2.0]], lib.DT[acc]))).build()
                        u = wrap(jnp.asarray([[1], [0]], upd))
                        h = jnp.asarray([0.5, 1.0], lib.DT[core])
                        f = lambda c, u: (lib.TensorEditor.edit_controller(c, "silence").set_updates("a", u).build() if how == "edited" else c.cache_update("a", u)).iterate_act(h)
                        if how == "jit":
                            f = lib.jax.jit(f)
                        case = {"core": core, "accumulator": acc, "update": jnp.dtype(upd).name, "how": how}
                        R.trans()
                        R.checks += 1
                        R.state(str(case))
                        try:
                            c2 = f(c, u)
                        except Exception as e:
                            R.outcome((str(case), "refused"))
                            continue
                        R.outcome((str(case), "kept"))
                        x, y = (lib.jax.tree_util.tree_flatten(t) for t in (c, c2))
                        sig = [[(jnp.shape(v), jnp.result_type(v)) for v in t[0]] for t in (x, y)]
                        if x[1] != y[1] or sig[0] != sig[1]:
                            R.violation(case, "committing an update of another dtype: %s" % diff_sig((x[1], sig[0]), (y[1], sig[1])))
                        elif not all(lib.close(lib.arr(v), [[1.5], [2.0]], 1e-2) for v in lib.jax.tree_util.tree_leaves(c2["a"])):
                            R.violation(case, "an accepted update of another dtype gives %s" % lib.short(lib.tmap_any(lib.arr, c2["a"])))
    R.trace(R.transitions)
    R.sample({"dtypes": list(D)})


def carry(task, combo, R):
    from .. import lib
    w = World(task, combo)
    jax, jnp = lib.jax, lib.jnp
    c0, m0 = w.fresh()
    sig = w.signature(c0)
    H = jnp.stack([w_h(w, k % 2) for k in range(4)])

    def step(c, k):
        return w.cached(c, 2).iterate_act(H[k])

    def loop_while(c):
        return jax.lax.while_loop(lambda s: s[1] < 3, lambda s: (step(s[0], s[1]), s[1] + 1), (c, 0))[0]

    def loop_reset(c):
        return jax.lax.fori_loop(0, 3, lambda i, c: step(c, i).reset_batches(), c)

    def loop_scan(c):
        return jax.lax.scan(lambda c, h: (w.cached(c, 2).iterate_act(h), c.halted_batches), c, H[:3])[0]

    def loop_cond(c):
        return jax.lax.cond(jnp.asarray(True), lambda c: step(step(c, 0), 1).reset_batches(), lambda c: c, c)
    up = lambda m, k: w.mcached(m, 2).iterate(w.h(k % 2))
    m3 = up(up(up(m0, 0), 1), 2)
    mr = m0
    for k in range(3):
        mr = up(mr, k).reset()
    want = [("while", loop_while, m3), ("fori with resets", loop_reset, mr), ("scan", loop_scan, m3), ("cond", loop_cond, up(up(m0, 0), 1).reset())]
    for name, f, m in want:
        for how in ("eager", "jit"):
            case = lambda: {"struct": task["struct"], "core": task["core"], "dtypes": combo, "loop": name, "how": how}
            try:
                c = (jax.jit(f) if how == "jit" else f)(c0)
            except Exception as e:
                e.mc_case = case()
                raise
            R.trans(3)
            R.checks += 1
            s2 = w.signature(c)
            if s2 != sig:
                R.violation(case(), "structure, shapes or dtypes changed: %s" % diff_sig(sig, s2))
            w.compare(R, c, m, case)
            R.state((task["struct"], task["core"], combo, name, how))
            R.trace()
    R.outcome((task["struct"], task["core"], "carry"))
