"""C18: verdicts of the editor's validation."""
import itertools
from collections import OrderedDict, namedtuple
import numpy as np
from .. import nodes

BOUNDS = ("every setter, with valid values at and inside every bound and one fault at every single place: every element for "
          "content (7 bad values), 9 kinds of wrong shape, 6 dtypes, every node of the tree for structure (up to 14 mutations, other kinds of containers and other auxiliary data included), every leaf for "
          "shape and dtype; 20 accumulator sets, batch ranks 0-2, 4 base states, directly and after every chain of up to 2 valid "
          "edits; states that hold invalid values or unfitting updates; standard, silent and compiled-and-checked")
ASSUMPTIONS = ["a rejection is any exception", "replacement leaves are jax arrays", "iteration counts are finite"]
ALL = ("vec", "one", "two", "swap", "tuple", "dict", "nested", "empties", "hollow", "five", "names", "mat", "hi", "unit", "list", "b2", "mixdt", "f2", "record", "kinds")


def tasks(tier):
    th = tier == "thorough"
    t = []
    small = ((2,), (), (1, 2), (3,), (2, 2), (1,))
    for i, b in enumerate(small):
        for dt in ("f4", "b2", "f2"):
            t.append(dict(kind="core", batch=b, dt=dt, acc="one", base=i % 4, cost=5))
        t.append(dict(kind="core", batch=b, acc="two", base=(i + 2) % 4, eps=0.25, chain=2 if th else 1, cost=5))
        if i in (0, 2, 5):
            t.append(dict(kind="core", batch=b, acc="one", base=i % 4, kept="all" if th else "some", dt=("f4", "b2")[i == 5], cost=5))
        if i in (0, 1, 4):
            t.append(dict(kind="core", batch=b, acc="vec", base=1, how="jit", cost=5))
    t.append(dict(kind="core", batch=(2,), dt="f8", acc="f8", base=1, x64=True, cost=4))
    t.append(dict(kind="core", batch=(2,), dt="f8", acc="f8", base=1, x64=True, how="jit", cost=4))
    for i, a in enumerate(ALL):
        for j in range(3 if th else 1):
            t.append(dict(kind="tree", batch=small[(i + j) % 6], acc=a, base=(i + j) % 4, eps=0.25, cost=6))
        if a not in ("f2", "mixdt") and (th or a in ("vec", "tuple", "b2", "empties")):
            t.append(dict(kind="tree", batch=small[(i + 2) % 6], acc=a, base=1 + i % 3, how="jit", cost=7))
    for i, a in enumerate(("two", "tuple", "nested")):
        t.append(dict(kind="tree", batch=small[i], acc=a, base=i, eps=0.25, chain=2 if th and a == "two" else 1, cost=7))
    for i, a in enumerate(("one", "two", "tuple", "empties", "kinds")):
        t.append(dict(kind="tree", batch=small[i], acc=a, base=i % 4, eps=0.25, kept="all" if th else "some", cost=7))
    for i, (a, b) in enumerate((("wide", ()), ("many", (1,)), ("deep", (2,)), ("tall", (1,)), ("huge", ()))):
        t.append(dict(kind="tree", batch=b, acc=a, base=i % 4, eps=0.25, brief=not th, cost=8))
    t.append(dict(kind="tree", batch=(2,), acc="f8", base=1, x64=True, cost=4))
    t.append(dict(kind="mode"))
    return t


def core_values(lib, cfg, which):
    """(label, value, valid) for probabilities, residuals or iterations."""
    jnp = lib.jnp
    dt = lib.DT[cfg.dt]
    n, b = cfg.n, cfg.batch
    mk = lambda x, d=dt: jnp.asarray(np.asarray(x, dtype=np.float64).reshape(b), d)
    fi = jnp.finfo(dt)
    up, tiny = float(1 + float(fi.eps)), float(fi.tiny)
    out = [("zeros", mk(np.zeros(n)), True), ("ones", mk(np.ones(n)), True), ("halves", mk(np.full(n, 0.5)), True), ("negative zero", mk(np.full(n, -0.0)), True),
           ("mixed", mk(np.array(([0.0, 1.0, 0.25, 0.75] * 2)[:n])), True)]
    if which == "n":
        out += [("counts", mk(np.arange(n) + 1), True), ("many", mk(np.full(n, 100.0)), True)]
        bad = [-1.0, -0.5, -100.0, -float(fi.eps), float("-inf")]
    else:
        out += [("just below one", mk(np.full(n, 1 - float(fi.epsneg))), True), ("tiny", mk(np.full(n, tiny)), True)]
        bad = [-float(fi.eps), -1.0, up, 2.0, float("nan"), float("inf"), float("-inf")]
    for i in range(n):
        for base in (0.0, 0.5, 1.0):
            for v in bad:
                x = np.full(n, base)
                x[i] = v
                out.append(("%r at %d" % (v, i), mk(x), False))
    if n > 1:
        for v in bad:
            out.append(("all %r" % v, mk(np.full(n, v)), False))
    shapes = {b + (1,), b + (2,), (1,) + b, b[:-1], (1,) * len(b), b[::-1], tuple(d + 1 for d in b), (n,), b[:-1] + (1,), (2, 2, 2), (0,)} - {b}
    for s in sorted(shapes):
        out.append(("shape %s" % (s,), jnp.full(s, 0.5, dt), False))
    for d in [x for x in ("float32", "float16", "bfloat16", "int32", "bool_", "uint8") + (("float64",) if lib.jax.config.jax_enable_x64 else ()) if getattr(jnp, x) != dt]:
        out.append(("dtype %s" % d, jnp.ones(b, getattr(jnp, d)), False))
    return out


def eps_values(lib):
    jnp = lib.jnp
    good = [0.0, 1.0, 0.5, 1e-4, 1e-30, 0.999, 1 - 2.0 ** -20]
    bad = [-1e-6, -1.0, 1.0001, 2.0, float("nan"), float("inf"), float("-inf"), -1e-30, 1 + 2.0 ** -20]
    out = []
    for ok, vs in ((True, good), (False, bad)):
        for v in vs:
            out += [("%r" % v, v, ok), ("array %r" % v, jnp.asarray(v, jnp.float32), ok)]
    return out + [("int 0", 0, True), ("int 1", 1, True), ("int 2", 2, False), ("int -1", -1, False)]


def mutations(tree, arr):
    """Every tree with one node of it changed, and not equal in structure."""
    def wrap(x):
        return [("in a tuple", (x,)), ("in a list", [x]), ("in a dict", {"k": x}), ("doubled", (x, x)), ("missing", None)]

    def go(t):
        ch = nodes.kids(t)
        if ch is None:
            for l, m in wrap(t):
                yield (l, m)
            yield ("empty tuple", ())
            return
        n = len(ch)
        keys = list(t) if isinstance(t, dict) else [str(i) for i in range(n)]
        others = [tuple(ch), list(ch), dict(zip(keys, ch)), OrderedDict(zip(keys, ch)), nodes.Box(ch, "lab"), nodes.Box(ch, "other")]
        if n == 2:
            others += [nodes.Pt(*ch), namedtuple("Pt", ("y", "x"))(*ch), namedtuple("Qt", ("y", "x"))(*ch), nodes.Rec(*ch), nodes.Rec(*ch, "in"), nodes.Rec(*ch, "x")]
        if isinstance(t, OrderedDict):
            others.append(OrderedDict((k, t[k]) for k in reversed(keys)))
        for o in others:
            # the same keys in a plain dictionary in another order are the same structure
            if nodes.kind(o) != nodes.kind(t):
                yield ("as %s" % (nodes.kind(o),), o)
        if n:
            yield ("as a leaf", arr)
        if isinstance(t, dict):
            yield ("one more key", type(t)(t, zzz=arr))
            for k in t:
                yield ("without %r" % k, type(t)((j, v) for j, v in t.items() if j != k))
                yield ("%r renamed" % k, type(t)((j if j != k else j + "'", v) for j, v in t.items()))
        elif not isinstance(t, (nodes.Pt, nodes.Rec)):
            yield ("one more child", nodes.rebuild(t, ch + [arr]))
            if n:
                yield ("one child fewer", nodes.rebuild(t, ch[:-1]))
        for i in range(n):
            for l, m in go(ch[i]):
                yield ("%s at %d" % (l, i), nodes.rebuild(t, ch[:i] + [m] + ch[i + 1:]))
    for l, m in go(tree):
        yield l, m


def tree_values(lib, cfg, nm):
    """(label, value, valid) for accumulators, defaults and updates of one name."""
    jnp, jax = lib.jnp, lib.jax
    good = cfg.tree(nm, cfg.updates(1)[nm])
    out = [("other values", good, True)]
    leaves, td = jax.tree_util.tree_flatten(good)
    un = lambda ls: jax.tree_util.tree_unflatten(td, ls)
    if leaves:
        for v in (np.nan, np.inf, -1e30, 0.0):
            out.append(("all %r" % v, un([jnp.full(l.shape, v, l.dtype) for l in leaves]), True))
    for l, m in mutations(good, jnp.zeros(cfg.batch)):
        if not leaves and m is None:
            continue
        out.append(("structure: " + l, m, False))
    for i, lf in enumerate(leaves):
        def sub(x):
            ls = list(leaves)
            ls[i] = x
            return un(ls)
        s = lf.shape
        shapes = {s + (1,), (1,) + s, s[:-1], tuple(d + 1 for d in s), (1,) * len(s), s[::-1], s[:-1] + (s[-1] + 1,) if s else (1,), (0,)} - {s}
        for k in sorted(shapes):
            out.append(("leaf %d of shape %s" % (i, k), sub(jnp.ones(k, lf.dtype)), False))
        for d in ("float32", "float16", "bfloat16", "int32", "bool_", "complex64") + (("float64",) if jax.config.jax_enable_x64 else ()):
            if getattr(jnp, d) != lf.dtype:
                out.append(("leaf %d of dtype %s" % (i, d), sub(jnp.ones(s, getattr(jnp, d))), False))
    # two leaves of different shape in each other's place
    for i, j in itertools.combinations(range(len(leaves)), 2):
        if leaves[i].shape != leaves[j].shape or leaves[i].dtype != leaves[j].dtype:
            ls = list(leaves)
            ls[i], ls[j] = ls[j], ls[i]
            out.append(("leaves %d and %d exchanged" % (i, j), un(ls), False))
    return out


def run(task, R):
    from .. import lib, families
    from . import c17
    from src.jax_act.core import utils
    TE = lib.TensorEditor
    if task["kind"] == "mode":
        return modes(R, lib)
    cfg = lib.cfg_of(task)
    jit = task.get("how") == "jit"
    c0, m0 = c17.base_state(cfg, task["base"])
    o0 = lib.observe(c0)
    jax = lib.jax
    # a python float becomes a float32 in compiled code
    bits = lambda t: [np.asarray(l, np.float32) if isinstance(l, float) or getattr(l, "shape", 0) == () else np.asarray(l) for l in jax.tree_util.tree_leaves(t)]

    def same(a, b):
        a, b = bits(a), bits(b)
        return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(lib.arr(x), lib.arr(y), equal_nan=True) for x, y in zip(a, b))
    setter = {"p": lambda e, v: e.set_probabilities(v), "r": lambda e, v: e.set_residuals(v), "n": lambda e, v: e.set_iterations(v), "eps": lambda e, v: e.set_epsilon(v)}
    getter = {"p": lambda e: e.probabilities, "r": lambda e: e.residuals, "n": lambda e: e.iterations, "eps": lambda e: e.epsilon}
    items = []
    brief = task.get("brief")
    if task["kind"] == "core":
        for k in ("p", "r", "n"):
            items += [(k, l, v, ok) for l, v, ok in core_values(lib, cfg, k)]
        items += [("eps", l, v, ok) for l, v, ok in eps_values(lib)]
    else:
        for nm in cfg.names:
            values = tree_values(lib, cfg, nm)
            for k, st, gt in (("acc", "set_accumulator", "accumulators"), ("dft", "set_defaults", "defaults"), ("upd", "set_updates", "updates")):
                key = (k, nm)
                setter[key] = lambda e, v, st=st, nm=nm: getattr(e, st)(nm, v)
                getter[key] = lambda e, gt=gt, nm=nm: getattr(e, gt)[nm]
                j = -1
                for l, v, ok in values:
                    if k == "upd" and v is None:
                        continue
                    # of large trees the kinds of faults take turns from place to place
                    j += not ok
                    if brief and not ok and j % 7 != ("acc", "dft", "upd").index(k):
                        continue
                    items.append((key, l, v, ok))
                if k == "upd":
                    items.append((key, "emptied", None, True))
        for k, st in (("acc", "set_accumulator"), ("dft", "set_defaults"), ("upd", "set_updates")):
            for bad in ("no such", cfg.names[0] + " ", "probabilities_"):
                key = (k, "unknown", bad)
                setter[key] = lambda e, v, st=st, bad=bad: getattr(e, st)(bad, v)
                getter[key] = None
                items.append((key, "unknown accumulator %r" % bad, cfg.tree(cfg.names[0], cfg.updates(1)[cfg.names[0]]), False))
                if k == "upd":
                    items.append((key, "unknown accumulator %r emptied" % bad, None, False))
    funcs = {}
    if jit:
        for k in setter:
            funcs[k] = utils.jit_and_checkify(lambda c, v, s=setter[k]: s(TE.edit_controller(c), v).build())

    def verdicts(c, what, items):
        ed, quiet = TE.edit_controller(c), TE.edit_controller(c, "silence")
        for k, l, v, ok in items:
            case = {"task": task, "base": what, "target": str(k), "value": l, "how": "jit" if jit else "eager"}
            R.trans()
            R.checks += 1
            R.state((str(k), l, what))
            try:
                if jit:
                    if v is None:
                        continue
                    out, e = funcs[k](c, v), None
                    got = TE.edit_controller(out)
                else:
                    got, e = setter[k](ed, v), None
            except Exception as err:
                got, e = None, err
            R.outcome((str(k)[:8], type(e).__name__))
            if ok and e is not None:
                R.violation(case, "a valid value was rejected: %s: %s" % (type(e).__name__, str(e)[:300]))
            if not ok and e is None:
                R.violation(case, "an invalid value was accepted")
            if ok and not same(getter[k](got), v):
                R.violation(case, "the target is now %s" % lib.short(lib.tmap_any(lib.arr, getter[k](got))))
            if not jit and getter[k] is not None:
                R.checks += 1
                try:
                    q, e = setter[k](quiet, v), None
                except Exception as err:
                    q, e = None, err
                if e is not None:
                    R.violation(dict(case, mode="silence"), "rejected in silence mode: %s: %s" % (type(e).__name__, str(e)[:300]))
                if not same(getter[k](q), v):
                    R.violation(dict(case, mode="silence"), "in silence mode the target is now %s" % lib.short(lib.tmap_any(lib.arr, getter[k](q))))

    if task.get("kept"):
        # what the state already holds, valid or not, has no say
        tier_all = task["kept"] == "all"
        field = {"p": "probabilities", "r": "residuals", "n": "iterations"}
        load = lambda **kw: lib.ACT_Controller.load(c0.save().replace(**kw))
        if task["kind"] == "core":
            valid = lambda k, v: bool((v >= 0).all() and (k == "n" or (v <= 1).all()))
            for k in "prn":
                for l, v, ok in core_values(lib, cfg, k):
                    if v.shape != cfg.batch or v.dtype != lib.DT[cfg.dt]:
                        continue
                    its = [(j, "the %s it holds, %s" % (field[k], l), v, valid(j, lib.arr(v))) for j in "prn" if np.isfinite(lib.arr(v)).all() or j != "n"]
                    verdicts(load(**{field[k]: v}), "holds %s %s" % (field[k], l), its + (items[len(l)::37] if tier_all else []) + its[:1])
                    R.trace()
            for l, v, ok in eps_values(lib):
                verdicts(load(epsilon=v), "holds epsilon %s" % l, [("eps", l, v, ok)] + [i for i in items if i[0] == "eps"][len(l) % 3::3])
        else:
            for nm in cfg.names:
                for j, (l, v, ok) in enumerate(tree_values(lib, cfg, nm)):
                    if v is None:
                        continue
                    mine = [i for i in items if i[0] == ("upd", nm)]
                    its = [(("upd", nm), "the one pending", v, ok), (("acc", nm), "the one pending", v, ok), (("dft", nm), "the one pending", v, ok)]
                    verdicts(load(updates=dict(c0.save().updates, **{nm: v})), "pending %s" % l, its + mine[:2] + mine[j % 7::7 if tier_all else 31])
                    R.trace()
    verdicts(c0, "base", items)
    R.trace()
    if task.get("chain"):
        # after valid edits of this or another target the verdicts are the same
        ops = c17.setters(cfg, "few")
        for n in range(1, task["chain"] + 1):
            for seq in itertools.product(ops, repeat=n):
                ed = TE.edit_controller(c0)
                for op in seq:
                    ed = c17.apply_editor(cfg, ed, op)
                # longer chains share the values among each other
                part = items if n == 1 and len(items) <= 120 else items[sum(map(len, map(str, seq))) % 4::4]
                verdicts(ed.build(), str(seq), part)
                R.trace()
    R.checks += 1
    d = lib.same_obs(lib.observe(c0), o0)
    if d:
        R.violation({"task": task}, "the controller edited changed: %s" % d)
    R.sample({"items": len(items), "first": [[str(i[0]), i[1], i[3]] for i in items[:5]]})


def modes(R, lib):
    cfg = lib.Cfg()
    c = cfg.controller()
    TE = lib.TensorEditor
    for f, what in ((TE.edit_controller, c), (TE.edit_save, c.save())):
        for m in ("", "Standard", "silent", "raise", "standard ", "SILENCE", "debug", None, 0, 1, True, "none", "checkify", "standardsilence"):
            R.trans()
            R.checks += 1
            R.state(repr(m))
            try:
                f(what, m)
                e = None
            except Exception as err:
                e = err
            if not isinstance(e, ValueError):
                R.violation({"mode": repr(m)}, "error mode %r gave %r instead of ValueError" % (m, e))
            R.outcome(type(e).__name__)
        for m in ("standard", "silence"):
            f(what, m), f(what, error_mode=m)
    R.trace()
    R.sample("modes")
