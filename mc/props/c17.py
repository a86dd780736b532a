"""C17: edits change exactly their target."""
import itertools
import numpy as np

BOUNDS = ("all sequences of up to 2-3 setters (thorough 3-4) with up to 8 targets x 2-3 values each in one editor, both error "
          "modes, opened on a controller, its save, a viewer's save and a rebuilt editor, from 4 base states with different "
          "pending updates, 20 accumulator sets, batch ranks 0-2; after each setter the editor, its build and its source are "
          "observed, and the built controllers are run on for three steps in lockstep with the model; eager and compiled")
ASSUMPTIONS = ["dyadic values, so that the run is compared within 1e-6"]
ALL = ("vec", "one", "two", "swap", "tuple", "dict", "nested", "empties", "hollow", "five", "names", "mat", "hi", "unit", "list", "b2", "mixdt", "none", "record", "kinds")


def tasks(tier):
    th = tier == "thorough"
    t = []
    small = ((2,), (), (1, 2), (3,), (2, 2), (1,))
    for i, a in enumerate(ALL):
        for j in range(3 if th else 1):
            t.append(dict(batch=small[(i + j) % 6], acc=a, eps=(1e-4, 0.25, 0.5)[(i + j) % 3], dep=(1.0, 0.5)[i % 2], depth=2, base=(i + j) % 4, alpha="full" if a in ("one", "vec", "two") or th and j == 0 else "few",
                          mode=("standard", "silence")[(i + j) % 2], open=("controller", "save", "view", "rebuilt")[(i // 2 + j) % 4], cost=4))
    for i, (a, b) in enumerate((("one", (2,)), ("vec", ()), ("two", (2,)), ("swap", (3,)))):
        t.append(dict(batch=b, acc=a, eps=0.25, dep=(1.0, 0.5)[i % 2], depth=3, base=i, alpha="few", mode="standard" if th or i < 2 else "silence", open=("save", "controller", "rebuilt", "view")[i], cost=9))
        t.append(dict(batch=b, acc=a, eps=0.5, dep=1.0, depth=3, base=(i + 2) % 4, alpha="few", mode="standard" if th and i % 2 == 0 else "silence", open=("controller", "view", "save", "rebuilt")[i], cost=9))
    t.append(dict(batch=(2,), acc="one", eps=0.25, dep=1.0, depth=4 if th else 3, base=1, alpha="full" if not th else "few", mode="silence", open="controller", cost=9))
    for i, w in enumerate(("updates", "defaults", "both")):
        t.append(dict(batch=(2,), acc="swap", alias=w, eps=0.25, dep=1.0, depth=3 if th else 2, base=i + 1, alpha="full", mode=("standard", "silence")[i % 2], open="controller", cost=5))
    t.append(dict(batch=(2,), acc="f8", dt="f8", eps=0.25, dep=1.0, depth=2, base=1, alpha="few", mode="standard", open="controller", x64=True))
    for i, a in enumerate(("one", "two", "nested", "five")):
        t.append(dict(batch=((2,), (), (3,), (1, 2))[i], acc=a, eps=0.25, dep=1.0, depth=1, base=i, alpha="full", mode="standard", open="controller", jit=True, cost=4))
    return t


def setters(cfg, alpha):
    full = alpha == "full"
    ops = [("eps", 0.5), ("setp", 0), ("setr", 0), ("setn", 0)]
    if full:
        ops += [("eps", 0.25), ("eps", 0.0), ("eps", 1.0), ("setp", 1), ("setr", 1), ("setn", 1)]
    for nm in cfg.names if full else cfg.names[:2]:
        ops += [("seta", nm, 5), ("setd", nm, 6), ("setu", nm, 1), ("setu", nm, None)]
        if full:
            ops += [("seta", nm, 7), ("setd", nm, 8), ("setu", nm, 2)]
    return ops


def apply_editor(cfg, ed, op):
    from .. import families
    k = op[0]
    if k == "eps":
        return ed.set_epsilon(op[1])
    if k in ("setp", "setr", "setn"):
        f = {"setp": ed.set_probabilities, "setr": ed.set_residuals, "setn": ed.set_iterations}[k]
        return f(cfg.h(families.edit_values(cfg, k, op[1])))
    f = {"seta": ed.set_accumulator, "setd": ed.set_defaults, "setu": ed.set_updates}[k]
    return f(op[1], None if op[2] is None else cfg.tree(op[1], cfg.updates(op[2])[op[1]]))


def base_state(cfg, which):
    """0: fresh, 1: after a step with one update pending, 2: two steps, all pending, 3: after steps and a reset."""
    from .. import lib
    c, m = cfg.controller(), cfg.model()
    pat = np.array(([0.5, 1.0, 0.25, 0.75] * 2)[:cfg.n]).reshape(cfg.batch)
    for k in range((0, 1, 2, 2)[which]):
        c = lib.cache_all(c, cfg, k).iterate_act(cfg.h(pat))
        m = lib.model_cache_all(m, cfg, k).iterate(pat)
    if which == 3:
        c, m = c.reset_batches(), m.reset()
    names = {0: [], 1: cfg.names[:1], 2: cfg.names, 3: cfg.names[1:2]}[which]
    for nm in names:
        c = c.cache_update(nm, cfg.tree(nm, cfg.updates(3)[nm]))
        m = m.cache(nm, cfg.updates(3)[nm])
    return c, m


def run(task, R):
    from .. import lib, families
    cfg = lib.cfg_of({k: v for k, v in task.items() if k not in ("mode",)})
    TE = lib.TensorEditor
    c0, m0 = base_state(cfg, task["base"])
    mode = task["mode"]
    args = [] if mode == "standard" else [mode]
    root = {"controller": lambda: TE.edit_controller(c0, *args), "save": lambda: TE.edit_save(c0.save(), *args),
            "view": lambda: TE.edit_save(c0.make_viewer().save(), *args),
            "rebuilt": lambda: TE.edit_controller(TE.edit_controller(c0, "silence").build(), *args)}[task["open"]]()
    ops = setters(cfg, task["alpha"])
    before = lib.observe(c0)
    low = any(l.dt in ("b2", "f2") for nm in cfg.names for l in lib.leaf_specs(cfg.spec[nm]))
    ran = set()

    def refuses(ed):
        try:
            ed.set_epsilon(-0.5)
        except Exception:
            return True
        return False

    def examine(ed, m, case):
        R.checks += 3
        want = lib.model_obs(m)
        d = lib.differs({k: v for k, v in lib.observe(ed).items() if k != "dep"}, want)
        if d:
            R.violation(case, "editor: %s" % d)
        if refuses(ed) != (mode == "standard"):
            R.violation(case, "the editor of mode %s %s an epsilon of -0.5" % (mode, "refuses" if refuses(ed) else "accepts"))
        c = ed.build()
        d = lib.differs(lib.observe(c), want)
        if d:
            R.violation(case, "built controller: %s" % d)
        rep = lib.reports(c)
        if not np.array_equal(rep["halted"], m.halted) or rep["ready"] != m.ready or rep["cached"] != m.cached or abs(rep["thr"] - (1 - m.eps)) > 1e-6:
            R.violation(case, "built controller reports %s" % lib.short({k: np.asarray(v) for k, v in rep.items()}))
        return c

    def go_on(c, m, case):
        key = m.key()
        if key in ran:
            return
        ran.add(key)
        R.state(key)
        pat = np.array(([0.25, 0.5, 1.0, 0.75] * 2)[:cfg.n]).reshape(cfg.batch)
        for what in ("iterate", "reset", "iterate"):
            if what == "iterate":
                for nm in cfg.names:
                    if m.upd[nm] is None:
                        c = c.cache_update(nm, cfg.tree(nm, cfg.updates(2)[nm]))
                        m = m.cache(nm, cfg.updates(2)[nm])
                c, m = c.iterate_act(cfg.h(pat)), m.iterate(pat)
            else:
                c, m = c.reset_batches(), m.reset()
            R.checks += 1
            R.trans()
            d = lib.differs(lib.observe(c), lib.model_obs(m), tol=2e-2 if low else 1e-6)
            if d:
                R.violation(case, "going on from the built controller, %s: %s" % (what, d))

    def rec(ed, m, hist):
        case = {"task": task, "setters": hist}
        c = examine(ed, m, case)
        go_on(c, m, case)
        if len(hist) < task["depth"]:
            for op in ops:
                R.trans()
                rec(apply_editor(cfg, ed, op), families.apply_model(cfg, m, op), hist + [op])
            R.checks += 1
            d = lib.differs({k: v for k, v in lib.observe(ed).items() if k != "dep"}, lib.model_obs(m))
            if d:
                R.violation(case, "after edits forked from it, the editor: %s" % d)
        else:
            R.trace()

    def compiled():
        """Each single setter inside a compiled function, silent, with the value closed over or passed in."""
        import jax
        for op in ops:
            if op[0] == "setu" and op[2] is None:
                continue
            for how in ("silence", "checked"):
                R.trans()
                if how == "silence":
                    f = jax.jit(lambda c: apply_editor(cfg, TE.edit_controller(c, "silence"), op).build())
                else:
                    from src.jax_act.core import utils
                    f = utils.jit_and_checkify(lambda c: apply_editor(cfg, TE.edit_controller(c), op).build())
                c, m = f(c0), families.apply_model(cfg, m0, op)
                R.checks += 1
                case = {"task": task, "setters": [op], "how": how}
                d = lib.differs(lib.observe(c), lib.model_obs(m))
                if d:
                    R.violation(case, "compiled edit: %s" % d)
                ran.discard(m.key())
                go_on(c, m, case)
    if task.get("jit"):
        compiled()
    rec(root, m0, [])
    R.checks += 1
    d = lib.same_obs(lib.observe(c0), before)
    if d:
        R.violation({"task": task}, "editing changed the controller edited: %s" % d)
    R.outcome((cfg.accname, len(ran)))
    R.sample({"setters": ops[:6], "states": len(ran)})
