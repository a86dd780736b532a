"""
A parametric ACT layer for the execute_act properties: its halting probabilities
are a table carried in the state, so one layer runs every schedule.
"""
import numpy as np
import jax
from jax import numpy as jnp

from src.jax_act import AbstractACTTemplate, ACT_Controller, TensorEditor
from . import lib
from .model import tmap


class Layer(AbstractACTTemplate):
    """
    state: container of (step counter, x, table [T, *batch]) of one of several kinds.
    start: "fresh", "some" or "all" (elements halted before the loop), "mass"; these with iterations done.
    """

    def __init__(self, cfg, kind="tuple", start="fresh", count=False):
        self.cfg, self.kind, self.start, self.count = cfg, kind, start, count
        self.calls, self.traced, self.lazy, self.made = 0, 0, [], []

    # ---- state containers
    def pack(self, step, x, table):
        return {"tuple": lambda: (step, x, table), "list": lambda: [table, [x], step],
                "dict": lambda: {"z": {"step": step}, "a": (table,), "x": x}, "nest": lambda: ((((step,),), {}), [x, (table, ())])}[self.kind]()

    def unpack(self, s):
        return {"tuple": lambda: s, "list": lambda: (s[2], s[1][0], s[0]),
                "dict": lambda: (s["z"]["step"], s["x"], s["a"][0]), "nest": lambda: (s[0][0][0][0], s[1][0], s[1][1][0])}[self.kind]()

    def initial(self, table):
        return self.pack(jnp.asarray(0, jnp.int32), jnp.asarray(1.0, jnp.float32), table)

    # ---- contract
    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        self.made.append((args, dict(kwargs)))
        cfg = self.cfg
        eps = kwargs.get("eps", cfg.eps)
        shift = args[0] if args else 0.0
        b = self.new_builder(list(cfg.batch), lib.DT[cfg.dt], eps, depression_constant)
        d = cfg.defaults()
        for nm in cfg.names:
            b = b.define_accumulator_directly(nm, jax.tree_util.tree_map(lambda a: a + jnp.asarray(shift, a.dtype), cfg.tree(nm, d[nm])))
        c = b.build()
        p, r, n = self.start_p(), self.start_r(), self.start_n()
        if p is not None:
            c = TensorEditor.edit_controller(c, "silence").set_probabilities(cfg.h(p)).set_residuals(cfg.h(r)).set_iterations(cfg.h(n)).build()
        return c

    def start_p(self):
        cfg = self.cfg
        i = np.arange(cfg.n).reshape(cfg.batch)
        return {"fresh": None, "all": np.ones(cfg.batch), "some": np.where(i % 2 == 0, 1.0, 0.25), "mass": np.where(i % 2 == 0, 0.5, 0.25)}[self.start]

    def start_r(self):
        """Halted ones have a residual, as after real iterations."""
        p = self.start_p()
        return None if p is None else np.where(p == 1.0, 0.5, 0.0)

    def start_n(self):
        p = self.start_p()
        return None if p is None else np.where(p == 1.0, 7.0, 4.0) if self.start != "mass" else np.full(self.cfg.batch, 2.0)

    def setup_lazy_parameters(self, controller, state):
        self.lazy.append((controller, state))

    def run_iteration(self, controller, state):
        self.traced += 1
        if self.count:
            jax.debug.callback(self.tick)
        step, x, table = self.unpack(state)
        h = table[step % table.shape[0]]
        for nm in self.cfg.names:
            u = jax.tree_util.tree_map(lambda a: a + (step % 4).astype(a.dtype), self.cfg.tree(nm, self.cfg.updates(0)[nm]))
            controller = controller.cache_update(nm, u)
        controller = controller.iterate_act(h)
        return controller, self.pack(step + 1, x * 0.5 + 1, table)

    def tick(self):
        self.calls += 1

    # ---- reference
    def model_updates(self, step, lead=()):
        u = self.cfg.updates(0)
        return {k: tmap(lambda a: np.broadcast_to(a + step % 4, tuple(lead) + a.shape), t) for k, t in u.items()}

    def plain(self, state, dep, max_iterations, *args, **kwargs):
        """The documented loop, with the real code."""
        c = self.make_controller(state, dep, *args, **kwargs)
        n = 0
        while not bool(c.is_completely_halted) and n < max_iterations:
            c, state = self.run_iteration(c, state)
            n += 1
        return c, state, n
