"""
Reference model of the ACT process, written independently of the code under
test: plain numpy float64, one array per quantity, nested python containers
for trees.  No jax in here.
"""
import numpy as np
from . import nodes


class Reject(Exception):
    """The model says the operation must be refused with one of `kinds`."""

    def __init__(self, *kinds):
        super().__init__(str(kinds))
        self.kinds = kinds


# ---------------------------------------------------------------- trees

def tmap(f, *ts):
    """Map over trees of identical structure (containers of nodes.py, None, leaf)."""
    t = ts[0]
    if t is None:
        return None
    if nodes.kids(t) is None:
        return f(*ts)
    return nodes.rebuild(t, [tmap(f, *xs) for xs in zip(*map(nodes.kids, ts))])


def tleaves(t):
    """Leaves in depth-first order, dictionaries by sorted key."""
    if t is None:
        return []
    ch = nodes.kids(t)
    return [t] if ch is None else [l for x in ch for l in tleaves(x)]


def same_structure(a, b):
    if a is None or b is None:
        return a is b
    return nodes.kind(a) == nodes.kind(b) and all(map(same_structure, nodes.kids(a) or (), nodes.kids(b) or ()))


def left(x, ndim):
    """x with trailing unit axes so that it has ndim axes."""
    x = np.asarray(x)
    return x.reshape(x.shape + (1,) * (ndim - x.ndim))


# ---------------------------------------------------------------- state

class Model:
    """All contents of a controller."""
    __slots__ = ("eps", "dep", "p", "r", "n", "dft", "acc", "upd")

    def __init__(self, eps, dep, p, r, n, dft, acc, upd):
        self.eps, self.dep = float(eps), float(dep)
        self.p, self.r, self.n = p, r, n
        self.dft, self.acc, self.upd = dft, acc, upd

    @staticmethod
    def fresh(batch, eps, dep, definitions):
        z = np.zeros(batch)
        return Model(eps, dep, z, z.copy(), z.copy(), dict(definitions), dict(definitions),
                     {k: None for k in definitions})

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return Model(**d)

    # ---- reports
    @property
    def halted(self):
        return (self.p > 1 - self.eps) | (self.p >= 1)

    @property
    def ready(self):
        return all(v is not None for v in self.upd.values())

    @property
    def cached(self):
        return any(v is not None for v in self.upd.values())

    # ---- operations
    def cache(self, name, tree):
        if name not in self.upd:
            raise Reject(ValueError)
        if self.upd[name] is not None:
            raise Reject(RuntimeError)
        upd = dict(self.upd)
        upd[name] = tree
        return self.but(upd=upd)

    def weights(self, h):
        """Growth of the probability in an iteration, and who halts in it."""
        h = self.dep * np.clip(np.asarray(h, dtype=np.float64), 0.0, 1.0)
        total = self.p + h
        over = (total > 1 - self.eps) | (total >= 1)
        w = np.where(over, 1 - self.p, h)
        return np.where(self.halted, 0.0, w), over & ~self.halted

    def iterate(self, h):
        if np.shape(h) != self.p.shape:
            raise Reject(ValueError)
        for name, acc in self.acc.items():
            u = self.upd[name]
            if u is None:
                raise Reject(RuntimeError)
            la, lu = tleaves(acc), tleaves(u)
            if len(la) != len(lu) or any(a.shape != b.shape for a, b in zip(la, lu)):
                raise Reject(RuntimeError)
        w, newly = self.weights(h)
        halted = self.halted

        def add(a, u):
            with np.errstate(all="ignore"):
                grown = a + left(w, a.ndim) * u
            return np.where(np.broadcast_to(left(halted, a.ndim), a.shape), a, grown)

        return self.but(
            p=self.p + w,
            r=np.where(newly, 1 - self.p, self.r),
            n=self.n + np.where(halted, 0, 1),
            acc={k: tmap(add, a, self.upd[k]) for k, a in self.acc.items()},
            upd={k: None for k in self.upd})

    def reset(self):
        if self.cached:
            raise Reject(RuntimeError)
        h = self.halted
        z = lambda x: np.where(h, 0.0, x)
        sel = lambda a, d: np.where(np.broadcast_to(left(h, a.ndim), a.shape), d, a)
        return self.but(p=z(self.p), r=z(self.r), n=z(self.n),
                        acc={k: tmap(sel, a, self.dft[k]) for k, a in self.acc.items()})

    def mask(self, m):
        f = lambda x: np.where(np.broadcast_to(left(m, x.ndim), x.shape), x, 0.0)
        return self.transform(f)

    def transform(self, f):
        t = lambda d: {k: tmap(f, v) for k, v in d.items()}
        return self.but(p=f(self.p), r=f(self.r), n=f(self.n),
                        acc=t(self.acc), dft=t(self.dft), upd=t(self.upd))

    def key(self):
        """Canonical hashable form: equal keys have equal futures."""
        out = [self.eps, self.dep]
        for a in (self.p, self.r, self.n):
            out.append((a.shape, np.round(a, 7).tobytes()))
        for d in (self.dft, self.acc, self.upd):
            for k in sorted(d):
                out.append((k, d[k] is None) + tuple(
                    (l.shape, (np.round(l, 7) + 0.0).tobytes()) for l in tleaves(d[k])))
        return tuple(out)
