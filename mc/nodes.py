"""
The containers that trees are made of, in the checks: tuples, lists, dictionaries, and what users register besides: named tuples,
ordered dictionaries, dataclasses, classes with auxiliary data, subclasses of builtin containers. No jax in here; lib registers them.
"""
import dataclasses
from collections import OrderedDict, namedtuple

Pt = namedtuple("Pt", ("y", "x"))


@dataclasses.dataclass
class Rec:
    """A dataclass with two children and a static field."""
    second: object
    first: object
    tag: str = "rec"


class Box:
    """A registered class: a sequence of children, and a label as auxiliary data."""
    def __init__(self, items, label):
        self.items, self.label = tuple(items), label

    def __repr__(self):
        return "Box(%r, %r)" % (self.items, self.label)

    def __eq__(self, other):
        raise TypeError("boxes are not compared")

    __hash__ = None


def kids(t):
    """None for a leaf, else the children in the order of jax."""
    if isinstance(t, OrderedDict):
        return [t[k] for k in t]
    if isinstance(t, dict):
        return [t[k] for k in sorted(t)]
    if isinstance(t, (tuple, list)):
        return list(t)
    if isinstance(t, Rec):
        return [t.second, t.first]
    if isinstance(t, Box):
        return list(t.items)
    return None


def rebuild(t, ch):
    """A container like t with the children ch, in the order of kids."""
    if isinstance(t, OrderedDict):
        return type(t)(zip(t, ch))
    if isinstance(t, dict):
        m = dict(zip(sorted(t), ch))
        return {k: m[k] for k in t}
    if isinstance(t, Pt):
        return Pt(*ch)
    if isinstance(t, (tuple, list)):
        return type(t)(ch)
    if isinstance(t, Rec):
        return Rec(ch[0], ch[1], t.tag)
    return Box(ch, t.label)


def kind(t):
    """What two containers at the same place have to agree in; None for a leaf."""
    if isinstance(t, OrderedDict):
        return (type(t), tuple(t))
    if isinstance(t, dict):
        return (dict, tuple(sorted(t)))
    if isinstance(t, (tuple, list)):
        return (type(t), len(t))
    if isinstance(t, Rec):
        return (Rec, t.tag)
    if isinstance(t, Box):
        return (Box, len(t.items), t.label)
    return None
