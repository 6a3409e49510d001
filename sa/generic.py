"""Injected containers with one tracked element and an arbitrary rest: what happens to *every* element."""
from .terms import *
from .state import *


def obj(st, name, h):
    t = mk('obj', 'given:' + name, name, 0, '')
    return st.setheap(t, h), t


def mkdict(st, name, known, base=None, rest=()):
    return obj(st, name, H(DICT, [(const(k) if not isinstance(k, T) else k, const(v) if not isinstance(v, T) else v) for k, v in known], frozenset(rest), base))


def others(name):
    """any number of further entries of a mapping, none of them a tracked key"""
    b = sym(name); k = mk('key', b)
    return [(k, mk('sub', b, k), frozenset())]


def mklist(st, name, known, base=None): return obj(st, name, H(LIST, known, (), base))


def contents(st, t):
    """definite and possible members of a container value; phi values give the alternatives"""
    h = st.heap.get(t)
    if h is None: return [], []
    return list(h.known), [v for _, v, _ in h.rest] + ([elem(h.base)] if h.base is not None else [])
