from amaranth import Module, Signal, Elaboratable
from .check import flow_task, build, Anchor, anchor
from .flow import Flow, V, K, cat, NeedSplit


class Stateless:
    """automaton with a single state: obligations on every cycle"""

    def __init__(self, fn):
        self.fn = fn

    def init(self, flow):
        return ()

    def step(self, o, t):
        self.fn(t)
        return ()


class Auto:
    """automaton from two functions"""

    def __init__(self, init, step):
        self._i, self._s = init, step

    def init(self, flow):
        return self._i

    def step(self, o, t):
        return self._s(o, t)


class Harness(Elaboratable):
    """statements produced by a library helper, wrapped into a module"""

    def __init__(self, module):
        self.module = module

    def elaborate(self, platform):
        return self.module


def ports(*items):
    """[(name, signal, kind)] from (kind, name, signal) shorthand"""
    return [(n, s, k) for k, n, s in items]


def stream_inputs(prefix, s, extra=(), driven=True):
    """ports of a stream the environment originates"""
    out = [(prefix + ".valid", s.valid, "c"), (prefix + ".first", s.first, "d"), (prefix + ".last", s.last, "d"),
           (prefix + ".payload", s.payload, "d")]
    for e in extra:
        out.append((prefix + "." + e, s[e], "d"))
    return out
