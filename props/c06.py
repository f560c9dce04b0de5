"""C06: edge detectors, delays, strobe stretcher, pulse and NRZI encoders."""
from hwsa.util import *

EXPLANATION = """
The statements the helpers add to a module are analysed as hardware IR.  The automaton remembers the input's
provenance tokens of the last cycles; the output must be the specified canonical function of those tokens in every
reachable location (all histories), and every register must be clocked by the requested domain.
"""
MUST = ["edge", "past", "stretch", "pulse", "nrzi", "clock"]


def helper(kind, width, domain, name, signed=False):
    def task(r):
        from amlib import utils
        from amaranth import signed as sg

        def mk():
            m = Module()
            h = Harness(m)
            h.i = Signal(sg(width) if signed else width, name="i")
            if kind == "past":
                h.o = utils.past_value_of(m, h.i, domain=domain)
            else:
                fn = dict(rising=utils.rising_edge_detected, falling=utils.falling_edge_detected,
                          any=utils.any_edge_detected)[kind]
                h.o = fn(m, h.i) if domain is None else fn(m, h.i, domain=domain)
            return h

        def spec(h):
            def step(o, t):
                last = o[0]
                now = t.val(h.i)
                if kind == "past":
                    t.same(h.o, last, "past", "must be the value of the signal one cycle ago", h.o)
                else:
                    b = t.f.comp.ops
                    if kind == "any":
                        n = t.m.NOT(t.eq(now, last))
                    elif kind == "rising":
                        n = t.m.AND(t.node(now), t.m.NOT(t.node(last)))
                    else:
                        n = t.m.AND(t.m.NOT(t.node(now)), t.node(last))
                    t.same(h.o, V((n,) if n > 1 else n, 1), "edge", "must be high exactly in the cycle of a %s edge" % kind, h.o)
                return (now,)
            return ports(("d", "i", h.i)), Auto((K(0, width),), step), dict(
                clock=domain or "sync", must=["past" if kind == "past" else "edge"])
        flow_task(r, mk, spec, config=name)
    return name, task


def stretch(n, delay, own, dom, name):
    def task(r):
        from amlib.utils import stretch_strobe_signal

        def mk():
            m = Module()
            h = Harness(m)
            h.i = Signal(name="strobe")
            kw = dict(domain=m.d[dom]) if dom else {}
            if own:
                kw["output"] = Signal(name="stretched")
            h.o = stretch_strobe_signal(m, h.i, to_cycles=n, allow_delay=delay, **kw)
            if own:
                assert h.o is kw["output"] or r.bad("stretch", "must return the given output")
            return h

        def spec(h):
            def step(o, t):
                now = t.val(h.i)
                win = (o[:n] if delay and n > 1 else (now,) + o[:n - 1])
                acc = 0
                for x in win:
                    acc = t.m.OR(acc, t.node(x))
                t.same(h.o, V((acc,) if acc > 1 else acc, 1), "stretch",
                       "must be high exactly for the %d cycles that start %s the strobe" % (n, "after" if delay else "with"), h.o)
                return ((now,) + o)[:n]
            return ports(("d", "strobe", h.i)), Auto((K(0, 1),) * n, step), dict(
                must=["stretch"], clock=dom or "sync")
        flow_task(r, mk, spec, config=name)
    return name, task


def pulse(r):
    from amlib.utils import EdgeToPulse

    def spec(d):
        def step(o, t):
            now = t.val(d.edge_in)
            n = t.m.AND(t.node(now), t.m.NOT(t.node(o[0])))
            t.same(d.pulse_out, V((n,) if n > 1 else n, 1), "pulse", "must be high exactly in the first cycle of a high input", d.pulse_out)
            return (now,)
        return ports(("d", "edge_in", d.edge_in)), Auto((K(0, 1),), step), dict(must=["pulse"])
    flow_task(r, EdgeToPulse, spec)


def nrzi(r):
    from amlib.utils import NRZIEncoder

    def spec(d):
        def step(o, t):
            t.same(d.nrzi_out, int(o[0]), "nrzi", "output must toggle exactly after each one bit and hold after each zero bit", d.nrzi_out)
            return (o[0] ^ t.bit(d.data_in),)
        return ports(("c", "data_in", d.data_in)), Auto((False,), step), dict(must=["nrzi"])
    flow_task(r, NRZIEncoder, spec)


def tasks(tier):
    ts = []
    for k in ("rising", "falling", "any"):
        for d in (None, "usb"):
            ts.append(helper(k, 1, d, "%s edge, domain %s" % (k, d)))
    for w in (2, 8) + ((12, 40) if tier == "thorough" else (12,)):
        ts.append(helper("any", w, "fast", "any edge, %d bits" % w))
    for w in (1, 2, 8) + (24, 33):
        ts.append(helper("past", w, "sync" if w > 1 else "usb", "past value, %d bits" % w))
    ts.append(helper("past", 6, "sync", "past value, signed", signed=True))
    ns = (1, 2, 3, 5) + (4, 8, 13, 20, 33) + ((64, 100, 300) if tier == "thorough" else ())
    for n in ns:
        for delay in (False, True):
            ts.append(stretch(n, delay, n % 2 == 1, None if n != 3 else "usb", "stretch to %d%s" % (n, " delayed" if delay else "")))
    ts += [("EdgeToPulse", pulse), ("NRZIEncoder", nrzi)]
    return ts
