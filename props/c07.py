"""C07: shift registers and LFSR."""
from hwsa.util import *

EXPLANATION = """
Input/output shift register and LFSR IR: the register contents are tokens; after every cycle they must be exactly the
specified arrangement (or parity) of the previous tokens, for every control history.  The LFSR step is analysed from
an arbitrary register value, so it holds on the complete state space of every degree in the table.
"""
MUST = ["in-shift", "out-shift", "lfsr-step", "lfsr-reset"]


def inreg(depth):
    def task(r):
        from amlib.utils import InputShiftRegister

        def spec(d):
            def step(o, t):
                v = o[0]
                t.same(d.value_out, v, "in-shift", "value must contain the bits shifted in since the last clear, newest in bit 0", d.value_out)
                if t.bit(d.clear_in):
                    return (K(0, depth),)
                if t.bit(d.enable_in):
                    return (cat(t.val(d.bit_in), v)[:depth],)
                return (v,)
            return (ports(("c", "clear_in", d.clear_in), ("c", "enable_in", d.enable_in), ("d", "bit_in", d.bit_in)),
                    Auto((K(0, depth),), step), dict(must=["in-shift"]))
        flow_task(r, lambda: InputShiftRegister(depth), spec)
    return "InputShiftRegister depth %d" % depth, task


def outreg(depth, rotate):
    def task(r):
        from amlib.utils import OutputShiftRegister

        def spec(d):
            def step(o, t):
                v = o[0]
                t.same(d.bit_out, v[0], "out-shift", "bit_out must be the next bit, least significant bit first", d.bit_out)
                if t.bit(d.we_in):
                    return (t.val(d.value_in),)
                if t.bit(d.enable_in):
                    return (cat(v[1:], v[0] if rotate else K(0, 1)) if depth > 1 else (v if rotate else K(0, 1)),)
                return (v,)
            return (ports(("c", "we_in", d.we_in), ("c", "enable_in", d.enable_in), ("d", "value_in", d.value_in)),
                    Auto((K(0, depth),), step), dict(must=["out-shift"]))
        flow_task(r, (lambda: OutputShiftRegister(depth, rotate=True)) if rotate else (lambda: OutputShiftRegister(depth)), spec)
    return "OutputShiftRegister depth %d%s" % (depth, " rotate" if rotate else ""), task


def lfsr(degree, taps, reset, anyval):
    def task(r):
        from amlib.utils import LinearFeedbackShiftRegister as L

        def spec(d):
            class Aut:
                def init(self, flow):
                    return (K(0, 1),)

                def step(self, o, t):
                    now = t.val(d.value)
                    if o[0] == K(0, 1):
                        if not anyval:
                            t.same(now, reset, "lfsr-reset", "must start at the reset value", d.value)
                    else:
                        t.same(now, o[1], "lfsr-step", "next value must be value<<1 with the parity of the taps in bit 0", d.value)
                    fb = K(0, 1)
                    for k in taps:
                        fb = t.xor(fb, now[k - 1])
                    return (K(1, 1), cat(fb, now[:degree - 1]) if degree > 1 else fb)
            if anyval:
                class One(Aut):
                    # one transfer from an arbitrary value covers every reachable value
                    def step(self, o, t):
                        if o[0] == "end":
                            t.assume(False)
                        n = Aut.step(self, o, t)
                        return n if o[0] == K(0, 1) else ("end",)
                return [], One(), dict(must=["lfsr-step"], reset_unknown=[d.value], keep=[d.value])
            return [], Aut(), dict(must=["lfsr-step", "lfsr-reset"], keep=[d.value])
        flow_task(r, lambda: L(degree, taps, reset), spec)
    return "LFSR degree %d taps %s reset %d%s" % (degree, taps, reset, " any value" if anyval else ""), task


def tasks(tier):
    ts = [inreg(n) for n in (1, 2, 5, 8)] + [outreg(n, x) for n in (1, 2, 5, 8) for x in (0, 1)]
    ts += [inreg(32)] + [outreg(n, x) for n in (32, 33) for x in (0, 1)]
    tab = [(16, (16, 14, 13, 11)), (8, (8, 6, 5, 4)), (4, (4, 3)), (24, (24, 23, 22, 17)), (1, (1,)), (12, (12, 6, 4, 1))]
    tab += [(n, tuple(sorted({n, n // 2 + 1, n // 3 + 1, 1}))) for n in range(2, 34 if tier == "quick" else 65)]
    ts += [lfsr(n, t, 1, True) for n, t in tab]
    ts += [lfsr(4, (4, 3), 1, False), lfsr(8, (8, 6, 5, 4), 0x5a, False)]
    return ts
