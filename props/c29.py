"""C29: half band decimation filter."""
from hwsa.util import *
from hwsa.lin import lin_task, dot

EXPLANATION = """
Word-level abstract interpretation: every sample is a token, every register and the output is a linear form over the tokens
with an interval for the bits discarded by the fixed point shifts.  At every reachable control location the output has to be
the half band convolution of the last N strobed samples, newest first, and the output strobe has to follow every second
input strobe.
"""
ASSUMPTIONS = ["With mac_loop, samples are at least N/4+6 cycles apart.",
               "The result is compared modulo 2**bitwidth: a sum that does not fit the output wraps around."]
MUST = ["output", "strobe"]


def design(n):
    from scipy import signal
    h = list(signal.remez(n, [0.0, 0.22, 0.28, 0.5], [1, 0], [1, 1]))
    mid = n // 2
    return [0.5 if i == mid else 0.0 if i & 1 else v for i, v in enumerate(h)]


class HalfBand:
    """(samples newest first, previous window, cycles since the last sample, odd number of samples, strobe due)"""

    def __init__(self, d, taps, bw, fw, mac):
        self.d, self.bw, self.fw, self.mac = d, bw, fw, mac
        self.taps = [round(t * 2 ** fw) for t in taps]
        self.n = len(taps)
        self.wait = self.n // 4 + 6
        self.tol = (self.n // 2 + 2) * (1 + 2 ** (bw - 1) / 2 ** fw)

    def init(self, an):
        return ((0,) * self.n, (0,) * self.n, self.wait, 0, 0)

    def step(self, o, t):
        xs, old, age, odd, due = o
        d = self.d
        busy = self.mac and age < self.wait
        strobe = 0 if busy else t.choose()
        x = t.token(self.bw)
        t.set(d.strobe_in, strobe)
        t.set(d.signal_in, x)
        t.note("age %d" % age)
        out = t.int(d.strobe_out)
        t.require(not out or due, "strobe", "an output strobe although no second sample arrived", d.strobe_out)
        t.require(out or not due, "strobe", "no output strobe after the second sample", d.strobe_out)
        new = dot(self.taps, xs, self.fw)
        if busy and t.off(d.signal_out, new, self.tol):
            t.near(d.signal_out, dot(self.taps, old, self.fw), self.tol, "output", "neither the previous nor the new result while the sum is computed")
        else:
            t.near(d.signal_out, new, self.tol, "output", "the output is not the filtered signal")
            if self.mac:
                old = xs
        if strobe:
            return ((x,) + xs[:-1], xs, 1 if self.mac else 0, 1 - odd, odd)
        return (xs, old, min(age + 1, self.wait) if self.mac else age, odd, 0)


def half(n, mac=False, **args):
    def task(r):
        from amlib.dsp.fixedpointhbfilter import FixedPointHBFilter

        def spec(d):
            return HalfBand(d, design(n), args.get("bitwidth", 18), args.get("fraction_width", 18), mac), {}
        lin_task(r, lambda: FixedPointHBFilter(filter_order=n, mac_loop=mac, verbose=False, **args), spec, must=["output", "strobe"])
    return task


def tasks(tier):
    out = []
    cfg = [(19, {}), (7, dict(bitwidth=16, fraction_width=18)), (11, dict(bitwidth=12, fraction_width=16))]
    if True:
        cfg += [(3, {}), (15, dict(bitwidth=24, fraction_width=24)), (31, {}), (47, dict(bitwidth=16, fraction_width=17))]
    for n, kw in cfg:
        for mac in (False, True):
            out.append(("order%d%s" % (n, "-mac" if mac else ""), half(n, mac, **kw)))
    return out
