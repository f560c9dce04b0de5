"""C31: CIC decimation filter."""
from hwsa.util import *
from hwsa.lin import lin_task, dot, lift

EXPLANATION = """
Word-level abstract interpretation with widening: after every decimation period all registers that hold data are assumed to
contain anything, so the result covers every history.  From there the samples are tokens and registers are linear forms
modulo their width; once a window of samples was seen, the output has to be the N-fold boxcar sum of the samples and nothing
of the assumed contents may be left.  The control state is followed exactly.
"""
ASSUMPTIONS = ["Samples are -1, 0 or +1, as documented.", "Decimation of at least 2."]
MUST = ["output", "strobe", "fits"]
SLACK = 3


class Cic:
    """(samples since the checkpoint newest first, samples in this period, cycles until the strobe is late, expected output)

    `delay` is the number of samples between the newest sample in the window and the newest sample taken.
    """

    def __init__(self, d, bw, stage, dec):
        self.d, self.bw, self.stage, self.dec = d, bw, stage, dec
        h = [1]
        for _ in range(stage):
            h = [sum(h[i - j] for j in range(dec) if 0 <= i - j < len(h)) for i in range(len(h) + dec - 1)]
        self.h = h
        self.scale = max(0, 1 + (dec ** stage).bit_length() - bw)
        self.delay = None
        self.depth = len(h) + (stage + 2) * dec

    def init(self, an):
        # nothing but zeros before reset
        return ((0,) * self.depth, self.depth, 0, None, 0)

    def step(self, o, t):
        xs, seen, n, due, out = o
        d = self.d
        strobe = t.choose()
        x = t.token(lo=-1, hi=1)
        t.set(d.strobe_in, strobe)
        t.set(d.signal_in, x)
        so = t.int(d.strobe_out)
        if so:
            t.require(due is not None, "strobe", "an output strobe although the period is not complete", d.strobe_out)
            out = None
            window, due = due[1], None
            if len(window) >= self.depth:
                out = self.match(window, t)
        elif due is not None:
            t.require(due[0] < SLACK, "strobe", "no output strobe after %d samples" % self.dec, d.strobe_out)
            due = (due[0] + 1, due[1])
        if out is not None:
            t.near(d.signal_out, out, (-1, 0), "output", "the output is not the decimated signal")
        if strobe:
            n += 1
            # older samples are of no interest
            xs = ((x,) + xs)[:self.depth]
            seen = min(seen + 1, 2 * self.depth)
            if n == self.dec:
                n, due = 0, (0, xs)
                t.checkpoint(((), 0, 0, (0, ()), None))
                if seen == 2 * self.depth:
                    t.stop()
        return (xs, seen, n, due, out)

    def match(self, window, t):
        cand = range(0, self.depth - len(self.h) + 1) if self.delay is None else [self.delay]
        for k in cand:
            want = dot(self.h, window[k:], self.scale)
            if not t.off(self.d.signal_out, want, 1) and len(lift(want).c) == len(self.h):
                self.delay = k
        k = 0 if self.delay is None else self.delay
        want = lift(dot(self.h, window[k:], self.scale))
        lo, hi = want.range()
        t.require(-(1 << (self.bw - 1)) <= lo and hi < 1 << (self.bw - 1), "fits", "the output cannot hold the result", self.d.signal_out)
        return want


def cic(**args):
    def task(r):
        from amlib.dsp.fixedpointcicfilter import FixedPointCICFilter

        def spec(d):
            return Cic(d, args.get("bitwidth", 18), args.get("filter_stage", 4), args.get("decimation", 12)), {}
        lin_task(r, lambda: FixedPointCICFilter(verbose=False, **args), spec, must=["output", "strobe", "fits"])
    return task


def tasks(tier):
    cfg = [("default", {}), ("wide-sum", dict(bitwidth=12, filter_stage=4, decimation=12)), ("stage3-dec8", dict(bitwidth=8, filter_stage=3, decimation=8)),
           ("stage1-dec5", dict(bitwidth=10, filter_stage=1, decimation=5)), ("stage2-dec2", dict(bitwidth=3, filter_stage=2, decimation=2))]
    if True:
        cfg += [("stage5-dec16", dict(bitwidth=18, filter_stage=5, decimation=16)), ("stage4-dec25", dict(bitwidth=16, filter_stage=4, decimation=25)),
                ("stage2-dec64", dict(bitwidth=24, filter_stage=2, decimation=64)), ("stage6-dec3", dict(bitwidth=6, filter_stage=6, decimation=3))]
    return [(n, cic(**a)) for n, a in cfg]
