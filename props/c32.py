"""C32: fractional resampler."""
from hwsa.util import *
from hwsa.lin import lin_task, dot, mul
from .c28 import window_method

EXPLANATION = """
Word-level abstract interpretation for every schedule of the two streams: samples are tokens, registers and buffer entries
are linear forms over them.  At every reachable control location, the word offered has to be the next one of: input times
prescale, M-1 zeros stuffed after every sample, filtered by the FIR bank, every N-th result.  Offers may not depend on being
accepted, are not withdrawn, and neither side may stall while there is something to do.
"""
ASSUMPTIONS = ["FIR structure; results are compared modulo 2**bitwidth (a prescale that lets results overflow wraps around)."]
MUST = ["output", "offer", "withdrawn", "late", "stuck"]


class Resampler:
    """(up-sampled sequence newest first, how far it is ahead of the next output, offer pending, cycles due, cycles without accepting)"""

    def __init__(self, d, h, shift, tol, delay, up, down, prescale, bw):
        self.d, self.h, self.shift, self.tol, self.delay = d, h, shift, tol, delay
        self.up, self.down, self.prescale, self.bw = up, down, prescale, bw
        self.n = len(h) + delay - 1
        self.limit = up + down + 8

    def init(self, an):
        return ((0,) * self.n, 0, 0, 0, 0)

    def step(self, o, t):
        us, a, pend, due, stall = o
        d = self.d
        ready, valid = t.choose(), t.choose()
        x = t.token(self.bw)
        t.set(d.signal_in.valid, valid)
        t.set(d.signal_in.payload, x)
        t.set(d.signal_out.ready, ready)
        acc, off = t.int(d.signal_in.ready), t.int(d.signal_out.valid)
        t.require(off or not pend, "withdrawn", "an offer is withdrawn before it was accepted", d.signal_out.valid)
        if not ready:
            t.require(due < self.limit, "late", "nothing is offered while the consumer is not ready, although a result is due", d.signal_out.valid)
        t.require(due < self.limit, "late", "a result is due but not offered", d.signal_out.valid)
        t.require(stall < self.limit, "stuck", "no sample is accepted although everything was delivered", d.signal_in.ready)
        due = due + 1 if a >= 1 and not off else 0
        if off:
            t.require(a >= 0, "offer", "a result is offered before its samples arrived", d.signal_out.valid)
            want = dot(self.h, us[a:][self.delay - 1:], self.shift)
            t.near(d.signal_out.payload, want, self.tol, "output", "the result is not the next one of the resampled signal")
        stall = stall + 1 if not acc and ready else 0
        if valid and acc:
            us = (0,) * (self.up - 1) + (mul(x, self.prescale),) + us
            a += self.up
        if off and ready:
            a -= self.down
        return (us[:self.n + max(a, 0)], a, int(off and not ready), due, stall)


def resample(up, down, rate=48000, cutoff=8000, order=6, count=1, prescale=None, bw=16):
    def task(r):
        from amlib.dsp.resampler import FractionalResampler

        def spec(d):
            fs = rate * up
            head = (bw + 7) // 8 * 9
            one = [round(x * 2 ** 18) for x in window_method(order, cutoff, fs, "lowpass")]
            h, tol = [1], 0
            for i in range(count):
                h = [sum(h[k - j] * one[j] for j in range(len(one)) if 0 <= k - j < len(h)) for k in range(len(h) + len(one) - 1)]
                tol = tol * sum(abs(x) for x in one) / 2 ** 18 + order * (1 + 2 ** (head - 1) / 2 ** 18)
            return Resampler(d, h, 18 * count, tol, count, up, down, 4 if prescale is None else prescale, bw), {}
        lin_task(r, lambda: FractionalResampler(input_samplerate=rate, upsample_factor=up, downsample_factor=down, filter_instances=count, filter_order=order,
                                                filter_cutoff=cutoff, bitwidth=bw, prescale=prescale, verbose=False), spec,
                 must=["output", "offer", "withdrawn", "late", "stuck"])
    return task


def tasks(tier):
    cfg = [("3-2", dict(up=3, down=2)), ("2-3", dict(up=2, down=3, order=4, prescale=2, bw=12)), ("4-3", dict(up=4, down=3, order=12, prescale=3)),
           ("3-4", dict(up=3, down=4, order=5)), ("3-1", dict(up=3, down=1)), ("1-3", dict(up=1, down=3, cutoff=12000)),
           ("6-7", dict(up=6, down=7, rate=56000, cutoff=20000, order=7, prescale=4)),
           ("2-5-bank", dict(up=2, down=5, order=3, count=2, prescale=1, bw=8)), ("6-7-long", dict(up=6, down=7, rate=56000, cutoff=20000, order=24, prescale=4))]
    if tier == "thorough":
        cfg += [("7-6", dict(up=7, down=6, order=24, prescale=2)),
                ("5-2-bank", dict(up=5, down=2, order=5, count=3, prescale=2, bw=16))]
    return [(n, resample(**a)) for n, a in cfg]
