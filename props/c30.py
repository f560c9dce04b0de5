"""C30: IIR filter and filter bank."""
from hwsa.util import *
from hwsa.lin import lin_task, dot, add
from .c28 import window_method

EXPLANATION = """
Word-level abstract interpretation: samples are tokens, and every value that appeared on the output is a token, so the
recurrence can be checked for an arbitrary past: at every reachable control location the output has to be the sum of the
feed forward coefficients times the last samples minus the feedback coefficients times the last outputs.  For a filter bank,
the same holds for every filter, each one fed by its predecessor, all of them enabled by the same signal.
"""
ASSUMPTIONS = ["Results are compared modulo 2**bitwidth: a sum that does not fit the output wraps around.",
               "FIR banks are compared end to end for samples small enough that no intermediate output overflows."]
MUST = ["output"]


def chebyshev(n, fc, fs, kind):
    from scipy import signal
    b, a = signal.cheby1(n, 1.0, fc / (fs / 2), btype=kind, output="ba")
    return list(b), list(a)[1:]


class Iir:
    """per filter: (samples newest first, earlier outputs newest first)"""

    def __init__(self, filters, top, b, a, bw, fw):
        self.f, self.top, self.bw, self.fw = filters, top, bw, fw
        self.b = [round(x * 2 ** fw) for x in b]
        self.a = [-round(x * 2 ** fw) for x in a]
        self.tol = (len(b) + len(a)) * (1 + 2 ** (bw - 1) / 2 ** fw)
        self.lim = 1 << (bw - 1)

    def init(self, an):
        return (((0,) * len(self.b), (0,) * len(self.a)),) * len(self.f)

    def step(self, o, t):
        top = self.top
        en = t.choose()
        x = t.token(self.bw)
        t.set(top.enable_in, en)
        t.set(top.signal_in, x)
        out = []
        for f, (xs, ys) in zip(self.f, o):
            want = add(dot(self.b, xs, self.fw), dot(self.a, ys, self.fw))
            t.near(f.signal_out, want, self.tol, "output", "the output is not the filtered signal")
            y = t.name(f.signal_out, -self.lim, self.lim - 1)
            out.append(((x,) + xs[:-1], (y,) + ys[:-1]) if en else (xs, ys))
            x = y
        t.near(top.signal_out, x, 0, "output", "the output is not the output of the last filter")
        return tuple(out)


class Bank:
    """samples newest first, of a cascade of FIR filters: each one delays by one sample"""

    def __init__(self, d, taps, count, bw, fw):
        self.d, self.bw, self.fw, self.count = d, bw, fw, count
        one = [round(x * 2 ** fw) for x in taps]
        h, tol, gain = [1], 0, 1.0
        for i in range(count):
            h = [sum(h[k - j] * one[j] for j in range(len(one)) if 0 <= k - j < len(h)) for k in range(len(h) + len(one) - 1)]
            g = sum(abs(x) for x in one) / 2 ** fw
            tol = tol * g + len(one) * (1 + 2 ** (bw - 1) / 2 ** fw)
            gain = max(gain, sum(abs(x) for x in h) / 2 ** (fw * (i + 1)))
        self.h, self.tol = h, tol
        self.lim = int((2 ** (bw - 1) - 1 - tol) / gain)

    def init(self, an):
        return (0,) * (len(self.h) + self.count - 1)

    def step(self, xs, t):
        d = self.d
        en = t.choose()
        x = t.token(lo=-self.lim, hi=self.lim)
        t.set(d.enable_in, en)
        t.set(d.signal_in, x)
        t.near(d.signal_out, dot(self.h, xs[self.count - 1:], self.fw * self.count), self.tol, "output", "the output is not the signal after all filters")
        return ((x,) + xs[:-1]) if en else xs


def iir(n, fc, fs, kind="lowpass", **args):
    def task(r):
        from amlib.dsp.fixedpointiirfilter import FixedPointIIRFilter

        def spec(d):
            b, a = chebyshev(n, fc, fs, kind)
            return Iir([d], d, b, a, args.get("bitwidth", 18), args.get("fraction_width", 18)), {}
        lin_task(r, lambda: FixedPointIIRFilter(fs, cutoff_freq=fc, filter_order=n, filter_type=kind, verbose=False, **args), spec, must=["output"])
    return task


def bank(kind, count, n, fc, fs, **args):
    def task(r):
        from amlib.dsp.filterbank import Filterbank

        def spec(d):
            bw, fw = args.get("bitwidth", 18), args.get("fraction_width", 18)
            r.require(len(d.filters) == count, "count", "the bank has %d filters, %d requested" % (len(d.filters), count))
            if kind == "iir":
                b, a = chebyshev(n, fc, fs, "lowpass")
                return Iir(d.filters, d, b, a, bw, fw), {}
            return Bank(d, window_method(n, fc, fs, "lowpass"), count, bw, fw), {}
        lin_task(r, lambda: Filterbank(count, fs, cutoff_freq=fc, filter_order=n, filter_structure=kind, verbose=False, **args), spec, must=["output"])
    return task


def tasks(tier):
    out = [("iir2", iir(2, 20000, 336000)), ("iir4", iir(4, 5000, 48000, bitwidth=16, fraction_width=20)),
           ("iir3-high", iir(3, 8000, 48000, "highpass", bitwidth=12, fraction_width=18)),
           ("bank-iir3", bank("iir", 3, 2, 20000, 336000)), ("bank-iir1", bank("iir", 1, 2, 5000, 96000, bitwidth=16)),
           ("bank-fir1", bank("fir", 1, 12, 20000, 336000)), ("bank-fir3", bank("fir", 3, 6, 5000, 48000, bitwidth=16))]
    if True:
        out += [("iir1", iir(1, 1000, 48000)), ("iir6", iir(6, 10000, 48000, bitwidth=16, fraction_width=24)), ("iir8", iir(8, 12000, 48000, bitwidth=20, fraction_width=28)),
                ("bank-iir5", bank("iir", 5, 4, 10000, 48000)), ("bank-fir4", bank("fir", 4, 16, 10000, 96000)), ("bank-fir2", bank("fir", 2, 24, 20000, 336000))]
    return out
