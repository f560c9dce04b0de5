"""C28: FIR filter."""
import math
from hwsa.util import *
from hwsa.lin import lin_task, dot

EXPLANATION = """
Word-level abstract interpretation: every sample is a token, every register and the output is a linear form over the tokens
with an interval for the bits discarded by the fixed point shifts.  At every reachable control location the output has to be
the convolution of the last N enabled samples, newest first, with the coefficients of the requested design.
"""
ASSUMPTIONS = ["With mac_loop, samples are at least N+4 cycles apart.",
               "The result is compared modulo 2**bitwidth: a sum that does not fit the output wraps around."]
MUST = ["output"]


def window_method(n, fc, fs, kind):
    """Hamming windowed ideal response, unity gain in the middle of the pass band"""
    mid = (n - 1) / 2
    f = 2 * fc / fs
    sinc = lambda x: 1.0 if x == 0 else math.sin(math.pi * x) / (math.pi * x)
    h = []
    for i in range(n):
        x = i - mid
        v = f * sinc(f * x) if kind == "lowpass" else sinc(x) - f * sinc(f * x)
        h.append(v * (0.54 - 0.46 * math.cos(2 * math.pi * i / (n - 1))))
    g = sum(h) if kind == "lowpass" else sum(v * math.cos(math.pi * (i - mid)) for i, v in enumerate(h))
    return [v / g for v in h]


def equiripple(n, fs, fpb, fsb, kind, weight):
    from scipy import signal
    want = [1, 0] if kind == "lowpass" else [0, 1]
    return list(signal.remez(n, [0, fpb / fs, fsb / fs, 0.5], want, weight))


class Fir:
    """(samples newest first, previous result, cycles since the last sample)"""

    def __init__(self, d, taps, bw, fw, mac):
        self.d, self.bw, self.fw, self.mac = d, bw, fw, mac
        self.taps = [round(t * 2 ** fw) for t in taps]
        self.n = len(taps)
        # the coefficients may be rounded either way, every product once
        self.tol = self.n * (1 + 2 ** (bw - 1) / 2 ** fw)

    def init(self, an):
        return ((0,) * self.n, (0,) * self.n, self.n + 4)

    def step(self, o, t):
        xs, old, age = o
        d = self.d
        busy = self.mac and age < self.n + 4
        en = 0 if busy else t.choose()
        x = t.token(self.bw)
        t.set(d.enable_in, en)
        t.set(d.signal_in, x)
        t.note("age %d" % age)
        new = dot(self.taps, xs, self.fw)
        if busy and t.off(d.signal_out, new, self.tol):
            t.near(d.signal_out, dot(self.taps, old, self.fw), self.tol, "output", "neither the previous nor the new result while the sum is computed")
        else:
            t.near(d.signal_out, new, self.tol, "output", "the output is not the filtered signal")
            if self.mac:
                old = xs
        if en:
            return ((x,) + xs[:-1], xs, 1 if self.mac else 0)
        return (xs, old, min(age + 1, self.n + 4) if self.mac else age)


def fir(taps, mac=False, **args):
    def task(r):
        from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter

        def spec(d):
            return Fir(d, taps, args.get("bitwidth", 18), args.get("fraction_width", 18), mac), {}
        lin_task(r, lambda: FixedPointFIRFilter(mac_loop=mac, verbose=False, **args), spec, must=["output"])
    return task


def tasks(tier):
    out = []

    def win(name, n, fc, fs, kind="lowpass", **kw):
        for mac in (False, True):
            out.append(("%s%s" % (name, "-mac" if mac else ""),
                        fir(window_method(n, fc, fs, kind), mac, samplerate=fs, cutoff_freq=fc, filter_order=n, filter_type=kind, **kw)))

    def rem(name, n, pb, sb, fs, kind="lowpass", weight=None, **kw):
        for mac in (False, True):
            out.append(("%s%s" % (name, "-mac" if mac else ""),
                        fir(equiripple(n, fs, pb, sb, kind, weight), mac, samplerate=fs, cutoff_freq=[pb, sb], filter_order=n, filter_type=kind, weight=weight, **kw)))
    win("lowpass24", 24, 20000, 336000)
    win("lowpass5", 5, 3000, 48000, bitwidth=12, fraction_width=18)
    win("highpass7", 7, 10000, 48000, "highpass", bitwidth=16, fraction_width=18)
    rem("equiripple12", 12, 4000, 8000, 48000, weight=[1, 10], bitwidth=16, fraction_width=16)
    rem("equiripple15-high", 15, 8000, 12000, 48000, "highpass")
    win("highpass15", 15, 2000, 48000, "highpass")
    win("lowpass3-wide", 3, 20000, 48000, bitwidth=8, fraction_width=16)
    if True:
        win("lowpass48", 48, 20000, 96000, bitwidth=24, fraction_width=24)
        rem("equiripple31-high", 31, 8000, 12000, 48000, "highpass", weight=[5, 1])
        win("highpass63", 63, 5000, 96000, "highpass", bitwidth=20, fraction_width=20)
        rem("equiripple30", 30, 15000, 20000, 96000, weight=[1, 100])
    return out
