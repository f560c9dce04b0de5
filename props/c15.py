"""C15: FFT."""
from math import cos, sin, pi, sqrt, log2, ceil
from hwsa.util import *
from hwsa.lin import lin_task, dot, mul, add, lift, L

EXPLANATION = """
Word-level abstract interpretation of complete transforms: every input sample and every loaded window coefficient is a
token, memory cells and butterfly registers are polynomials over the tokens with intervals for quantised coefficients and
discarded bits.  Each of the N output pairs has to be the discrete Fourier transform of the windowed samples divided by N,
in order, and the transform has to announce its end exactly once.
"""
ASSUMPTIONS = ["Samples and window are small enough that no intermediate value overflows: real and imaginary part of a sample up to a quarter of full scale, window up to 1.",
               "Strobes are at least 4 cycles apart, and the first one comes at least 4 cycles after the start."]
MUST = ["output", "order", "done"]
S = 40


def blackman_harris(n):
    return [0.35875 - 0.48829 * cos(2 * pi * k / n) + 0.14128 * cos(4 * pi * k / n) - 0.01168 * cos(6 * pi * k / n) for k in range(n)]


def scaled(a, n):
    a = lift(a)
    return L(a.c, a.k, a.s + n, a.elo, a.ehi, a.mod, a.rng)


class Fft:
    """(phase, position, cycles to wait, window or None, samples, expected outputs)"""

    def __init__(self, d, bw, pts, script):
        self.d, self.bw, self.pts, self.script = d, bw, pts, script
        self.n = pts.bit_length() - 1
        self.lim = 1 << (bw - 3)
        full = 2 ** (bw - 1)
        e, mag = 1 + 3 * self.lim / full, self.lim * 2
        for s in range(self.n):
            # two discarded fractions and one coefficient LSB of each factor per butterfly
            e = e + sqrt(2) * e + 2 + 2 * mag / full
            mag *= 2
        self.tol = e / pts + 1
        self.limit = pts * (self.n + 1) * 16 + 64

    def init(self, an):
        # script position, phase, position, wait, window, samples, expected outputs
        return (0, "idle", 0, 0, None, (), ())

    def step(self, o, t):
        k, phase, pos, wait, win, xs, want = o
        d = self.d
        inp = {s: 0 for s in ("start", "wf_start", "strobe_in", "wf_strobe")}
        what = self.script[k] if k < len(self.script) else None
        tr, ti = t.token(lo=-self.lim, hi=self.lim), t.token(lo=-self.lim, hi=self.lim)
        full = 1 << (self.bw - 1)
        wr, wi = t.token(lo=-full, hi=full), t.token(lo=-full, hi=full)
        done, out = t.int(d.done), t.int(d.strobe_out)
        t.require(done == int(phase == "idle"), "done", "`done` is %d while the component is %s" % (done, phase), d.done) \
            if phase in ("idle", "load", "window") or pos < len(want) else None
        if out:
            t.require(phase == "run" and pos < len(want), "order", "an unexpected output", d.strobe_out)
            t.near(d.out_real, want[pos][0], self.tol, "output", "the real part of output %d is not the transform" % pos)
            t.near(d.out_imag, want[pos][1], self.tol, "output", "the imaginary part of output %d is not the transform" % pos)
            pos, wait = pos + 1, 0
        if phase == "idle":
            if what is None:
                t.stop()
            if wait or t.choose():
                go = dict(fft="start", win="wf_start", both="start")[what]
                inp[go] = 1
                if what == "both":
                    inp["wf_start"] = 1
                phase, pos, wait = ("window" if what == "win" else "load"), 0, 0
            else:
                wait = 1
        elif phase in ("load", "window"):
            wait += 1
            if wait >= 4 and (wait == 6 or t.choose()):
                inp["strobe_in" if phase == "load" else "wf_strobe"] = 1
                wait, pos = 0, pos + 1
                xs += ((tr, ti) if phase == "load" else (wr, wi),)
                if pos == self.pts:
                    pos = 0
                    if phase == "load":
                        phase, want, xs = "run", self.transform(win, xs), ()
                    else:
                        phase, win, xs, want = "run", xs, (), ()
        else:
            wait += 1
            t.require(wait < self.limit, "late", "no output and no end of operation for %d cycles" % wait, d.done)
            if pos == len(want) and done:
                phase, pos, wait, want, k = "idle", 0, 0, (), k + 1
            else:
                t.require(not done, "done", "the end is announced before all outputs", d.done)
        for s, v in inp.items():
            t.set(getattr(d, s), v)
        z = lambda s, x: x if inp[s] else None
        t.set(d.in_i, z("strobe_in", tr))
        t.set(d.in_q, z("strobe_in", ti))
        t.set(d.wf_real, z("wf_strobe", wr))
        t.set(d.wf_imag, z("wf_strobe", wi))
        t.note("%s %d" % (phase, pos))
        return (k, phase, pos, wait, win, xs, want)

    def transform(self, win, xs):
        if win is None:
            w = [(round(x * 2 ** S), 0) for x in blackman_harris(self.pts)]
            sh = S
        else:
            w, sh = win, self.bw - 1
        v = []
        for (wr, wi), (xr, xi) in zip(w, xs):
            v.append((scaled(add(mul(wr, xr), mul(wi, xi), -1), sh), scaled(add(mul(wr, xi), mul(wi, xr)), sh)))
        out = []
        for k in range(self.pts):
            c = [round(cos(2 * pi * k * n / self.pts) * 2 ** S) for n in range(self.pts)]
            s = [round(-sin(2 * pi * k * n / self.pts) * 2 ** S) for n in range(self.pts)]
            re = add(dot(c, [x[0] for x in v], S + self.n), dot(s, [x[1] for x in v], S + self.n), -1)
            im = add(dot(c, [x[1] for x in v], S + self.n), dot(s, [x[0] for x in v], S + self.n))
            out.append((re, im))
        return tuple(out)


def fft(pts, bw, script):
    def task(r):
        from amlib.dsp.fixedpointfft import FixedPointFFT
        lin_task(r, lambda: FixedPointFFT(bitwidth=bw, pts=pts, verbose=False), lambda d: (Fft(d, bw, pts, script), {}), must=MUST)
    return task


def tasks(tier):
    cfg = [("pts4", 4, 16, ("fft", "fft")), ("pts8", 8, 18, ("fft",)), ("pts4-window", 4, 16, ("win", "fft", "fft")), ("pts8-window", 8, 12, ("fft", "win", "fft")),
           ("pts16", 16, 16, ("fft",)), ("pts32", 32, 18, ("fft", "fft")), ("pts16-window", 16, 16, ("win", "fft", "both", "win", "win", "fft"))]
    if tier == "thorough":
        cfg += [("pts64", 64, 24, ("fft",)),
                ("pts8-long", 8, 16, ("fft", "fft", "both", "win", "fft", "win", "win", "fft", "fft"))]
    return [(n, fft(*a)) for n, *a in cfg]
