"""C12: stereo convolution."""
from hwsa.util import *
from hwsa.lin import lin_task, dot, add

EXPLANATION = """
Word-level abstract interpretation for every schedule of the two streams: samples are tokens, memory words are vectors of
them, accumulators are linear forms over the tokens.  For every stereo frame delivered, one frame of output has to follow:
the convolution of the last N frames with the impulse response in the configured mode, left channel first.
"""
ASSUMPTIONS = ["Frames are delivered as one word marked first (left) and one marked last (right).",
               "Results are compared modulo 2**bitwidth: a sum that does not fit the output wraps around."]
MUST = ["output", "order", "flags", "withdrawn", "late", "stuck"]


class Conv:
    """(left samples newest first, right ones, half of the frame, frames to deliver, half of them, offer pending, cycles due, cycles stalled)"""

    def __init__(self, d, ir, mode, bw, limit):
        self.d, self.bw, self.limit, self.n = d, bw, limit, len(ir)
        self.a, self.b = [x[0] for x in ir], [x[1] for x in ir]
        self.mode = mode

    def init(self, an):
        return ((0,) * self.n, (0,) * self.n, 0, (), 0, 0, 0, 0)

    def want(self, frame, ch):
        me, other = (frame[0], frame[1]) if ch == 0 else (frame[1], frame[0])
        if self.mode == "CROSSFEED":
            return add(dot(self.a, me, self.bw), dot(self.b, other, self.bw))
        if self.mode == "STEREO":
            return dot(self.a if ch == 0 else self.b, me, self.bw)
        return dot(self.a, me, self.bw)

    def step(self, o, t):
        ls, rs, half, todo, ch, pend, due, stall = o
        d = self.d
        ready, valid = t.choose(), t.choose()
        x = t.token(self.bw)
        t.set(d.signal_in.valid, valid)
        t.set(d.signal_in.payload, x)
        t.set(d.signal_in.first, int(half == 0))
        t.set(d.signal_in.last, int(half == 1))
        t.set(d.signal_out.ready, ready)
        acc, off = t.int(d.signal_in.ready), t.int(d.signal_out.valid)
        t.require(off or not pend, "withdrawn", "a result is withdrawn before it was accepted", d.signal_out.valid)
        due = due + 1 if todo and not off else 0
        t.require(due < self.limit, "late", "a frame was delivered but no result is offered", d.signal_out.valid)
        stall = stall + 1 if not acc and not (off and not ready) else 0
        t.require(stall < self.limit + 8, "stuck", "no samples are accepted", d.signal_in.ready)
        if off:
            t.require(todo, "order", "a result is offered without a new frame", d.signal_out.valid)
            t.require(t.int(d.signal_out.first) == int(ch == 0) and t.int(d.signal_out.last) == int(ch == 1), "flags",
                      "first marks the left, last the right channel", d.signal_out.first)
            t.near(d.signal_out.payload, self.want(todo[0], ch), (-1, 0), "output", "the %s result is not the convolution" % ("left", "right")[ch])
        if valid and acc:
            if half:
                rs, half = (x,) + rs[:-1], 0
                todo += ((ls, rs),)
                t.require(len(todo) < 4, "stuck", "frames are accepted although no results are taken", d.signal_in.ready)
            else:
                ls, half = (x,) + ls[:-1], 1
        if off and ready:
            if ch:
                todo = todo[1:]
            ch = 1 - ch
        return (ls, rs, half, todo, ch, int(off and not ready), due, stall)


def response(n, bw):
    """an impulse response with extreme and generic values"""
    lim = 1 << (bw - 1)
    v = [lim - 1, -lim, 1, -1] + [(7919 * i * i + 104729 * i + 31) % (2 * lim) - lim for i in range(2 * n)]
    return [(v[i], v[n + 1 + i]) for i in range(n)]


def conv(mode, n, slices, bw=24):
    def task(r):
        import numpy as np
        from amlib.dsp.convolution.mac import StereoConvolutionMAC
        from amlib.dsp.convolution.convolutionmode import ConvolutionMode
        ir = response(n, bw)

        def make():
            # clockfrequency / samplerate cycles are available per sample, one for each tap of a slice
            return StereoConvolutionMAC(taps=np.array(ir, dtype=np.int32), samplerate=48000, clockfrequency=48000 * n / slices, bitwidth=bw,
                                        convolutionMode=ConvolutionMode[mode])
        lin_task(r, make, lambda d: (Conv(d, ir, mode, bw, n + 16), {}), must=MUST)
    return task


def tasks(tier):
    cfg = [("CROSSFEED", 4, 1, 24), ("CROSSFEED", 8, 4, 24), ("STEREO", 6, 2, 24), ("STEREO", 3, 1, 16), ("MONO", 4, 2, 16), ("MONO", 6, 3, 24)]
    if True:
        cfg += [("CROSSFEED", 32, 4, 24), ("CROSSFEED", 16, 2, 16), ("STEREO", 24, 8, 24), ("STEREO", 16, 1, 24), ("MONO", 32, 8, 16), ("MONO", 12, 1, 12), ("STEREO", 4, 4, 24), ("CROSSFEED", 1, 1, 24), ("CROSSFEED", 14, 2, 24)]
    if tier == "thorough":
        cfg += [("CROSSFEED", 64, 4, 24), ("MONO", 100, 5, 16), ("STEREO", 33, 3, 18), ("STEREO", 66, 1, 24)]
    return [("%s-%d-%d-%d" % c, conv(*c)) for c in cfg]
