"""C11: asynchronous serial receiver."""
from hwsa.util import *
from amaranth import Record
from .c10 import frame_bits

EXPLANATION = """
Typestate analysis of the receiver IR under a line environment that sends frames of independent bit tokens with any
idle gap (also none), and that is completely free (noise) in the first and last part of every bit cell.  The word has
to be delivered exactly once through rdy/ack with each data bit equal to the mid-cell token, the frame and parity
flags have to be the exact functions of the mid-cell tokens, and a frame that completes while ack is low has to be
reported as overflow and must not disturb the previous word.
"""
ASSUMPTIONS = ["bit cells are exactly `divisor` clock cycles long; levels are only guaranteed in the middle of a cell",
               "a frame's start bit begins with a falling edge of an idle (high) line"]
MUST = ["deliver", "data", "frame-flag", "parity-flag", "overflow", "quiet", "loopback"]


class Rx:
    """environment + monitor

    state: (line, monitor, held word)
    line    ('idle',) | ('frame', cell, cycle, bits)      bits: start, data..., [parity], stop tokens
    monitor None | (bits, cycles left, ack seen high, ack seen low, delivered)   a frame that is completing
    held    None | (data, frame, parity)                  word offered (rdy) but not yet taken"""

    def __init__(self, d, i, gap, bits, noise, div, nbits, parity, ack=None, delay=0):
        self.d, self.i, self.gap, self.bits, self.noise = d, i, gap, bits, noise
        self.div, self.n, self.parity, self.delay = div, nbits, parity, delay
        q = max(div // 4, 1)
        self.lo, self.hi = max(div // 2 - q + 1, 1), min(div // 2 + q, div - 1)
        if div == 5:
            self.lo, self.hi = 2, 4

    def init(self, flow):
        return (("idle",), None, None)

    def flags(self, t, bits):
        """(data, frame error, parity error) as canonical functions of the mid-cell tokens"""
        m = t.m
        n = self.n
        data = cat(*bits[1:1 + n])
        fe = m.OR(t.node(bits[0]), m.NOT(t.node(bits[-1])))
        pe = 0
        if self.parity != "none":
            want = frame_bits(t, data, self.parity)[-2]
            pe = m.XOR(t.node(bits[-2]), t.node(want))
        return data, V((fe,) if fe > 1 else fe, 1), V((pe,) if pe > 1 else pe, 1)

    def step(self, s, t):
        d, div = self.d, self.div
        line, mon, held = s
        total = self.n + 2 + (self.parity != "none")
        # ------------------------------------------------------------------ environment
        if line[0] == "idle":
            if t.bit(self.gap):
                b = t.val(self.bits)
                bits = tuple(b[k] for k in range(total))
                # only well-formed stop bits keep a receiver in step; a missing one ends the history (below)
                line = ("frame", 0, 0, bits)
            else:
                t.set(self.i, 1)
        done = False
        if line[0] == "frame":
            _, cell, cyc, bits = line
            last = cell == total - 1
            if cell == 0 and cyc == 0:
                t.set(self.i, 0)
            elif self.lo <= cyc <= self.hi:
                t.set(self.i, bits[cell])
            elif last and cyc > self.hi:
                t.set(self.i, 1)
            else:
                t.set(self.i, t.val(self.noise))
            if last and cyc == self.hi:
                done = True
            if cyc + 1 < div:
                line = ("frame", cell, cyc + 1, bits)
            elif not last:
                line = ("frame", cell + 1, 0, bits)
            else:
                line = ("idle",)
                if t.decide(bits[-1]) is False:
                    line = ("stopped",)
        elif line[0] == "stopped":
            if mon is None:
                t.assume(False)
            t.set(self.i, 1)
        # a frame is completing from the first cycle in which the middle of the stop bit may have been sampled
        if self.completing(s[0]) and mon is None:
            mon = (s[0][3], False, False, False)
        ack = t.bit(d.ack)
        rdy = t.bit(d.rdy)
        # ------------------------------------------------------------------ what is offered now
        if rdy:
            if held is None:
                if not t.require(mon is not None and not mon[3], "quiet", "a word is offered although no frame was completed", d.rdy):
                    return (line, mon, held)
                data, fe, pe = self.flags(t, mon[0])
                t.require(mon[1], "overflow", "a frame that completed while ack was low must not be delivered", d.rdy)
                held = (data, fe, pe)
                mon = (mon[0], mon[1], mon[2], True)
                t.require(True, "deliver", "")
            t.same(d.data, held[0], "data", "the word must consist of the levels in the middle of the data cells", d.data)
            t.same(d.err.frame, held[1], "frame-flag", "frame error iff start bit not low or stop bit not high", d.err.frame)
            t.same(d.err.parity, held[2], "parity-flag", "parity error iff the parity bit does not match", d.err.parity)
            if ack:
                held = None
        else:
            t.require(held is None, "deliver", "an offered word vanished before it was acknowledged", d.rdy)
        # ------------------------------------------------------------------ completion window
        if mon is not None:
            bits, hi, lo, dl = mon
            if not self.window(s[0]):
                # one more cycle than the cell: everything must be settled
                if hi and not lo:
                    t.require(dl, "deliver", "a frame that completed while ack was high must be delivered", d.rdy)
                    t.same(d.err.overflow, 0, "overflow", "no overflow when the word was delivered", d.err.overflow)
                elif lo and not hi:
                    t.require(not dl, "overflow", "a frame that completed while ack was low must not be delivered", d.rdy)
                    t.same(d.err.overflow, 1, "overflow", "a frame that completed while ack was low must be flagged", d.err.overflow)
                mon = None
            else:
                mon = (bits, hi or ack, lo or not ack, dl)
        return (line, mon, held)

    def completing(self, line):
        total = self.n + 2 + (self.parity != "none")
        return line[0] == "frame" and line[1] == total - 1 and line[2] >= self.lo

    def window(self, line):
        return self.completing(line)


def rx(div, nbits, parity, dbits, live, name, ackmode="c"):
    def task(r):
        from amlib.io.serial import AsyncSerialRX

        def mk():
            d = AsyncSerialRX(divisor=live or div, divisor_bits=dbits, data_bits=nbits, parity=parity)
            d.v_gap, d.v_noise = Signal(name="frame_start"), Signal(name="noise")
            d.v_bits = Signal(nbits + 2 + (parity != "none"), name="frame_bits")
            return d

        def spec(d):
            ins = ports(("x", "i", d.i), (ackmode, "ack", d.ack), ("c", "frame_start", d.v_gap),
                        ("d", "frame_bits", d.v_bits), ("d", "noise", d.v_noise))
            if live:
                ins.append(("divisor", d.divisor, "k:%d" % div))
            must = ["data", "frame-flag", "parity-flag", "deliver"] + (["overflow"] if ackmode == "c" else [])
            return ins, Rx(d, d.i, d.v_gap, d.v_bits, d.v_noise, div, nbits, parity), dict(must=must)
        flow_task(r, mk, spec, config=name)
    return name, task


def loop(div, nbits, parity, name, pins=False, reset=None):
    def task(r):
        from amlib.io.serial import AsyncSerial

        def mk():
            m = Module()
            h = Harness(m)
            p = Record([("rx", [("i", 1)]), ("tx", [("o", 1)])]) if pins else None
            m.submodules.s = h.s = AsyncSerial(divisor=reset or div, divisor_bits=5, data_bits=nbits, parity=parity, pins=p)
            if pins:
                m.d.comb += p.rx.i.eq(p.tx.o)
            else:
                m.d.comb += h.s.rx.i.eq(h.s.tx.o)
            return h

        def spec(h):
            tx, rx = h.s.tx, h.s.rx

            def step(o, t):
                q = o
                if t.bit(rx.rdy):
                    if t.require(len(q) > 0, "loopback", "a word is received that was never sent", rx.rdy):
                        t.same(rx.data, q[0], "loopback", "a transceiver must receive exactly what an identically configured one sends", rx.data)
                        t.same(rx.err.frame, 0, "loopback", "no frame error", rx.err.frame)
                        t.same(rx.err.parity, 0, "loopback", "no parity error", rx.err.parity)
                        t.same(rx.err.overflow, 0, "loopback", "no overflow", rx.err.overflow)
                        q = q[1:]
                if t.bit(tx.rdy) and t.bit(tx.ack):
                    q = q + (t.val(tx.data),)
                    t.require(len(q) <= 2, "loopback", "a sent word was never received", rx.rdy)
                return q
            ins = ports(("c", "tx.ack", tx.ack), ("d", "tx.data", tx.data), ("k:1", "rx.ack", rx.ack))
            if reset:
                ins.append(("divisor", h.s.divisor, "k:%d" % div))
            return ins, Auto((), step), dict(must=["loopback"])
        flow_task(r, mk, spec, config=name)
    return name, task


def tasks(tier):
    ts = [rx(8, 8, p, None, None, "RX /8 8 bits parity %s" % p) for p in ("none", "even", "odd", "mark", "space")]
    cfg = [(5, 8, "none", None, None), (5, 5, "even", 8, None), (6, 7, "odd", None, None), (12, 8, "none", 8, 5), (16, 8, "none", None, None),
           (7, 1, "mark", None, 6), (434, 8, "none", None, None), (300, 9, "odd", 12, None), (257, 5, "even", 9, 7), (5, 16, "odd", None, None)]
    if tier == "thorough":
        cfg += [(n, w, p, None, None) for n in (5, 9, 11, 20, 33) for w in (5, 8, 9) for p in ("none", "even", "odd")] + [(104, 8, "none", None, None)]
    for div, w, p, db, live in cfg:
        ts.append(rx(div, w, p, db, live, "RX /%d %d bits parity %s%s" % (div, w, p, " (divisor input, reset %d)" % live if live else " (%s divisor bits)" % db if db else "")))
    ts += [loop(5, 8, "none", "loopback /5"), loop(8, 7, "even", "loopback /8 even"), loop(6, 8, "odd", "loopback /6 odd"), loop(9, 5, "mark", "loopback /9 mark"),
           loop(7, 8, "none", "loopback /7 through pins", True), loop(8, 6, "odd", "loopback /8 (divisor input, reset 5) through pins", True, 5),
           loop(6, 8, "none", "loopback /6 (divisor input, reset 9)", False, 9)]
    return ts
