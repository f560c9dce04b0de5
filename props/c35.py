"""C35: stream UART transmitters."""
from hwsa.util import *
from hwsa import stubs

EXPLANATION = """
Typestate analysis of the transmitters' IR with an arbitrary producer: the automaton holds the frame in transmission and
the expected line level for every cycle, words being provenance tokens; the bus variant is driven by an arbitrary classic
Wishbone master.
"""
ASSUMPTIONS = ["valid and payload are kept until ready (stream contract)", "a classic Wishbone master holds its request until the acknowledge"]
MUST = ["line", "ready", "status", "ack"]


class Tx:
    """one byte every 10 * divisor cycles when the producer keeps up"""

    def __init__(self, d, div, s):
        self.d, self.div, self.s = d, div, s

    def init(self, flow):
        return (None, None, 0, 0)      # offered word, frame bits, bit, cycle

    def step(self, o, t):
        off, frame, bit, cyc = o
        d = self.d
        if off is None and t.bit(self.s["offer"]):
            off = t.fresh(8)
        t.set(d.stream.valid, int(off is not None))
        t.set(d.stream.payload, off if off is not None else t.fresh(8))
        end = frame is not None and bit == 9 and cyc == self.div - 1
        if frame is None:
            t.same(d.tx, 1, "line", "the line must be high between frames", d.tx)
        else:
            t.same(d.tx, frame[bit], "line", "bit %d of the frame must be on the line for divisor cycles" % bit, d.tx)
        t.same(d.driving, int(frame is not None), "status", "driving must be high exactly during frames", d.driving)
        t.same(d.idle, int(frame is None), "status", "idle must be high exactly between frames", d.idle)
        t.same(d.stream.ready, int(frame is None or end), "ready", "a word is accepted between frames and in the last cycle of a stop bit only", d.stream.ready)
        if frame is not None:
            cyc += 1
            if cyc == self.div:
                bit, cyc = bit + 1, 0
        if frame is None or end:
            frame, bit, cyc = None, 0, 0
            if off is not None:
                frame, off = cat(K(0, 1), off, K(1, 1)), None
        return (off, frame, bit, cyc)


class Multi:
    def __init__(self, d, n, div, s):
        self.d, self.n, self.div, self.s = d, n, div, s

    def init(self, flow):
        # offered word, bytes accepted and waiting, frame, bit, cycle
        return (None, (), None, 0, 0, 0)

    def step(self, o, t):
        off, wait, frame, bit, cyc, late = o
        d, n = self.d, self.n
        if off is None and t.bit(self.s["offer"]):
            off = t.fresh(8 * n)
        t.set(d.stream.valid, int(off is not None))
        t.set(d.stream.payload, off if off is not None else t.fresh(8 * n))
        line = t.val(d.tx)
        if frame is None and wait:
            # the next frame must begin at once: at most two cycles of forwarding, none inside a word
            if t.decide(line):
                t.require(len(wait) == n * 1 and late < 3, "line", "the frames of a word must follow each other without a gap", d.tx)
                late += 1
            else:
                frame, wait, bit, cyc, late = cat(K(0, 1), wait[0], K(1, 1)), wait[1:], 0, 0, 0
        elif frame is None:
            t.same(d.tx, 1, "line", "the line must be high between frames", d.tx)
        if frame is not None:
            t.same(d.tx, frame[bit], "line", "bit %d of the frame must be on the line for divisor cycles" % bit, d.tx)
        ready = t.bit(d.stream.ready)
        idle = t.bit(d.idle)
        if wait and not (len(wait) == 1 and frame is not None and bit == 9 and cyc == self.div - 1) and not (n == 1 and frame is None):
            t.require(not ready, "ready", "a word is accepted while bytes of the previous one are waiting", d.stream.ready)
        if not wait and frame is None:
            t.require(ready, "ready", "an idle transmitter must be ready", d.stream.ready)
            t.require(idle, "status", "idle must be high when there is nothing to send", d.idle)
        if wait:
            t.require(not idle, "status", "idle must be low while bytes are waiting", d.idle)
        if frame is not None:
            cyc += 1
            if cyc == self.div:
                bit, cyc = bit + 1, 0
                if bit == 10:
                    frame, bit = None, 0
        if ready and off is not None:
            wait = wait + tuple(off[8 * i:8 * i + 8] for i in range(n))
            off = None
        return (off, wait, frame, bit, cyc, late)


def single(div):
    name = "transmitter, divisor %d" % div

    def task(r):
        stubs.install()
        from amlib.stream.uart import UARTTransmitter

        def mk():
            d = UARTTransmitter(divisor=div)
            d.v_s = dict(offer=Signal(name="offer"))
            return d

        def spec(d):
            ins = [("offer", d.v_s["offer"], "c")] + ports(("x", "valid", d.stream.valid), ("x", "payload", d.stream.payload),
                                                          ("d", "first", d.stream.first), ("d", "last", d.stream.last))
            return ins, Tx(d, div, d.v_s), dict(must=["line", "ready", "status"], clock="sync")
        flow_task(r, mk, spec, config=name)
    return name, task


def multi(n, div):
    name = "multibyte transmitter, %d bytes, divisor %d" % (n, div)

    def task(r):
        stubs.install()
        from amlib.stream.uart import UARTMultibyteTransmitter

        def mk():
            d = UARTMultibyteTransmitter(byte_width=n, divisor=div)
            d.v_s = dict(offer=Signal(name="offer"))
            return d

        def spec(d):
            ins = [("offer", d.v_s["offer"], "c")] + ports(("x", "valid", d.stream.valid), ("x", "payload", d.stream.payload),
                                                          ("d", "first", d.stream.first), ("d", "last", d.stream.last))
            return ins, Multi(d, n, div, d.v_s), dict(must=["line", "ready", "status"], clock="sync")
        flow_task(r, mk, spec, config=name)
    return name, task


class Bus:
    """every acknowledged write is sent exactly once; reads are acknowledged and send nothing"""

    def __init__(self, d, div, s):
        self.d, self.div, self.s = d, div, s

    def init(self, flow):
        return (None, None, 0, 0, 0)

    def step(self, o, t):
        req, frame, bit, cyc, wait = o
        d, b = self.d, self.d.bus
        if frame is None:
            t.same(d.tx, 1, "line", "the line must be high between frames", d.tx)
        else:
            t.same(d.tx, frame[bit], "line", "bit %d of the written word's frame must be on the line for divisor cycles" % bit, d.tx)
        if req is None:
            k = t.int(self.s["kind"])
            if k == 3:
                we = t.bit(self.s["we"])
                req = (we, t.fresh(8) if we else None)
                wait = 0
            else:
                t.set(b.cyc, int(k == 2))
                t.set(b.stb, int(k == 1))
                t.set(b.we, t.bit(self.s["we"]))
                t.set(b.dat_w, t.fresh(8))
                t.same(b.ack, 0, "ack", "there is no access to acknowledge", b.ack)
        acked = None
        if req is not None:
            t.set(b.cyc, 1)
            t.set(b.stb, 1)
            t.set(b.we, int(req[0]))
            t.set(b.dat_w, req[1] if req[0] else t.fresh(8))
            last = frame is not None and bit == 9 and cyc == self.div - 1
            if t.bit(b.ack):
                if req[0]:
                    t.require(frame is None or last, "ack", "a write is acknowledged while the transmitter is busy", b.ack)
                    acked = req[1]
                req = None
                wait = 0
            else:
                t.require(wait < 10 * self.div + 1, "ack", "the access is never acknowledged", b.ack)
                wait += 1
        if frame is not None:
            cyc += 1
            if cyc == self.div:
                bit, cyc = bit + 1, 0
                if bit == 10:
                    frame, bit = None, 0
        if acked is not None:
            frame, bit, cyc = cat(K(0, 1), acked, K(1, 1)), 0, 0
        return (req, frame, bit, cyc, wait)


def bus(div):
    name = "bus transmitter, divisor %d" % div

    def task(r):
        stubs.install()
        from amlib.stream.uart import UARTTransmitterPeripheral

        def mk():
            d = UARTTransmitterPeripheral(div)
            d.v_s = dict(kind=Signal(2, name="kind"), we=Signal(name="req_we"))
            return d

        def spec(d):
            ins = [(k, x, "c") for k, x in d.v_s.items()] + ports(*[("x", f, d.bus[f]) for f in ("cyc", "stb", "we", "dat_w")]) + [("sel", d.bus.sel, "k:1")]
            return ins, Bus(d, div, d.v_s), dict(must=["line", "ack"], clock="sync")
        flow_task(r, mk, spec, config=name)
    return name, task


def tasks(tier):
    ds = [2, 3, 4, 10, 33, 300] + ([16, 1000] if tier == "thorough" else [])
    ts = [single(x) for x in ds] + [multi(*c) for c in [(1, 3), (2, 2), (4, 4)] + [(5, 3), (8, 2), (9, 2)] + ([(3, 5), (16, 2), (33, 2)] if tier == "thorough" else [])]
    return ts + [bus(x) for x in ([3, 4, 10] + ([33] if tier == "thorough" else []))]
