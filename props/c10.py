"""C10: asynchronous serial transmitter."""
from hwsa.util import *

EXPLANATION = """
Typestate analysis of the transmitter IR against a line-protocol automaton: after every accepted word the line has to
carry start bit, data bits (least significant first), parity bit and stop bit, every one of them for exactly `divisor`
cycles (the stop bit at least that long), the line idles high, and a further word is accepted only when no bit of the
previous one is outstanding.  Data bits are provenance tokens, so a pass holds for all data words; all acknowledge
schedules are covered.
"""
ASSUMPTIONS = ["the divisor input is constant and at least 1 while a frame is sent"]
MUST = ["line", "accept", "idle-line", "trap:rdy", "invalid-config"]


def frame_bits(t, data, parity):
    b = [K(0, 1)] + [data[i] for i in range(data.w)]
    if parity == "mark":
        b.append(K(1, 1))
    elif parity == "space":
        b.append(K(0, 1))
    elif parity == "even":
        b.append(t.parity(data))
    elif parity == "odd":
        b.append(t.inv(t.parity(data)))
    b.append(K(1, 1))
    return tuple(b)


class Line:
    """state: ('idle', data stop time left) / ('lead', cycles since accept, bits) / ('bit', index, cycle in bit, bits)"""

    def __init__(self, o, rdy, ack, data, div, parity):
        self.o, self.rdy, self.ack, self.data, self.div, self.parity = o, rdy, ack, data, div, parity

    def init(self, flow):
        return ("idle", ())

    def step(self, s, t):
        div = self.div
        line = t.val(self.o)
        st = s[0]
        if st == "idle":
            t.same(line, 1, "idle-line", "the idle line must be high", self.o)
        if st == "lead":
            n, bits = s[1], s[2]
            # the start bit has to begin now at the latest, and may not begin before the stop bit is complete
            if t.eq(line, 0) == 1:
                t.require(n >= 0, "line", "the stop bit of the previous frame was cut short", self.o)
                s = ("bit", 0, 0, bits)
                st = "bit"
            else:
                t.same(line, 1, "line", "only a start bit may follow the idle level", self.o)
                t.require(n <= div + 2, "line", "the start bit must follow an accepted word", self.o)
                s = ("lead", n + 1, bits)
        if st == "bit":
            k, c, bits = s[1:]
            t.same(line, bits[k], "line", "bit %d of the frame, cycle %d of %d" % (k, c, div), self.o)
            if k == len(bits) - 1:
                s = ("stop", c + 1) if c + 1 < div else ("idle", ())
            else:
                s = ("bit", k, c + 1, bits) if c + 1 < div else ("bit", k + 1, 0, bits)
        elif st == "stop":
            c = s[1]
            t.same(line, 1, "line", "stop bit, cycle %d of %d" % (c, div), self.o)
            s = ("stop", c + 1) if c + 1 < div else ("idle", ())
        if t.bit(self.rdy):
            t.mark("rdy")
            if t.bit(self.ack):
                t.require(s[0] in ("idle", "stop"), "accept", "a word is accepted while bits of the previous frame are still outstanding", self.rdy)
                d = t.val(self.data)
                if s[0] == "stop":
                    s = ("lead", s[1] - div, frame_bits(t, d, self.parity))
                elif s[0] == "idle":
                    s = ("lead", 0, frame_bits(t, d, self.parity))
        return s


def tx(div, data_bits, parity, dbits, live, name):
    def task(r):
        from amlib.io.serial import AsyncSerialTX

        def mk():
            return AsyncSerialTX(divisor=live or div, divisor_bits=dbits, data_bits=data_bits, parity=parity)

        def spec(d):
            ins = ports(("c", "ack", d.ack), ("d", "data", d.data))
            if live:
                ins.append(("divisor", d.divisor, "k:%d" % div))
            return ins, Line(d.o, d.rdy, d.ack, d.data, div, parity), dict(
                must=["line", "accept", "idle-line"], no_trap=["rdy"])
        flow_task(r, mk, spec, config=name)
    return name, task


def txpins(r):
    from amlib.io.serial import AsyncSerial
    from amaranth import Record

    def mk():
        p = Record([("rx", [("i", 1)]), ("tx", [("o", 1)])])
        d = AsyncSerial(divisor=6, divisor_bits=5, data_bits=5, parity="odd", pins=p)
        d.p = p
        return d

    def spec(d):
        ins = ports(("c", "ack", d.tx.ack), ("d", "data", d.tx.data), ("k:7", "divisor", d.divisor), ("k:1", "rx", d.p.rx.i))
        return ins, Line(d.p.tx.o, d.tx.rdy, d.tx.ack, d.tx.data, 7, "odd"), dict(must=["line", "accept"], no_trap=["rdy"])
    flow_task(r, mk, spec)


def invalid(r):
    from amlib.io import serial as S
    for what, fn in [("TX divisor 0", lambda: S.AsyncSerialTX(divisor=0)), ("RX divisor 4", lambda: S.AsyncSerialRX(divisor=4)),
                     ("transceiver divisor 4", lambda: S.AsyncSerial(divisor=4)),
                     ("TX parity", lambda: S.AsyncSerialTX(divisor=9, parity="both")), ("RX parity", lambda: S.AsyncSerialRX(divisor=9, parity=""))]:
        try:
            fn()
            r.bad("invalid-config", "%s is accepted" % what, "amlib/io/serial.py")
        except ValueError:
            r.ok("invalid-config")
    for what, fn in [("TX divisor 1", lambda: S.AsyncSerialTX(divisor=1)), ("RX divisor 5", lambda: S.AsyncSerialRX(divisor=5))]:
        fn()
        r.ok("invalid-config")


def tasks(tier):
    ts = []
    for p in ("none", "mark", "space", "even", "odd"):
        ts.append(tx(3, 8, p, None, None, "TX /3 8 bits parity %s" % p))
    cfg = [(1, 8, "none", None, None), (2, 5, "even", 8, None), (4, 7, "odd", 6, 9), (7, 8, "even", None, 5), (10, 9, "none", None, None),
           (1, 1, "odd", None, None), (16, 8, "none", 16, 434), (434, 8, "none", None, None), (300, 16, "even", 12, None), (257, 5, "odd", 9, 3)]
    if tier == "thorough":
        cfg += [(n, w, p, None, None) for n in (1, 2, 5, 8, 17) for w in (1, 6, 8, 16) for p in ("none", "even", "odd", "mark")]
        cfg += [(104, 8, "even", None, None)]
    for div, w, p, db, live in cfg:
        ts.append(tx(div, w, p, db, live, "TX /%d %d bits parity %s%s" % (div, w, p, " (divisor input, reset %d)" % live if live else " (%s divisor bits)" % db if db else "")))
    return ts + [("transceiver TX with pins", txpins), ("invalid configurations", invalid)]
