"""C16: I2C stream transmitter."""
from hwsa.util import *

EXPLANATION = """
Typestate analysis of the stream transmitter including FIFO and initiator: an arbitrary packet stream (any packet
lengths, any valid schedule) on one side, a bus decoder on the other.  Every accepted packet has to appear as start
condition, its octets in order (tokens, so for all data), stop condition; nothing else may appear on the bus.
"""
ASSUMPTIONS = ["first is set on exactly the first, last on exactly the last word of every packet", "no device stretches the clock for ever"]
MUST = ["bus", "octet", "release", "capacity", "trap:idle-ready"]


class Tx:
    def __init__(self, d, pads, depth, stretch, s):
        self.d, self.pads, self.depth, self.stretch, self.s = d, pads, depth, stretch, s

    def init(self, flow):
        # words accepted but not completely sent (data, first, last), inside an input packet?, bus state, (scl, sda)
        return ((), False, ("idle",), (1, K(1, 1)), K(1, 1))

    def step(self, o, t):
        q, inpkt, bus, (pscl, psda), dev = o
        d, p, s = self.d, self.pads, self.s
        t.same(p.scl_t.o, 0, "bus", "SCL may never be driven high", p.scl_t.o)
        t.same(p.sda_t.o, 0, "bus", "SDA may never be driven high", p.sda_t.o)
        scl = 0 if t.bit(p.scl_t.oe) else 1
        sdav = t.inv(t.val(p.sda_t.oe))
        if scl and not pscl and self.stretch and t.bit(s["hold"]):
            scl = 0
        # the device acknowledges (or not) in the ninth slot
        if bus[0] == "oct" and bus[1] == 8:
            if not scl and pscl:
                dev = K(t.bit(s["nak"]), 1)
        elif not scl:
            dev = K(1, 1)
        n = t.m.AND(t.node(sdav), t.node(dev))
        t.set(p.scl_t.i, scl)
        t.set(p.sda_t.i, V((n,) if n > 1 else n, 1))
        # SDA edges while SCL is high
        if scl and pscl and sdav != psda:
            fell = t.eq(psda, 1) == 1 and t.eq(sdav, 0) == 1
            rose = t.eq(psda, 0) == 1 and t.eq(sdav, 1) == 1
            if bus[0] == "idle":
                if t.require(fell and bool(q) and q[0][1], "bus", "only a start condition for a waiting packet may appear on the idle bus", p.sda_t.oe):
                    bus = ("oct", 0)
            elif bus[0] == "stop":
                if t.require(rose, "bus", "a stop condition must end the packet", p.sda_t.oe):
                    bus = ("idle",)
            else:
                t.require(False, "bus", "start or stop condition inside a packet", p.sda_t.oe)
        if scl and not pscl:
            if bus[0] == "oct":
                if bus[1] < 8:
                    if t.require(bool(q), "octet", "an octet is sent although no word is waiting", p.scl_t.oe):
                        t.same(sdav, q[0][0][7 - bus[1]], "octet", "SDA must carry bit %d of the next word" % (7 - bus[1]), p.sda_t.oe)
                    bus = ("oct", bus[1] + 1)
                else:
                    t.same(sdav, 1, "release", "SDA must be released for the acknowledge bit", p.sda_t.oe)
                    if q:
                        bus = ("stop",) if q[0][2] else ("oct", 0)
                        q = q[1:]
            elif bus[0] == "stop":
                t.same(sdav, 0, "bus", "after the last octet only a stop condition may follow", p.sda_t.oe)
            else:
                # the initiator may prepare a start condition with a clock pulse (SDA high); devices ignore it
                t.require(bool(q), "bus", "SCL pulse although no packet is waiting", p.scl_t.oe)
                t.same(sdav, 1, "bus", "SDA must be high before a start condition", p.sda_t.oe)
        # input stream
        t.set(d.stream_in.first, int(not inpkt))
        last = t.bit(s["last"])
        t.set(d.stream_in.last, int(last))
        if t.bit(d.stream_in.ready):
            t.mark("ready")
            if bus[0] == "idle" and not q:
                t.mark("idle-ready")
            if t.bit(d.stream_in.valid):
                q = q + ((t.val(d.stream_in.payload), not inpkt, last),)
                inpkt = not last
        t.require(len(q) <= self.depth + 2, "capacity", "more words are accepted than can be held", d.stream_in.ready)
        return (q, inpkt, bus, (scl, sdav), dev)


def tx(period, stretch, depth, name):
    def task(r):
        from amlib.io import i2c as M
        from amlib.stream.i2c import I2CStreamTransmitter

        def mk():
            pads = M._DummyPads()
            d = I2CStreamTransmitter(pads, period, clk_stretch=stretch, fifo_depth=depth)
            d.v_pads = pads
            d.v_s = {n: Signal(name=n) for n in ("hold", "nak", "last")}
            return d

        def spec(d):
            p, s = d.v_pads, d.v_s
            ins = [(n, x, "c") for n, x in s.items()]
            si = d.stream_in
            ins += ports(("c", "valid", si.valid), ("x", "first", si.first), ("x", "last", si.last), ("d", "payload", si.payload),
                         ("x", "scl", p.scl_t.i), ("x", "sda", p.sda_t.i))
            return ins, Tx(d, p, depth, stretch, s), dict(must=["bus", "octet", "release", "capacity"], no_trap=["idle-ready"])
        flow_task(r, mk, spec, config=name)
    return name, task


def tasks(tier):
    cfg = [(4, False, 1), (4, True, 2), (8, False, 2), (16, False, 2), (12, True, 1)]
    if tier == "thorough":
        cfg += [(8, True, 3), (4, False, 4), (16, False, 5), (20, True, 2)]
    return [tx(p, s, d, "period %d, FIFO depth %d%s" % (p, d, ", clock stretching" if s else "")) for p, s, d in cfg]
