"""C14: I2C target."""
from hwsa.util import *

EXPLANATION = """
Typestate analysis of the target's IR together with an arbitrary bus master: any sequence of start, stop, repeated
start (also in the middle of an octet), addresses, octets and acknowledge bits, with every bus phase of any length above
the minimum.  The protocol automaton derives from the bus alone which strobes the core has to see, with which octet,
and in which bit slots the target may and must pull SDA.  Octets are provenance tokens, so the result holds for all data.
"""
ASSUMPTIONS = ["bus phases last at least the number of cycles given in the configuration", "clock stretching (busy) is not used",
               "ack_o is given between the write strobe and the cycle before SCL rises, as documented",
               "after a not-acknowledged octet the master ends or restarts the transaction"]
MUST = ["no-drive", "sda-stable", "ack", "read-bit", "strobe", "write-data", "released"]


class Bus:
    def __init__(self, d, pads, addr, q, s):
        self.d, self.pads, self.addr, self.q, self.s = d, pads, addr, q, s

    def init(self, flow):
        # phase, cycles in phase, master SDA, previous oe, protocol state, pending strobes, current read octet
        return ("H", 0, K(1, 1), K(0, 1), ("idle",), (), None)

    def quiescent(self, o):
        # only when the phase has settled: the target sees every edge a few cycles later
        return o[1] >= self.q and o[4][0] in ("idle", "ign", "started", "aack", "wack", "end") and not o[5] and o[6] is None

    def step(self, o, t):
        ph, cnt, msda, poe, mon, pend, octet = o
        d, p, s, q = self.d, self.pads, self.s, self.q
        t.same(p.scl_t.o, 0, "no-drive", "SCL may never be driven high", p.scl_t.o)
        t.same(p.sda_t.o, 0, "no-drive", "SDA may never be driven high", p.sda_t.o)
        t.same(p.scl_t.oe, 0, "no-drive", "SCL may not be held without a stretch request", p.scl_t.oe)
        oe = t.val(p.sda_t.oe)
        n = t.m.AND(t.node(msda), t.m.NOT(t.node(oe)))
        line = V((n,) if n > 1 else n, 1)
        t.set(p.scl_t.i, 1 if ph == "H" else 0)
        t.set(p.sda_t.i, line)
        # ------------------------------------------------------------------ what the target may do to SDA
        k = mon[0]
        if ph == "H":
            if cnt or k in ("idle", "ign"):
                t.same(oe, poe, "sda-stable", "the target changes SDA while SCL is high", p.sda_t.oe)
            if k == "aack":
                t.same(oe, 1, "ack", "a matching address must be acknowledged", p.sda_t.oe)
            elif k == "wack":
                t.same(oe, int(mon[1]), "ack", "the octet must be acknowledged exactly if ack_o was given after the write strobe", p.sda_t.oe)
            elif k == "rd":
                if t.require(octet is not None, "strobe", "no read strobe before the octet has to be sent", d.read):
                    t.same(oe, t.inv(octet[7 - mon[1]]), "read-bit", "bit %d of the octet given at the read strobe must be on SDA" % (7 - mon[1]), p.sda_t.oe)
            else:
                t.same(oe, 0, "released", "SDA must be released in bit slots that belong to the master", p.sda_t.oe)
        elif k in ("idle", "ign", "started"):
            t.same(oe, 0, "released", "SDA must be released when the target is not addressed", p.sda_t.oe)
        # ------------------------------------------------------------------ where the master goes next
        go = cnt >= (q if ph != "L0" else 1) and t.bit(s["go"])
        nxt = (ph, min(cnt + 1, q), msda)
        events = []
        if go:
            # in a slot in which the target sends a one the master can still take the bus over
            owns = k in ("idle", "ign", "started", "addr", "wr", "end") or (k == "rd" and t.decide(t.inv(oe)))
            if ph == "H":
                if owns and (k in ("idle", "end") or t.bit(s["alt"])):
                    fall = t.decide(msda)
                    nxt = ("H", 0, K(0 if fall else 1, 1))
                    events.append("START" if fall else "STOP")
                else:
                    nxt = ("L0", 0, msda)
                    events.append("fall")
            elif ph == "L0":
                if k == "addr":
                    b = t.fresh(1, data=False)
                elif k == "wr":
                    b = t.fresh(1)
                elif k in ("rack", "end", "ign", "rd"):
                    b = K(t.bit(s["b"]), 1)
                else:
                    b = K(1, 1)
                nxt = ("L1", 0, b)
            else:
                nxt = ("H", 0, msda)
                events.append("rise")
        # ------------------------------------------------------------------ acknowledge window
        wrote = False
        ackable = k == "wack" and ph != "H" and not any(x[0] == "write" for x in pend)
        if k == "wack" and not mon[1] and (ph == "H" or "rise" in events):
            t.set(d.ack_o, 0)
        else:
            t.set(d.ack_o, t.val(s["ack"]))
        # ------------------------------------------------------------------ strobes
        rest = list(pend)
        for name in ("start", "stop", "restart", "write", "read"):
            sig = getattr(d, name)
            if t.bit(sig):
                i = next((i for i, x in enumerate(rest) if x[0] == name), None)
                if t.require(i == 0, "strobe", "unexpected %s strobe" % name, sig):
                    ev = rest.pop(0)
                    if name == "write":
                        t.same(d.data_i, ev[2], "write-data", "data_i must hold the octet, MSB first, at the write strobe", d.data_i)
                        wrote = True
                    if name == "read":
                        octet = t.val(d.data_o)
        if (ackable or wrote) and k == "wack" and not mon[1] and t.bit(d.ack_o):
            mon = ("wack", True)
        for x in rest:
            t.require(x[1] > 0, "strobe", "the %s strobe does not come" % x[0], getattr(d, x[0]))
        pend = [(x[0], x[1] - 1) + x[2:] for x in rest]
        # ------------------------------------------------------------------ protocol
        k = mon[0]
        dl = q - 1
        for e in events:
            if e == "rise":
                if k in ("addr", "wr"):
                    mon = (k, mon[1], mon[2] + (line,))
                elif k == "aack" and mon[1]:
                    pend.append(("read", dl))
                elif k == "rack":
                    nack = t.decide(msda)
                    mon = ("rack", nack)
                    pend.append(("stop" if nack else "read", dl))
                    octet = None
            elif e == "fall":
                if k == "started":
                    mon = ("addr", 0, ())
                elif k in ("addr", "wr") and mon[1] < 7:
                    mon = (k, mon[1] + 1, mon[2])
                elif k == "addr":
                    v = cat(*reversed(mon[2]))
                    if t.decide(t.eq(v[1:], self.addr)):
                        mon = ("aack", t.decide(v[0]))
                        pend.append(("start", dl))
                    else:
                        mon = ("ign",)
                elif k == "wr":
                    mon = ("wack", False)
                    pend.append(("write", dl, cat(*reversed(mon_bits(o[4])))))
                elif k == "aack":
                    mon = ("rd", 0) if mon[1] else ("wr", 0, ())
                elif k == "wack":
                    mon = ("wr", 0, ()) if mon[1] else ("end",)
                elif k == "rd":
                    mon = ("rd", mon[1] + 1) if mon[1] < 7 else ("rack", None)
                    if mon[0] == "rack":
                        octet = None
                elif k == "rack":
                    mon = ("ign",) if mon[1] else ("rd", 0)
            else:
                if k in ("wr", "end", "rd"):
                    pend.append(("restart" if e == "START" else "stop", dl))
                mon = ("started",) if e == "START" else ("idle",)
                octet = None
        return nxt[:2] + (nxt[2], oe, mon, tuple(pend), octet)


def mon_bits(mon):
    return mon[2]


def target(addr, q, name):
    def task(r):
        from amlib.io import i2c as M

        def mk():
            pads = M._DummyPads()
            d = M.I2CTarget(pads)
            d.v_pads = pads
            d.v_s = {n: Signal(name="bus_" + n) for n in ("go", "alt", "b", "ack")}
            return d

        def spec(d):
            p, s = d.v_pads, d.v_s
            ins = [("bus_" + n, x, "c") for n, x in s.items()]
            ins += ports(("x", "ack_o", d.ack_o), ("d", "data_o", d.data_o), ("k:%d" % addr, "address", d.address), ("k:0", "busy", d.busy),
                         ("x", "scl", p.scl_t.i), ("x", "sda", p.sda_t.i))
            return ins, Bus(d, p, addr, q, s), dict(
                must=["no-drive", "sda-stable", "ack", "read-bit", "strobe", "write-data", "released"])
        flow_task(r, mk, spec, config=name)
    return name, task


def tasks(tier):
    cfg = [(0x28, 5), (0x7f, 6), (0x00, 5), (0x55, 8), (0x33, 5), (0x40, 5)]
    if tier == "thorough":
        cfg += [(0x12, 12), (0x6a, 16), (0x01, 7)]
    return [target(a, q, "address 0x%02x, phases of at least %d cycles" % (a, q)) for a, q in cfg]
