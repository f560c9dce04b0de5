"""C13: I2C initiator."""
from hwsa.util import *

EXPLANATION = """
Typestate analysis of the initiator's IR together with an open-drain bus and a device that may pull SDA (changing it
only while SCL is low) and stretch SCL for any time.  Bus events (SCL edges, SDA edges while SCL is high) are checked
against a protocol automaton driven by the accepted commands; octets, read data and acknowledge bits are provenance
tokens, so the result holds for all data, and for all command sequences and stretch schedules.
"""
# cycles (bus synchronisers, state changes) a phase may take beyond half the period when nobody stretches it
ASSUMPTIONS = ["commands are given in a legal order (start first; after stop only start; no start directly after start) and one strobe at a time",
               "devices change SDA only while SCL is low and release it outside their bits"]
MUST = ["open-drain", "bus-order", "write-bit", "release", "ack", "read-data", "read-ack", "clock-count", "phase", "trap:idle"]
SLACK = 8


class Init:
    """state: (op, own view of the bus, device)"""

    def __init__(self, d, pads, period, stretch, strb):
        self.d, self.pads, self.period, self.stretch, self.s = d, pads, period, stretch, strb

    def init(self, flow):
        # op None | (kind, rises, data bits, got bits), open transaction?, prev (scl, sda master), phase length, device sda,
        # device may set its bit, last ack/data result expectation
        return (None, False, (1, K(1, 1)), self.period, K(1, 1), 0, (0, False))

    def quiescent(self, o):
        """no octet in flight whose bits the automaton still has to see"""
        return o[0] is None or o[0][0] in ("start", "stop")

    def step(self, o, t):
        op, opened, (pscl, psda), plen, dev, low, (slow, idle) = o
        d, p, s = self.d, self.pads, self.s
        m = t.m
        # ---------------------------------------------------------------- the wires
        t.same(p.scl_t.o, 0, "open-drain", "SCL may only be pulled low, never driven high", p.scl_t.o)
        t.same(p.sda_t.o, 0, "open-drain", "SDA may only be pulled low, never driven high", p.sda_t.o)
        mscl = not t.bit(p.scl_t.oe)
        msda = t.inv(t.val(p.sda_t.oe))
        scl = 1 if mscl else 0
        held = bool(scl and not pscl and self.stretch and t.bit(s["hold"]))
        if held:
            scl = 0
        # the device changes its SDA contribution one cycle after SCL went low
        low = min(low + 1, 3) if not scl else 0
        # (or while it holds SCL, up to one cycle before it lets go)
        if not scl and (low == 2 or held):
            dev = self.device_bit(op, t)
        line = V(m.AND(t.node(msda), t.node(dev)), 1)
        line = V((line.raw,) if line.raw > 1 else line.raw, 1)
        t.set(p.scl_t.i, scl)
        t.set(p.sda_t.i, line)
        busy = t.bit(d.busy)
        t.require(not (idle and busy), "idle", "busy rises without a command", d.busy)
        # ---------------------------------------------------------------- bus events
        if scl != pscl:
            t.require(plen >= self.period // 2, "phase", "SCL phase of %d cycles is shorter than half the period" % plen, p.scl_t.oe)
            plen = 1
        else:
            plen = min(plen + 1, self.period)
        # how long this phase takes, not counting the cycles in which nobody wanted anything or the device holds the clock
        slow = 0 if scl != pscl or op is None else min(slow + (not held), self.period + 16)
        t.require(slow <= self.period // 2 + SLACK, "phase", "SCL stays unchanged for %d cycles inside a command, half the period is %d" % (slow, self.period // 2), p.scl_t.oe)
        if scl and pscl:
            if msda != psda:
                # SDA changed while SCL is high: only START / STOP conditions
                fell = t.eq(psda, 1) == 1 and t.eq(msda, 0) == 1
                rose = t.eq(psda, 0) == 1 and t.eq(msda, 1) == 1
                ok = op is not None and ((op[0] == "start" and fell and not op[3]) or (op[0] == "stop" and rose and not op[3]))
                t.require(ok, "bus-order", "SDA changes while SCL is high without a matching start/stop command", p.sda_t.oe)
                if ok:
                    t.same(dev, 1, "bus-order", "the %s condition must be visible on the bus, not hidden by a device that holds SDA" % op[0], p.sda_t.oe)
                    op, slow = (op[0], op[1], op[2], True), 0
        if scl and not pscl:
            if t.require(op is not None, "clock-count", "SCL pulse without a command", p.scl_t.oe):
                op = self.rise(op, msda, line, t)
        # ---------------------------------------------------------------- commands
        if op is not None and op[0] == "new":
            op = op[1]
        elif not busy:
            if op is not None:
                self.finished(op, t)
                op = None
        strobes = {}
        legal = {"": ("start",), "start": ("write", "read", "stop")}.get(opened or "", ("start", "write", "read", "stop"))
        k = None
        for name in ("start", "stop", "write", "read"):
            if name in legal and k is None and t.bit(s[name]):
                k = name
                t.set(getattr(d, name), 1)
            else:
                t.set(getattr(d, name), 0)
        if busy:
            # strobes are ignored while busy
            k = None
        else:
            t.mark("idle")
        idle = not busy and k is None
        if k:
            bits = ()
            if k == "write":
                v = t.val(d.data_i)
                bits = tuple(v[7 - i] for i in range(8))
            elif k == "read":
                bits = (t.inv(t.val(d.ack_i)),)
            op = ("new", (k, 0, bits, () if k in ("write", "read") else False))
            opened = "start" if k == "start" else k != "stop"
        return (op, opened, (scl, msda), plen, dev, low, (slow, idle))

    def device_bit(self, op, t):
        """what the device puts on SDA in this SCL low phase"""
        if op is None or op[0] in ("start", "stop", "new"):
            return K(1, 1)
        k, n = op[0], op[1]
        if k == "write":
            return t.fresh(1) if n == 8 else K(1, 1)
        return t.fresh(1) if n < 8 else K(1, 1)

    def rise(self, op, msda, line, t):
        k, n, bits, got = op
        p = self.pads
        if k == "write":
            if not t.require(n < 9, "clock-count", "more than nine SCL pulses in a write", p.scl_t.oe):
                return op
            if n < 8:
                t.same(msda, bits[n], "write-bit", "SDA must carry bit %d of the octet (MSB first) while SCL is high" % (7 - n), p.sda_t.oe)
            else:
                t.same(msda, 1, "release", "SDA must be released for the acknowledge bit", p.sda_t.oe)
                got = (line,)
        elif k == "read":
            if not t.require(n < 9, "clock-count", "more than nine SCL pulses in a read", p.scl_t.oe):
                return op
            if n < 8:
                t.same(msda, 1, "release", "SDA must be released while the device sends", p.sda_t.oe)
                got = got + (line,)
            else:
                t.same(msda, bits[0], "read-ack", "SDA must carry the requested acknowledge bit", p.sda_t.oe)
        elif k == "start":
            t.require(not got and n < 1, "clock-count", "extra SCL pulse in a start condition", p.scl_t.oe)
        else:
            t.require(not got and n < 1, "clock-count", "extra SCL pulse in a stop condition", p.scl_t.oe)
        return (k, n + 1, bits, got)

    def finished(self, op, t):
        k, n, bits, got = op
        d = self.d
        if k in ("start", "stop"):
            t.require(bool(got), "bus-order", "the %s command ended without a %s condition on the bus" % (k, k), self.pads.sda_t.oe)
        else:
            t.require(n == 9, "clock-count", "a %s must take exactly nine SCL pulses (%d seen)" % (k, n), self.pads.scl_t.oe)
            if n == 9 and k == "write":
                t.same(d.ack_o, t.inv(got[0]), "ack", "ack_o must reflect SDA at the ninth SCL pulse", d.ack_o)
            if n == 9 and k == "read":
                t.same(d.data_o, cat(*reversed(got)), "read-data", "data_o must hold the eight bits sampled while SCL was high, MSB first", d.data_o)


def initiator(period, stretch, name):
    def task(r):
        from amlib.io import i2c as M

        def mk():
            pads = M._DummyPads()
            d = M.I2CInitiator(pads, period, clk_stretch=stretch)
            d.v_pads = pads
            d.v_s = {n: Signal(name="cmd_" + n) for n in ("start", "stop", "write", "read", "hold")}
            return d

        def spec(d):
            p, s = d.v_pads, d.v_s
            ins = [("cmd_" + n, x, "c") for n, x in s.items()]
            ins += ports(("x", "start", d.start), ("x", "stop", d.stop), ("x", "write", d.write), ("x", "read", d.read),
                         ("d", "data_i", d.data_i), ("d", "ack_i", d.ack_i), ("x", "scl", p.scl_t.i), ("x", "sda", p.sda_t.i))
            return ins, Init(d, p, period, stretch, s), dict(
                must=["open-drain", "bus-order", "write-bit", "release", "ack", "read-data", "read-ack", "clock-count", "phase"], no_trap=["idle"])
        flow_task(r, mk, spec, config=name)
    return name, task


def tasks(tier):
    ps = [(4, True), (4, False), (8, True), (16, False), (9, True), (32, True), (6, True), (7, False), (40, False)]
    if tier == "thorough":
        ps += [(16, True), (40, True), (100, False), (5, True), (48, True), (64, False)]
    return [initiator(p, s, "period %d%s" % (p, " with clock stretching" if s else "")) for p, s in ps]
