"""C24: WS2812 LED driver."""
from hwsa.util import *

EXPLANATION = """
Typestate analysis of the LED driver IR including its memory: any writes to the LED memory and any start times.  After
every start the line has to show a reset (low for at least 50us), then for each LED in order the 24 bits of its memory
entry in GRB order, most significant bit first, every bit with its high time inside the window of its value, then a
reset and exactly one done strobe; the line is low otherwise.  Memory entries are provenance tokens, so this holds for
all colours.
"""
ASSUMPTIONS = ["the memory entry of an LED is not written in the last four cycles before its transmission begins, nor in the reset before the first LED",
               "LED addresses exist"]
MUST = ["reset", "high-time", "low-time", "period", "order", "done", "idle", "trap:done"]
# seconds: 0 high time, 1 high time, bit period
T0 = (0.20e-6, 0.50e-6)
T1 = (0.55e-6, 1.00e-6)
TP = (1.00e-6, 1.70e-6)
TR = 50e-6


class Leds:
    """('idle',) / ('reset', cycles) / ('bit', led, bit, cycle, was low?, entry, entries left) / ('final', cycles)"""

    def __init__(self, d, n, freq, s, ordered=False):
        self.d, self.n, self.f, self.s, self.ordered = d, n, freq, s, ordered

    def init(self, flow):
        return (("idle",), tuple(K(0, 24) for _ in range(self.n)), 0)

    def step(self, o, t):
        st, mem, nxt = o
        d, s, f, n = self.d, self.s, self.f, self.n
        out = t.val(d.data_out)
        done = t.bit(d.done_out)
        nolast = st[0] == "reset" or st[0] == "bit" and st[2] == 23 and (st[3] + 8) > TP[0] * f
        if st[0] in ("reset", "final"):
            c = min(st[1] + 1, int(TR * f) + 2)
            if t.eq(out, 1) == 1:
                if t.require(st[0] == "reset", "order", "an additional bit is sent", d.data_out):
                    t.require(st[1] >= TR * f - 1, "reset", "the reset before the data is only %d cycles long" % st[1], d.data_out)
                    st = ("bit", 0, 0, 0, False, mem[0])
            elif t.same(out, 0, "reset", "the line has to be low during the reset", d.data_out):
                t.require(st[1] <= 3 * TR * f, "reset", "the data does not follow the reset", d.data_out)
                st = (st[0], min(st[1] + 1, int(3 * TR * f) + 2))
        if st[0] == "idle":
            t.same(out, 0, "idle", "the line has to be low when idle", d.data_out)
        elif st[0] == "bit":
            led, bit, c, low, word = st[1:]
            if low and c >= TP[0] * f and t.eq(out, 1) == 1:
                t.require(True, "period", "")
                bit, c, low = bit + 1, 0, False
                if bit == 24:
                    led, bit = led + 1, 0
                    if t.require(led < n, "order", "more bits than LEDs are sent", d.data_out):
                        word = mem[led]
            b = t.node(word[23 - bit])
            x = t.node(out)
            m = t.m
            nb = m.NOT(b)
            may1 = m.OR(m.AND(b, int(c < T1[1] * f)), m.AND(nb, int(c < T0[1] * f)))
            may0 = m.OR(m.AND(b, int(c >= T1[0] * f)), m.AND(nb, int(c >= T0[0] * f)))
            if low:
                may1 = 0
            self.never(t, m.AND(x, m.NOT(may1)), "high-time", "bit %d of LED %d is high too long" % (23 - bit, led))
            self.never(t, m.AND(m.NOT(x), m.NOT(may0)), "low-time", "bit %d of LED %d falls too early" % (23 - bit, led))
            low = t.eq(out, 0) == 1 and c >= T1[0] * f
            c += 1
            if led == n - 1 and bit == 23 and low and c >= TP[1] * f:
                st = ("final", c - int(TP[1] * f))
            else:
                t.require(c < TP[1] * f + 1, "period", "the next bit does not follow", d.data_out)
                st = ("bit", led, bit, c, low, word)
        if done:
            t.mark("done")
            if t.require(st[0] == "final", "done", "done outside the final reset", d.done_out):
                t.require(st[1] >= TR * f - TP[1] * f, "reset", "the reset after the data is only %d cycles long" % st[1], d.done_out)
            st = ("idle",)
        else:
            t.require(True, "done", "")
            t.require(st[0] != "final" or st[1] <= 3 * TR * f, "done", "done is not signalled", d.done_out)
        # ------------------------------------------------------------------ inputs
        if self.ordered:
            # all entries are written in order while the driver is idle, then it is started
            we = o[0][0] == "idle" and nxt < n
            if we:
                t.set(d.led_address_in, nxt)
            start = o[0][0] == "idle" and not we and t.bit(s["write"])
            nxt = 0 if start else nxt + int(we)
            t.set(d.start_in, int(start))
            if start:
                st = ("reset", 0)
            elif we:
                e = cat(t.val(d.blue_in), t.val(d.red_in), t.val(d.green_in))
                mem = mem[:nxt - 1] + (e,) + mem[nxt:]
            else:
                t.set(d.led_address_in, 0)
            t.set(d.write_enable_in, int(we))
            return (st, mem, nxt)
        if o[0][0] == "idle" and t.bit(d.start_in):
            st = ("reset", 0)
        we = not nolast and t.bit(s["write"])
        if we:
            a = t.int(d.led_address_in)
            we = a < n
            if we:
                e = cat(t.val(d.blue_in), t.val(d.red_in), t.val(d.green_in))
                mem = mem[:a] + (e,) + mem[a + 1:]
        t.set(d.write_enable_in, int(we))
        return (st, mem, nxt)

    def never(self, t, node, rule, msg):
        t.same(V((node,) if node > 1 else node, 1), 0, rule, msg, self.d.data_out)


def leds(n, freq, ordered=False):
    name = "%d LEDs, clock %g MHz%s" % (n, freq / 1e6, ", written in order" if ordered else "")

    def task(r):
        from amlib.io.ws2812 import WS2812

        def mk():
            d = WS2812(sys_clock_freq=freq, no_leds=n)
            d.v_s = {"write": Signal(name="write")}
            return d

        def spec(d):
            k = "x" if ordered else "c"
            ins = ports(("c", "write", d.v_s["write"]), (k, "address", d.led_address_in), ("d", "red", d.red_in), ("d", "green", d.green_in),
                        ("d", "blue", d.blue_in), ("x", "we", d.write_enable_in), (k, "start", d.start_in))
            return ins, Leds(d, n, freq, d.v_s, ordered), dict(must=["reset", "high-time", "low-time", "done", "idle"], no_trap=["done"])
        flow_task(r, mk, spec, config=name)
    return name, task


def tasks(tier):
    cfg = [(1, 4e6), (2, 4e6), (3, 8e6), (3, 4e6, True), (4, 48e6, True), (7, 4e6, True), (8, 6e6, True), (31, 4e6, True), (64, 4e6, True), (2, 100e6, True)]
    if tier == "thorough":
        cfg += [(1, 8e6), (4, 6e6), (2, 20e6), (1, 48e6), (5, 4e6), (255, 4e6, True), (17, 60e6, True)]
    return [leds(*c) for c in cfg]
