"""C22: I2S receiver."""
from hwsa.util import *

EXPLANATION = """
Typestate analysis of the receiver IR (synchronisers, FSM, FIFO) against an I2S bus master: every bit-clock phase may
have any length above the minimum, every slot any number of bit clocks above the minimum, the receiver may be enabled
and disabled at any bit clock and the output stalled at will.  Every bit on the data line is a provenance token; the
automaton composes the samples from the bits at the rising clock edges of each slot and requires exactly these samples,
in order and with the channel flags, on the output stream; with a full FIFO exactly the newest sample is lost.
"""
ASSUMPTIONS = ["bit clock phases last at least five cycles, word clock and data change with the falling bit clock edge, slots have at least sample_width+1 "
               "(left justified: sample_width) bit clocks", "enable_in changes at most once per bit clock, and not within the first four cycles after a bit clock edge; "
               "it is not withdrawn between the first right channel bit clock and the left channel that follows it",
               "while the FIFO is full, samples are taken from it only between two bit clock edges"]
MUST = ["sample", "flags", "complete", "level", "trap:left", "trap:right"]
SETTLE = 4


class Rx:
    """(clock high?, cycles in phase, left?, bit clocks in slot, synchronisation state, bits, complete sample, queue, age, enable, data line)"""

    def __init__(self, d, sw, h, depth, delay, mode, s):
        self.d, self.sw, self.h, self.depth, self.delay, self.s = d, sw, h, depth, delay, s
        self.calm, self.overflow = mode == "steady", mode == "overflow"

    def init(self, flow):
        return (False, 0, True, 2, "off", (), (), (), 0, self.calm, K(0, 1))

    def step(self, o, t):
        hi, cnt, left, n, sync, bits, done, q, age, en, line = o
        d, sw, h, s, dl = self.d, self.sw, self.h, self.s, self.delay
        so = d.stream_out
        t.set(d.serial_clock_in, int(hi))
        t.set(d.word_select_in, int(left) if not dl else int(not left))
        t.set(d.serial_data_in, line)
        t.set(d.enable_in, int(en))
        # ------------------------------------------------------------------ output stream
        # the sample is written when the next slot has been recognised (n == 1 + delay); it may appear from then on
        ready = not self.overflow and (self.calm or t.bit(s["ready"])) or self.overflow and cnt == h and t.bit(s["ready"]) or \
            not self.overflow and len(q) >= self.depth - 1
        t.set(so.ready, int(ready))
        valid = t.bit(so.valid)
        writing = bool(done) and hi and n >= 1 + dl and done[0][1] != left
        if age >= SETTLE and not writing:
            t.same(d.fifo_level_out, len(q), "level", "fifo_level_out must be the number of waiting samples", d.fifo_level_out)
            t.require(valid == bool(q), "complete", "a waiting sample must be offered, and only a waiting sample", so.valid)
        age = min(age + 1, SETTLE)
        if valid:
            if not q and writing:
                q, done, age, writing = (done[0],), done[1:], 0, False
            if t.require(bool(q), "complete", "a sample is offered although none was received", so.valid):
                t.same(so.payload, q[0][0], "sample", "the sample must be composed of the received bits, most significant bit first", so.payload)
                t.same(so.first, int(q[0][1]), "flags", "first must mark exactly the left channel", so.first)
                t.same(so.last, int(not q[0][1]), "flags", "last must mark exactly the right channel", so.last)
                if ready:
                    t.mark("left" if q[0][1] else "right")
                    q, age = q[1:], 0
        # ------------------------------------------------------------------ the clocks
        if writing and cnt == SETTLE:
            if len(q) < self.depth:
                q, age = q + (done[0],), 0
            done = done[1:]
        go = cnt >= h and (self.calm or t.bit(s["go"]))
        settled = cnt == h - 1
        cnt = min(cnt + 1, h)
        if hi and settled and not self.calm and sync != "armed" and t.bit(s["toggle"]):
            en = not en
            if not en:
                sync, bits, done = "off", (), ()
        if go:
            cnt = 0
            if hi:
                hi = False
                if n >= sw + dl and (self.calm or t.bit(s["slot"])):
                    left, n = not left, 0
                line = t.fresh(1)
            else:
                hi = True
                n = min(n + 1, sw + dl + 1)
                if en:
                    if n == 1 and left and sync == "armed":
                        sync = "run"
                    if sync == "off" and not left:
                        sync = "armed"
                if n == 1:
                    bits = ()
                if sync == "run" and 1 + dl <= n <= sw + dl:
                    bits = bits + (line,)
                    if len(bits) == sw:
                        done, bits = done + ((cat(*reversed(bits)), left),), ()
        return (hi, cnt, left, n, sync, bits, done, q, age, en, line)


def rx(sw, h, depth, fmt, mode):
    name = "%s, %d bit samples, phases of %d, FIFO depth %d, %s" % (fmt, sw, h, depth, mode)

    def task(r):
        from amlib.io.i2s import I2SReceiver, I2S_FORMAT

        def mk():
            d = I2SReceiver(sample_width=sw, fifo_depth=depth, frame_format=I2S_FORMAT[fmt])
            d.v_s = {n: Signal(name=n) for n in ("go", "slot", "toggle", "ready")}
            return d

        def spec(d):
            ins = [(n, x, "c") for n, x in d.v_s.items()]
            ins += ports(("x", "ready", d.stream_out.ready), ("x", "data", d.serial_data_in),
                         ("x", "bclk", d.serial_clock_in), ("x", "ws", d.word_select_in), ("x", "enable", d.enable_in))
            return ins, Rx(d, sw, h, depth, 1 if fmt == "STANDARD" else 0, mode, d.v_s), dict(must=["sample", "flags", "complete"], no_trap=["left", "right"])
        flow_task(r, mk, spec, config=name)
    return name, task


def tasks(tier):
    cfg = [(3, 5, 3, "STANDARD", "any schedule"), (3, 5, 3, "LEFT_JUSTIFIED", "any schedule"), (2, 5, 2, "STANDARD", "overflow")]
    cfg += [(w, 5, 2, f, "steady") for w in (1, 8, 12, 15, 16, 17, 20, 24, 31, 32) for f in ("STANDARD", "LEFT_JUSTIFIED")]
    if tier == "thorough":
        cfg += [(4, 5, 2, "STANDARD", "any schedule"), (3, 6, 3, "LEFT_JUSTIFIED", "any schedule"), (3, 5, 2, "LEFT_JUSTIFIED", "overflow")]
        cfg += [(w, 5, 2, f, "steady") for w in list(range(2, 40)) + [48, 63, 64] for f in ("STANDARD", "LEFT_JUSTIFIED")]
    return [rx(*c) for c in cfg]
