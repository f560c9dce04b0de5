"""C21: I2S transmitter."""
from hwsa.util import *

EXPLANATION = """
Typestate analysis of the transmitter IR (synchronisers, FIFO, FSM) against an I2S bus master with free-running bit and
word clocks: every bit-clock phase may have any length above the minimum, every slot any number of bit clocks above
sample_width, the transmitter may be enabled and disabled at any bit clock, and samples arrive at any time with any
channel flag.  The protocol automaton keeps the queue of accepted samples (provenance tokens) and determines which bit
has to be on the data line at every rising bit-clock edge of every slot, and when underflow or mismatch are reported.
"""
ASSUMPTIONS = ["bit clock phases last at least five cycles, the word clock changes with the falling bit clock edge, slots have at least sample_width+1 bit clocks",
               "enable_in changes at most once per bit clock, and not within the first four cycles after a bit clock edge"]
MUST = ["bit", "silence", "report", "level", "capacity", "trap:pop", "trap:underflow", "format"]
SETTLE = 4


class Tx:
    """(clock high?, cycles in phase, left?, bit clocks in slot, synchronisation state, word being sent, queue, cycles since the last change of
    the queue, strobe seen since the slot began, queue at the slot start known to be non-empty, enable)
    sync: off (waits for a right slot) / armed (waits for the left slot) / run"""

    def __init__(self, d, sw, h, depth, mode, s):
        self.d, self.sw, self.h, self.depth, self.s = d, sw, h, depth, s
        self.anyflag, self.calm = mode == "arbitrary flags", mode == "steady"

    def init(self, flow):
        return (False, 0, True, 2, "off", None, (), 0, None, False, self.calm, True)

    def step(self, o, t):
        hi, cnt, left, n, sync, word, q, age, seen, sure, en, nxt = o
        d, sw, h, s = self.d, self.sw, self.h, self.s
        t.set(d.serial_clock_in, int(hi))
        t.set(d.word_select_in, int(not left))
        t.set(d.enable_in, int(en))
        und, mis = t.bit(d.underflow_out), t.bit(d.mismatch_out)
        # ------------------------------------------------------------------ start of a slot: n == 0, first rising edge seen
        decide = hi and n == 1 and cnt <= SETTLE and sync == "run"
        if und or mis:
            t.require(decide and seen is None and not (und and mis), "report", "underflow or mismatch outside the beginning of a slot, or twice", d.underflow_out if und else d.mismatch_out)
            seen = "und" if und else "mis"
        if decide and cnt == SETTLE:
            if seen == "und":
                t.mark("underflow")
                t.require(not sure, "report", "underflow is reported although a sample is waiting", d.underflow_out)
                word = None
            elif seen == "mis":
                t.mark("mismatch")
                if t.require(bool(q), "report", "mismatch is reported although no sample is waiting", d.mismatch_out):
                    t.require(q[0][1] != left, "report", "mismatch is reported although the sample belongs to this channel", d.mismatch_out)
                word = None
            else:
                if t.require(bool(q), "report", "no underflow is reported although no sample is waiting", d.underflow_out):
                    t.mark("pop")
                    t.require(q[0][1] == left, "report", "no mismatch is reported although the sample belongs to the other channel", d.mismatch_out)
                    word, q, age = q[0][0], q[1:], 0
        # ------------------------------------------------------------------ data line
        if hi and sync == "run" and 2 <= n <= sw + 1 or not hi and cnt >= SETTLE and sync == "run" and 1 <= n <= sw:
            k = sw - (n - 1) if hi else sw - n
            if word is None:
                t.same(d.serial_data_out, 0, "silence", "without a sample zeros have to be sent", d.serial_data_out)
            else:
                t.same(d.serial_data_out, word[k], "bit", "bit %d of the sample has to be on the data line" % k, d.serial_data_out)
        # ------------------------------------------------------------------ stream side
        if age >= SETTLE and not decide:
            t.same(d.fifo_level_out, len(q), "level", "fifo_level_out must be the number of waiting samples", d.fifo_level_out)
            t.require(t.bit(d.stream_in.ready) or len(q) >= self.depth, "capacity", "ready is withheld although there is room", d.stream_in.ready)
        age = min(age + 1, SETTLE)
        # two environments: consistent channel flags at any time, or arbitrary channel flags at settled times
        valid = self.calm or (not self.anyflag or cnt == h) and t.bit(s["valid"])
        t.set(d.stream_in.valid, int(valid))
        if valid and t.bit(d.stream_in.ready):
            first = bool(t.bit(s["first"])) if self.anyflag else nxt
            t.set(d.stream_in.first, int(first))
            q = q + ((t.val(d.stream_in.payload), bool(first)),)
            nxt = self.anyflag or not first
            age = 0
            t.require(len(q) <= self.depth + 1, "capacity", "more samples are accepted than can be held", d.stream_in.ready)
        else:
            t.set(d.stream_in.first, 0)
        # ------------------------------------------------------------------ the clocks
        go = cnt >= h and (self.calm or t.bit(s["go"]))
        settled = cnt == h - 1
        cnt = min(cnt + 1, h)
        if hi and settled and not self.calm and t.bit(s["toggle"]) and n != 1:
            en = not en
            if not en:
                sync, word = "off", None
            cnt = h
        if go:
            cnt = 0
            if hi:
                hi = False
                if n >= sw + 1 and (self.calm or t.bit(s["slot"])):
                    left, n = not left, 0
            else:
                hi = True
                n = min(n + 1, sw + 2)
                if en:
                    if n == 1 and left and sync == "armed":
                        sync = "run"
                    if sync == "off" and not left:
                        sync = "armed"
                if n == 1:
                    seen, sure = None, bool(q) and age >= SETTLE
                    word = None if sync != "run" else word
        if n != 1 or not hi or cnt > SETTLE:
            seen = None
        if n > 1:
            sure = False
        if n > sw + 1 or n == sw + 1 and not hi:
            word = None
        return (hi, cnt, left, n, sync, word, q, age, seen, sure, en, nxt)


def tx(sw, h, depth, mode):
    name = "%d bit samples, phases of %d, FIFO depth %d, %s" % (sw, h, depth, mode)

    def task(r):
        from amlib.io.i2s import I2STransmitter

        def mk():
            d = I2STransmitter(sample_width=sw, fifo_depth=depth)
            d.v_s = {n: Signal(name=n) for n in ("go", "slot", "toggle", "first", "valid")}
            return d

        def spec(d):
            si = d.stream_in
            ins = [(n, x, "c") for n, x in d.v_s.items()]
            ins += ports(("x", "valid", si.valid), ("x", "first", si.first), ("k:0", "last", si.last), ("d", "payload", si.payload),
                         ("x", "bclk", d.serial_clock_in), ("x", "ws", d.word_select_in), ("x", "enable", d.enable_in))
            trap = ["pop"] if mode == "steady" else ["pop", "underflow"]
            return ins, Tx(d, sw, h, depth, mode, d.v_s), dict(must=["bit", "level", "report"], no_trap=trap)
        flow_task(r, mk, spec, config=name)
    return name, task


def formats(r):
    """every frame format that the constructor accepts has to give a transmitter"""
    from amlib.io.i2s import I2STransmitter, I2S_FORMAT
    for f in I2S_FORMAT:
        try:
            from amaranth.hdl.ir import Fragment
            Fragment.get(I2STransmitter(sample_width=24, frame_format=f), None)
            r.ok("format")
        except Exception as e:
            r.bad("format:" + f.name, "the transmitter cannot be elaborated for the frame format %s: %s: %s" % (f.name, type(e).__name__, e),
                  where="amlib/io/i2s.py I2STransmitter.elaborate")


def tasks(tier):
    cfg = [(3, 5, 2, "alternating flags"), (2, 5, 2, "arbitrary flags")]
    cfg += [(w, 5, 2, "steady") for w in (1, 8, 12, 15, 16, 17, 20, 24, 31, 32)]
    if tier == "thorough":
        cfg += [(4, 5, 3, "alternating flags"), (3, 6, 2, "arbitrary flags"), (8, 5, 2, "alternating flags")]
        cfg += [(w, 5, 4, "steady") for w in list(range(2, 40)) + [48, 63, 64]]
    return [tx(*c) for c in cfg] + [("frame-formats", formats)]
