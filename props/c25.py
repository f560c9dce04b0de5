"""C25: MAX7219 LED array."""
from hwsa.util import *

EXPLANATION = """
Typestate analysis of the LED array driver IR including its SPI controller: a bus decoder collects every chip-select
frame and compares it with the frame that the protocol requires next (the init commands once and in order, then the
eight digits in turn for ever).  Digit contents are provenance tokens, updates may arrive at any time during a transfer.
"""
ASSUMPTIONS = ["valid_in is given before the first or during a transfer", "divisor is at least 12"]
MUST = ["frame", "bit", "delay", "liveness", "trap:frame"]


class Arr:
    """(previous cs, sck, next frame index, bits received in the frame, frame words, displayed digits, cycles without a frame)"""

    def __init__(self, d, c, s):
        self.d, self.c, self.s = d, c, s

    def init(self, flow):
        n = 8 * self.c["no_modules"]
        return (False, False, 0, 0, None, tuple(K(0, 8) for _ in range(n)), 0, False)

    def step(self, o, t):
        pcs, pck, idx, k, frame, digits, wait, first = o
        d, c, s = self.d, self.c, self.s
        mods, seq = c["no_modules"], c["init_sequence"]
        spi = d.spi_bus_out
        cs = not t.bit(spi.cs)
        ck = t.bit(spi.sck)
        if cs and not pcs:
            t.require(first or wait >= c["init_delay"], "delay", "the first command is sent before the initial delay is over", spi.cs)
            t.require(not ck, "bit", "the clock must be low when the transfer begins", spi.sck)
            first = True
            if idx < len(seq):
                w = K((int(seq[idx][0]) << 8) | int(seq[idx][1]), 16)
                frame = cat(*[w] * mods)
            else:
                g = idx - len(seq)
                frame = cat(*[x for m in range(mods) for x in (digits[m * 8 + g], K(g + 1, 8))])
            k = 0
        if not cs and pcs:
            t.require(k == 16 * mods, "frame", "a frame has %d instead of %d bits" % (k, 16 * mods), spi.cs)
            t.mark("frame")
            idx += 1
            if idx == len(seq) + 8:
                idx = len(seq)
            frame, k, wait = None, 0, 0
        if ck and not pck:
            if t.require(cs and k < 16 * mods, "frame", "clock edge outside a frame", spi.sck):
                b = 16 * mods - 1 - k
                t.same(spi.sdo, frame[b], "bit", "bit %d of frame %d" % (b, idx), spi.sdo)
                k += 1
        if not cs:
            wait += 1
            t.require(wait <= (c["divisor"] * 2 + 8 if first else c["init_delay"] + c["divisor"] * 2 + 8), "liveness", "the next frame does not follow", spi.cs)
        # ------------------------------------------------------------------ updates
        v = (cs and pcs or not first and wait < c["init_delay"] - 4) and t.bit(s["valid"])
        t.set(d.valid_in, int(v))
        if v:
            digits = tuple(t.val(x) for x in d.digits_in)
        return (cs, ck, idx, k, frame, digits, wait, first)


def arr(name, **c):
    def task(r):
        from amlib.io import max7219 as M
        c.setdefault("no_modules", 1)
        c.setdefault("init_sequence", M.default_init_sequence)

        def mk():
            d = M.SerialLEDArray(**c)
            d.v_s = {"valid": Signal(name="valid")}
            return d

        def spec(d):
            ins = ports(("c", "valid", d.v_s["valid"]), ("x", "valid_in", d.valid_in), ("d", "sdi", d.spi_bus_out.sdi), *[("d", "digit%d" % i, x) for i, x in enumerate(d.digits_in)])
            return ins, Arr(d, c, d.v_s), dict(must=["frame", "bit", "delay", "liveness"], no_trap=["frame"])
        flow_task(r, mk, spec, config=name)
    return name, task


def tasks(tier):
    cfg = [("default commands, 1 module", dict(divisor=12, init_delay=20, no_modules=1)),
           ("default commands, 2 modules", dict(divisor=12, init_delay=5, no_modules=2)),
           ("3 modules", dict(divisor=12, init_delay=3, no_modules=3, init_sequence=[[1, 2]])),
           ("two commands", dict(divisor=14, init_delay=9, init_sequence=[[1, 2], [3, 0xff]])),
           ("one command", dict(divisor=12, init_delay=9, init_sequence=[[12, 1]])),
           ("nine commands", dict(divisor=12, init_delay=3, init_sequence=[[i + 1, i * 17] for i in range(9)])),
           ("divisor 40", dict(divisor=40, init_delay=50)), ("twenty commands", dict(divisor=16, init_delay=3, init_sequence=[[i + 1, 255 - i] for i in range(20)])),
           ("long delay", dict(divisor=12, init_delay=3000, init_sequence=[[1, 2]]))]
    if tier == "thorough":
        cfg += [("3 modules, default commands", dict(divisor=12, init_delay=1000, no_modules=3)), ("5 modules", dict(divisor=12, init_delay=3, no_modules=5, init_sequence=[[1, 2]])),
                ("divisor 300", dict(divisor=300, init_delay=20, init_sequence=[[1, 2]])), ("33 commands", dict(divisor=12, init_delay=3, init_sequence=[[i % 15 + 1, 7 * i] for i in range(33)]))]
    return [arr(n, **c) for n, c in cfg]
