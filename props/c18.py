"""C18: SPI controller, SPI multiplexer, connection to platform resources."""
from hwsa.util import *

EXPLANATION = """
Typestate analysis of the SPI controller IR: for every start, the bus has to show exactly word_size sampling edges within
chip select, the bits of the word (provenance tokens) at these edges, and the word read back composed of the levels that
the device put on the bus at the same edges; chip select and clock are idle otherwise.  The multiplexer and the
connect_to_resource statements are analysed as combinational data flow.
"""
ASSUMPTIONS = ["start_transfer is given while no transfer is running", "word_out is kept from the start until word_accepted",
               "the device keeps its data stable from one output edge to the next"]
MUST = ["bus", "sdo", "word-in", "complete", "accepted", "phase", "mux", "resource"]


class Ctl:
    """(protocol state, cycles in it, W, received, prev cs, prev sck, phase length, sdi, prev sdo, last word)"""

    def __init__(self, d, c, s):
        self.d, self.c, self.s = d, c, s

    def init(self, flow):
        w = self.c["word_size"]
        return ("idle", 0, K(0, w), (), False, False, 9, K(0, 1), K(0, 1), K(0, w), 0)

    def step(self, o, t):
        st, n, wout, rx, pcs, pact, plen, sdi, psdo, last, acc = o
        d, c, s = self.d, self.c, self.s
        w, cpha = c["word_size"], c["clock_phase"]
        div = c["divisor"]
        cs = t.bit(d.spi.cs) != bool(c["cs_idles_high"])
        act = t.bit(d.spi.sck) != bool(c["clock_polarity"])
        sdo = t.val(d.spi.sdo)
        order = (lambda k: w - 1 - k) if c["msb_first"] else (lambda k: k)
        # ------------------------------------------------------------------ bus
        if not cs:
            t.require(not act, "bus", "the clock must be idle while the device is not selected", d.spi.sck)
        if cs and not pcs:
            if t.require(st == "wait", "bus", "chip select without a started transfer", d.spi.cs):
                st, n, rx = "on", 0, ()
                if not cpha:
                    sdi = t.fresh(1)
        if not cs and pcs:
            t.require(st in ("done", "wait"), "bus", "chip select released inside a transfer", d.spi.cs)
        if act != pact:
            if cs and st == "on":
                t.require(plen >= c["min"], "phase", "clock phase of %d cycles is too short" % plen, d.spi.sck)
            plen = 1
            if act == (not cpha):
                if t.require(st == "on" and len(rx) < w, "bus", "more than %d sampling edges in a transfer" % w, d.spi.sck):
                    k = order(len(rx))
                    t.same(sdo, wout[k], "sdo", "bit %d of word_out must be on sdo at the sampling edge" % k, d.spi.sdo)
                    t.same(psdo, wout[k], "sdo", "bit %d of word_out must be on sdo before the sampling edge" % k, d.spi.sdo)
                    rx = rx + (sdi,)
            elif st == "on":
                sdi = t.fresh(1)
        else:
            plen = min(plen + 1, 9)
        t.set(d.spi.sdi, sdi)
        # ------------------------------------------------------------------ user side
        if t.bit(d.word_accepted):
            t.require(st == "on" and len(rx) == w and not acc, "accepted", "word_accepted must come exactly once, after the last bit", d.word_accepted)
            acc = 1
        if t.bit(d.word_complete):
            t.require(acc == 1, "accepted", "word_complete without word_accepted", d.word_accepted)
            if t.require(st == "on" and len(rx) == w, "complete", "word_complete without a complete transfer", d.word_complete):
                last = cat(*(reversed(rx) if c["msb_first"] else rx))
                st, n = "done", -1
        t.same(d.word_in, last, "word-in", "word_in must hold the word read in the last transfer", d.word_in)
        start = False
        if st in ("idle", "done") and n >= 0 and t.bit(s["start"]):
            start, st, n, wout = True, "wait", -1, t.fresh(w)
            acc = 0
        t.set(d.start_transfer, int(start))
        t.set(d.word_out, t.fresh(w) if acc else wout)
        n += 1
        if st == "done":
            t.require(not cs or n <= div, "bus", "chip select is not released after the transfer", d.spi.cs)
            n = min(n, div)
            if not cs:
                st, n = "idle", 0
        elif st == "idle":
            n = 0
        else:
            t.require(n <= div * (w + 3), "complete", "a started transfer does not complete", d.word_complete)
        return (st, n, wout, rx, cs, act, plen, sdi, sdo, last, acc)


def ctl(name, **kw):
    def task(r):
        from amlib.io.spi import SPIControllerInterface
        cfg = dict(word_size=8, clock_polarity=0, clock_phase=0, msb_first=True, cs_idles_high=False)
        cfg.update(kw)
        cfg["min"] = 3 if kw.get("skip_input_cdc") else 4

        def mk():
            d = SPIControllerInterface(**kw)
            d.v_s = {n: Signal(name=n) for n in ("start",)}
            return d

        def spec(d):
            ins = [(n, x, "c") for n, x in d.v_s.items()]
            ins += ports(("x", "start_transfer", d.start_transfer), ("x", "sdi", d.spi.sdi), ("x", "word_out", d.word_out))
            return ins, Ctl(d, cfg, d.v_s), dict(must=["bus", "sdo", "word-in", "complete", "accepted", "phase"])
        flow_task(r, mk, spec, config=name)
    return name, task


def mux(n):
    def task(r):
        from amlib.io.spi import SPIMultiplexer, SPIDeviceBus

        def mk():
            buses = [SPIDeviceBus() for _ in range(n)]
            d = SPIMultiplexer(buses)
            d.v_b = buses
            return d

        def spec(d):
            ins = [("sck", d.shared_lines.sck, "d"), ("sdi", d.shared_lines.sdi, "d")]
            for i, b in enumerate(d.v_b):
                ins += [("cs%d" % i, b.cs, "c"), ("sdo%d" % i, b.sdo, "d")]

            def step(t):
                sel = None
                for i, b in enumerate(d.v_b):
                    t.same(b.sck, t.val(d.shared_lines.sck), "mux", "every bus gets the shared clock", b.sck)
                    t.same(b.sdi, t.val(d.shared_lines.sdi), "mux", "every bus gets the shared data", b.sdi)
                    if sel is None and t.bit(b.cs):
                        sel = i
                want = K(0, 1) if sel is None else t.val(d.v_b[sel].sdo)
                t.same(d.shared_lines.sdo, want, "mux", "sdo must come from the (first) selected bus, low when none is", d.shared_lines.sdo)
            return ins, Stateless(step), dict(must=["mux"])
        flow_task(r, mk, spec)
    return "SPIMultiplexer %d" % n, task


def resource(cls, inv, device, **kw):
    name = "%s.connect_to_resource%s" % (cls, " (inverted chip select)" if inv else "")

    def task(r):
        from amlib.io import spi as M
        from amaranth import Record

        def mk():
            m = Module()
            h = Harness(m)
            x = getattr(M, cls)(**kw)
            h.b = x.spi
            h.r = Record([("copi", 1), ("cipo", 1), ("clk", 1), ("cs", 1)])
            m.d.comb += x.connect_to_resource(h.r)
            return h

        def spec(h):
            b, q = h.b, h.r
            if device:
                pairs = [(q.copi, b.sdi, 0), (b.sdo, q.cipo, 0), (q.clk, b.sck, 0), (q.cs, b.cs, inv)]
            else:
                pairs = [(b.sdo, q.copi, 0), (q.cipo, b.sdi, 0), (b.sck, q.clk, 0), (b.cs, q.cs, inv)]

            def step(t):
                for i, (src, dst, iv) in enumerate(pairs):
                    v = t.val(src)
                    t.same(dst, t.inv(v) if iv else v, "resource", "%s must follow %s" % (dst.name, src.name), dst)
            return [(src.name, src, "d") for src, _, _ in pairs], Stateless(step), dict(must=["resource"])
        flow_task(r, mk, spec)
    return name, task


def tasks(tier):
    cfg = [dict(word_size=4 + pol, divisor=12, clock_polarity=pol, clock_phase=pha, cs_idles_high=idle, msb_first=pol == pha)
           for pol in (0, 1) for pha in (0, 1) for idle in (False, True)]
    cfg += [dict(word_size=8, divisor=16), dict(word_size=3, divisor=32, clock_phase=1), dict(word_size=1, divisor=12), dict(divisor=20, word_size=16, cs_idles_high=True),
            dict(word_size=2, divisor=64), dict(word_size=4, divisor=12, skip_input_cdc=True), dict(word_size=4, divisor=14, clock_phase=1, skip_input_cdc=True)]
    cfg += [dict(word_size=w, divisor=dv, clock_polarity=pol, clock_phase=pha) for w in (8, 13) for dv in (12, 14, 24, 40, 128) for pol in (0, 1) for pha in (0, 1)]
    cfg += [dict(word_size=32, divisor=12, cs_idles_high=True), dict(word_size=64, divisor=16), dict(word_size=2, divisor=256, clock_phase=1), dict(word_size=24, divisor=62, clock_polarity=1), dict(word_size=1, divisor=300)]
    cfg += [dict(word_size=1, divisor=16, clock_polarity=pol, clock_phase=pha, cs_idles_high=idle, msb_first=idle) for pol in (0, 1) for pha in (0, 1) for idle in (False, True)]
    if tier == "thorough":
        cfg += [dict(word_size=w, divisor=dv, clock_polarity=pol, clock_phase=pha, cs_idles_high=idle, msb_first=msb) for w in (1, 2, 5, 9, 24) for dv in (12, 16, 18, 30, 62, 256)
                for pol in (0, 1) for pha in (0, 1) for idle in (False, True) for msb in (False, True)]
    ts = [ctl(", ".join("%s=%s" % x for x in k.items()), **k) for k in cfg]
    ts += [mux(1), mux(2), mux(4)]
    for inv in (False, True):
        ts += [resource("SPIControllerInterface", inv, False, divisor=12, cs_idles_high=inv), resource("SPIDeviceInterface", inv, True, cs_idles_high=inv)]
    ts += [resource("SPICommandInterface", False, True), resource("SPIRegisterInterface", False, True)]
    return ts
