"""C09: asynchronous inputs pass a synchroniser before anything uses them."""
from hwsa.util import *
from hwsa import depth

EXPLANATION = """
Bit-level use/copy graph of the elaborated IR: starting at each asynchronous input pin, every path may only lead through
unconditional copies (or inversions) into registers until two registers have been passed; any operator, condition or
output that reads the value earlier is reported with its source line.  For the synchronize() helper the delay in the
requested clock domain and the direction rules are additionally analysed as data flow.
"""
ASSUMPTIONS = ["list of asynchronous pins: UART rx, I2C scl/sda, SPI device sck/sdi/cs, I2S bit/word clock and serial data, debouncer button"]
MUST = ["sync-depth", "delay", "direction", "clock"]


def pins(name, mk, get):
    def task(r):
        from hwsa.check import build
        d = build(mk)
        depth.check(r, d, get(d))
        r.units.append(name)
    return "pins of " + name, task


def uart_pins():
    from amlib.io.serial import AsyncSerialRX
    from amaranth import Record
    p = Record([("rx", [("i", 1)]), ("tx", [("o", 1)])])
    d = AsyncSerialRX(divisor=8, pins=p)
    d.p = p
    return d


def deb():
    from amlib.io.debouncer import Debouncer
    return Debouncer()


def i2c(which):
    def mk():
        from amlib.io import i2c as M
        pads = M._DummyPads()
        d = M.I2CInitiator(pads, 16) if which == "i" else M.I2CTarget(pads)
        d.pads_ = pads
        return d
    return mk


def spi(cls, **kw):
    def mk():
        from amlib.io import spi as M
        return getattr(M, cls)(**kw)
    return mk


def i2s(cls, **kw):
    def mk():
        from amlib.io import i2s as M
        return getattr(M, cls)(**kw)
    return mk


def sync_signal(width, stages, dom, given, name):
    def task(r):
        from amlib.utils import synchronize

        def mk():
            m = Module()
            h = Harness(m)
            h.i = Signal(width, name="i")
            kw = {}
            if dom:
                kw["o_domain"] = dom
            if stages != 2:
                kw["stages"] = stages
            if given:
                kw["output"] = Signal(width, name="o")
            h.o = synchronize(m, h.i, **kw)
            if given and h.o is not kw["output"]:
                r.bad("delay", "must return the given output")
            return h

        def spec(h):
            def step(o, t):
                t.same(h.o, o[-1], "delay", "output must be the input %d cycles ago" % stages, h.o)
                return (t.val(h.i),) + o[:-1]
            return ports(("d", "i", h.i)), Auto((K(0, width),) * stages, step), dict(must=["delay"], clock=dom or "sync")
        fl = flow_task(r, mk, spec, config=name)
        return None
    return name, task


def sync_record(r):
    from amlib.utils import synchronize
    from amaranth.hdl.rec import Record, DIR_FANIN, DIR_FANOUT

    lay = [("a", 3, DIR_FANIN), ("b", 2, DIR_FANOUT), ("n", [("c", 1, DIR_FANIN), ("d", 4, DIR_FANOUT), ("e", 2)])]

    def mk():
        m = Module()
        h = Harness(m)
        h.i, h.o = Record(lay, name="pin"), Record(lay, name="core")
        got = synchronize(m, h.i, output=h.o, o_domain="usb", stages=3)
        if got is not h.o:
            r.bad("delay", "must return the given output")
        return h

    def spec(h):
        up = [("a", h.i.a, h.o.a), ("n.c", h.i.n.c, h.o.n.c), ("n.e", h.i.n.e, h.o.n.e)]
        down = [("b", h.o.b, h.i.b), ("n.d", h.o.n.d, h.i.n.d)]

        def step(o, t):
            for (n, i, q), hist in zip(up, o):
                t.same(q, hist[-1], "delay", "input field %s must arrive 3 cycles later" % n, q)
            for n, i, q in down:
                t.same(q, t.val(i), "direction", "output field %s must be driven towards the pin, unsynchronised" % n, q)
            return tuple([(t.val(i),) + hist[:-1] for (n, i, q), hist in zip(up, o)])
        return ([(n, i, "d") for n, i, _ in up + down], Auto(tuple((K(0, len(i)),) * 3 for _, i, _ in up), step),
                dict(must=["delay", "direction"], clock="usb"))
    flow_task(r, mk, spec)


def sync_custom(r):
    """an object that knows how to synchronise itself is asked to do so, with the same parameters"""
    from amlib.utils import synchronize
    from amaranth import Record
    calls = []

    class Own(Record):
        def _synchronize_(self, m, output, *, o_domain, stages):
            calls.append((m, output, o_domain, stages))
    m = Module()
    o, i = Own([("x", 1)]), Own([("x", 1)])
    synchronize(m, i, output=o, o_domain="d", stages=4)
    r.require(len(calls) == 1 and calls[0][0] is m and calls[0][1] is o and calls[0][2:] == ("d", 4), "direction",
              "_synchronize_ must be used, with module, output, domain and depth", "amlib/utils/cdc.py")


def tasks(tier):
    ts = [pins("AsyncSerialRX", uart_pins, lambda d: [d.p.rx.i]), pins("Debouncer", deb, lambda d: [d.btn_in]),
          pins("I2CInitiator", i2c("i"), lambda d: [d.pads_.scl_t.i, d.pads_.sda_t.i]),
          pins("I2CTarget", i2c("t"), lambda d: [d.pads_.scl_t.i, d.pads_.sda_t.i])]
    for cls, kw in [("SPIDeviceInterface", {}), ("SPIDeviceInterface", dict(word_size=5, clock_phase=1, clock_polarity=1, cs_idles_high=True, msb_first=False)),]:
        ts.append(pins("%s %s" % (cls, kw), spi(cls, **kw), lambda d: [d.spi.sck, d.spi.sdi, d.spi.cs]))
    for w in (16, 24):
        for f in (1, 2):
            def mk(cls, w=w, f=f):
                def go():
                    from amlib.io import i2s as M
                    return getattr(M, cls)(sample_width=w, frame_format=M.I2S_FORMAT(f))
                return go
            if f == 1:      # the left-justified transmitter cannot be elaborated (see I2S)
                ts.append(pins("I2STransmitter %d/%d" % (w, f), mk("I2STransmitter"), lambda d: [d.serial_clock_in, d.word_select_in]))
            ts.append(pins("I2SReceiver %d/%d" % (w, f), mk("I2SReceiver"), lambda d: [d.serial_clock_in, d.word_select_in, d.serial_data_in]))
    for st in (2, 3, 5):
        ts.append(sync_signal(3 if st == 3 else 1, st, "usb" if st == 3 else None, st == 5, "synchronize signal, %d stages" % st))
    return ts + [("synchronize record", sync_record), ("synchronize custom object", sync_custom)]
