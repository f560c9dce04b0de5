"""C36: UART peripheral."""
import sys

from hwsa.util import *
from hwsa import stubs

EXPLANATION = """
Typestate analysis of the peripheral's IR between its CSR elements and its serial transceiver.  CSR accesses and the
transceiver's handshakes are arbitrary (the transceiver itself is decided by C10/C11, here it is its interface only);
one configuration per data direction analyses the peripheral together with the real transceiver down to the line.
The register map is taken from the constructed bus objects.
"""
ASSUMPTIONS = ["amaranth_soc CSR/Wishbone objects as documented (hwsa/stubs.py)", "the divisor register is not written while frames are in flight"]
MUST = ["tx-data", "tx-ready", "rx-data", "rx-ready", "divisor", "map", "irq", "line"]


class Phy(Elaboratable):
    """interface of amlib.io.serial.AsyncSerial; outputs are free"""

    def __init__(self, *, divisor, divisor_bits=None, data_bits=8, parity="none", pins=None):
        from amaranth import Record
        self.divisor = Signal(divisor_bits or max(1, divisor.bit_length()), reset=divisor)

        class End:
            pass
        self.rx, self.tx = End(), End()
        self.rx.data, self.rx.rdy, self.rx.ack, self.rx.i = Signal(data_bits, name="rx_data"), Signal(name="rx_rdy"), Signal(name="rx_ack"), Signal(name="rx_i")
        self.rx.err = Record([("overflow", 1), ("frame", 1), ("parity", 1)], name="rx_err")
        self.tx.data, self.tx.rdy, self.tx.ack, self.tx.o = Signal(data_bits, name="tx_data"), Signal(name="tx_rdy"), Signal(name="tx_ack"), Signal(name="tx_o")
        Phy.made.append(self)

    made = []

    def elaborate(self, platform):
        return Module()


def load(model):
    """import the peripheral, with the transceiver replaced by its interface"""
    stubs.install()
    import amlib.io.serial as S
    real = S.AsyncSerial
    try:
        if model:
            S.AsyncSerial = Phy
        sys.modules.pop("amlib.soc.uart", None)
        import amlib.soc.uart as U
    finally:
        S.AsyncSerial = real
    Phy.made.clear()
    return U.UARTPeripheral


REGS = [("enabled", "w"), ("divisor", "rw"), ("rx_data", "r"), ("rx_rdy", "r"), ("rx_err", "r"), ("tx_data", "w"), ("tx_rdy", "r"),
        ("ev_status", "r"), ("ev_pending", "rw"), ("ev_enable", "rw")]


def csrs(d):
    """name -> element, out of the bus objects"""
    out = {}
    for sub, s, e, ratio in d.bus.v_decoder.v_subs:
        for el, a, b in sub.v_bridge.v_mux.v_elements:
            out[el.v_name] = (el, s + a, s + b)
    return out


def pick(d, name):
    for n, x in csrs(d).items():
        if n == name or n.endswith("_" + name) and not n.endswith("_ev_" + name):
            return x
    raise Anchor("anchor vanished: the UART peripheral has no CSR `%s`" % name)


class Glue:
    """software side + transceiver side"""

    def __init__(self, d, c, phy, rxd, txd, mode):
        self.d, self.c, self.phy, self.rxd, self.txd, self.mode = d, c, phy, rxd, txd, mode

    def init(self, flow):
        return (False, (), (), K(self.phy.divisor.reset, self.phy.divisor.width), None)

    def step(self, o, t):
        en, tq, rq, div, held = o
        d, c, p = self.d, self.c, self.phy
        # transmit direction
        t.same(d.enabled, int(en), "enable", "enabled must hold the bit written last", d.enabled)
        t.same(c["tx_rdy"].r_data, int(len(tq) < self.txd), "tx-ready", "tx_rdy must be set exactly while the transmit FIFO has space", c["tx_rdy"].r_data)
        t.same(p.tx.ack, int(bool(tq)), "tx-data", "a waiting word must be offered to the transmitter", p.tx.ack)
        if tq:
            t.same(p.tx.data, tq[0], "tx-data", "words must be sent in order and unchanged", p.tx.data)
        full = len(tq) >= self.txd
        if t.bit(p.tx.rdy) and tq:
            tq = tq[1:]
        if self.mode == "tx" and t.bit(c["tx_data"].w_stb):
            w = t.val(c["tx_data"].w_data)
            if en and not full:
                tq = tq + (w,)
        if self.mode == "tx" and t.bit(c["enabled"].w_stb):
            en = t.bit(c["enabled"].w_data)
        t.same(d.driving, int(not t.bit(p.tx.rdy)), "tx-data", "driving must be high exactly while the transmitter is busy", d.driving)
        # receive direction: rdy stays until it was acknowledged
        t.same(c["rx_rdy"].r_data, int(bool(rq)), "rx-ready", "rx_rdy must be set exactly while a received word is waiting", c["rx_rdy"].r_data)
        if rq:
            t.same(c["rx_data"].r_data, rq[0], "rx-data", "received words must be read in order and unchanged", c["rx_data"].r_data)
        if self.mode == "rx":
            if held is None and t.bit(d.v_s["recv"]):
                held = t.fresh(p.rx.data.width if hasattr(p.rx.data, "width") else len(p.rx.data))
            t.set(p.rx.rdy, int(held is not None))
            t.set(p.rx.data, held if held is not None else t.fresh(len(p.rx.data)))
            t.same(p.rx.ack, int(len(rq) < self.rxd), "rx-data", "the receiver must be acknowledged exactly while the receive FIFO has space", p.rx.ack)
            space = len(rq) < self.rxd
            if t.bit(c["rx_data"].r_stb) and rq:
                rq = rq[1:]
            if held is not None and space:
                rq, held = rq + (held,), None
        t.same(c["rx_err"].r_data, t.val(p.rx.err.as_value() if hasattr(p.rx.err, "as_value") else p.rx.err), "rx-data",
               "rx_err must show the receiver's error flags", c["rx_err"].r_data)
        # the wires
        t.same(p.rx.i, t.val(d.rx), "line", "without pins the rx signal must reach the receiver", p.rx.i)
        t.same(d.tx, t.val(p.tx.o), "line", "tx must follow the transmitter", d.tx)
        # divisor
        t.same(p.divisor, div, "divisor", "the transceiver must use the divisor written last", p.divisor)
        t.same(c["divisor"].r_data, div, "divisor", "the divisor register must read back", c["divisor"].r_data)
        if self.mode == "div" and t.bit(c["divisor"].w_stb):
            div = t.val(c["divisor"].w_data)
        return (en, tq, rq, div, held)


def glue(mode, rxd, txd, bits=4):
    name = "registers and FIFOs, %s, depths %d/%d" % (mode, rxd, txd)

    def task(r):
        UART = load(True)

        def mk():
            d = UART(rx_depth=rxd, tx_depth=txd, divisor=9, data_bits=bits)
            d.v_s = dict(recv=Signal(name="recv"))
            return d

        def spec(d):
            if not Phy.made:
                raise Anchor("anchor vanished: the UART peripheral builds no amlib.io.serial.AsyncSerial")
            p = Phy.made[-1]
            c = {n: pick(d, n)[0] for n, a in REGS}
            ins = [("recv", d.v_s["recv"], "c")]
            ins += ports(("x" if mode == "rx" else "k:0", "rx_rdy", p.rx.rdy), ("x" if mode == "rx" else "k:0", "rx_data", p.rx.data),
                         ("c" if mode == "tx" else "k:1", "tx_rdy", p.tx.rdy),
                         ("d", "rx_overflow", p.rx.err.overflow), ("d", "rx_frame", p.rx.err.frame), ("d", "rx_parity", p.rx.err.parity), ("d", "tx_o", p.tx.o), ("d", "rx", d.rx),
                         ("c" if mode == "tx" else "k:0", "enabled_stb", c["enabled"].w_stb), ("d", "enabled_data", c["enabled"].w_data),
                         ("c" if mode == "tx" else "k:0", "tx_data_stb", c["tx_data"].w_stb), ("d", "tx_data_w", c["tx_data"].w_data),
                         ("c" if mode == "rx" else "k:0", "rx_data_stb", c["rx_data"].r_stb),
                         ("c" if mode == "div" else "k:0", "divisor_stb", c["divisor"].w_stb), ("d", "divisor_w", c["divisor"].w_data),
                         ("k:0", "pending_stb", c["ev_pending"].w_stb), ("k:0", "enable_stb", c["ev_enable"].w_stb),
                         ("k:0", "pending_w", c["ev_pending"].w_data), ("k:0", "enable_w", c["ev_enable"].w_data))
            skip = [c["ev_status"].r_data, c["ev_pending"].r_data]
            return ins, Glue(d, c, p, rxd, txd, mode), dict(must=["tx-ready", "rx-ready", "divisor"] + (["tx-data"] if mode == "tx" else ["rx-data"]), clock="sync")
        flow_task(r, mk, spec, config=name)
    return name, task


class Events:
    """pending, enable and irq for an arbitrary transceiver, FIFO depth 1"""

    def __init__(self, d, c, p):
        self.d, self.c, self.p = d, c, p

    def init(self, flow):
        return ((0, 0, 0), 0, 0, 0, 0)      # pending, enabled, previous err, previous empty, received / transmit levels via registers

    def step(self, o, t):
        pend, en, perr, pmty, _ = o
        d, c, p = self.d, self.c, self.p
        word = lambda b: sum(x << i for i, x in enumerate(b))
        t.same(c["ev_pending"].r_data, word(pend), "irq", "pending events: rx_rdy (level), rx_err (rising), tx_mty (rising), in this order", c["ev_pending"].r_data)
        t.same(d.irq, int(bool(en and any(pend))), "irq", "irq must be high exactly while an enabled event is pending", d.irq)
        rdy = t.bit(c["rx_rdy"].r_data)
        err = t.decide(t.val(c["rx_err"].r_data)[0]) or t.decide(t.val(c["rx_err"].r_data)[1]) or t.decide(t.val(c["rx_err"].r_data)[2])
        mty = not t.bit(p.tx.ack)
        clr = t.bit(c["ev_pending"].w_stb)
        pend = tuple(int(x or (q and not clr)) for x, q in zip((rdy, err and not perr, mty and not pmty), pend))
        if t.bit(c["ev_enable"].w_stb):
            en = int(t.bit(d.v_s["en"]))
            t.set(c["ev_enable"].w_data, 7 * en)
        else:
            t.set(c["ev_enable"].w_data, 7 * t.bit(d.v_s["en"]))
        return (pend, en, int(err), int(mty), 0)


def events(r):
    UART = load(True)

    def mk():
        d = UART(rx_depth=1, tx_depth=1, divisor=9, data_bits=1)
        d.v_s = dict(en=Signal(name="en"))
        return d

    def spec(d):
        p = Phy.made[-1]
        c = {n: pick(d, n)[0] for n, a in REGS}
        ins = [("en", d.v_s["en"], "c")]
        ins += ports(("c", "rx_rdy", p.rx.rdy), ("k:0", "rx_data", p.rx.data), ("c", "tx_rdy", p.tx.rdy), ("c", "rx_frame", p.rx.err.frame), ("c", "rx_parity", p.rx.err.parity),
                     ("c", "rx_overflow", p.rx.err.overflow), ("k:0", "tx_o", p.tx.o), ("k:1", "rx", d.rx),
                     ("k:1", "enabled_stb", c["enabled"].w_stb), ("k:1", "enabled_data", c["enabled"].w_data),
                     ("c", "tx_data_stb", c["tx_data"].w_stb), ("k:0", "tx_data_w", c["tx_data"].w_data), ("c", "rx_data_stb", c["rx_data"].r_stb),
                     ("k:0", "divisor_stb", c["divisor"].w_stb), ("k:0", "divisor_w", c["divisor"].w_data),
                     ("c", "pending_stb", c["ev_pending"].w_stb), ("c", "enable_stb", c["ev_enable"].w_stb),
                     ("k:7", "pending_w", c["ev_pending"].w_data), ("x", "enable_w", c["ev_enable"].w_data))
        return ins, Events(d, c, p), dict(must=["irq"], clock="sync")
    flow_task(r, mk, spec, config="events")


def regmap(r):
    UART = load(False)
    for dbits, divisor, parity in ((8, 100, "none"), (5, 3000, "even"), (9, 868, "none")):
        def mk():
            uart = UART(divisor=divisor, data_bits=dbits, parity=parity)
            return uart
        d = build(mk)
        seen = []
        width = {"enabled": 1, "divisor": divisor.bit_length(), "rx_data": dbits, "rx_rdy": 1, "rx_err": 3, "tx_data": dbits, "tx_rdy": 1,
                 "ev_status": 3, "ev_pending": 3, "ev_enable": 3}
        for n, access in REGS:
            el, s, e = pick(d, n)
            r.require(el.access.readable() == ("r" in access) and el.access.writable() == ("w" in access), "map",
                      "register %s has access %s, documented: %s" % (n, el.access.text, access), "amlib/soc/uart.py")
            r.require(el.width == width[n], "map", "register %s has %d bits, required %d" % (n, el.width, width[n]), "amlib/soc/uart.py")
            r.require(s % 4 == 0 and not any(a < e and s < b for a, b in seen), "map", "register %s is not at a word address of its own" % n, "amlib/soc/uart.py")
            seen.append((s, e))
        names = [x.resource for x in d.bus.memory_map.all_resources()]
        r.require(len(names) == len(REGS) and all(any(x is pick(d, n)[0] for x in names) for n, _ in REGS), "map",
                  "the bus's memory map must list exactly the registers", "amlib/soc/uart.py")
        r.require(isinstance(d.irq, stubs.IRQLine) and d.bus.data_width == 32 and d.bus.granularity == 8, "map", "bus or interrupt line are wrong", "amlib/soc/uart.py")


class Line:
    """the real transceiver: words written while enabled appear on tx, in order"""

    def __init__(self, d, c, div, bits, depth):
        self.d, self.c, self.div, self.n, self.depth = d, c, div, bits, depth

    def init(self, flow):
        return (False, (), None, 0, 0, 0)

    def step(self, o, t):
        en, q, frame, bit, cyc, late = o
        d, c = self.d, self.c
        if frame is None:
            line = t.val(d.tx)
            if t.decide(line):
                t.require(not q or late < self.div + 4, "line", "a written word is never sent", d.tx)
                late = min(late + 1, self.div + 4) if q else 0
            elif t.require(bool(q), "line", "a start bit without a written word", d.tx):
                frame, q, bit, cyc, late = cat(K(0, 1), q[0], K(1, 1)), q[1:], 0, 0, 0
        if frame is not None:
            t.same(d.tx, frame[bit], "line", "bit %d of the frame must be on the line for divisor cycles" % bit, d.tx)
            cyc += 1
            if cyc == self.div:
                bit, cyc = bit + 1, 0
                if bit == self.n + 2:
                    frame, bit = None, 0
        if t.bit(c["tx_data"].w_stb):
            w = t.val(c["tx_data"].w_data)
            if en and t.bit(c["tx_rdy"].r_data):
                q = q + (w,)
        if not en:
            en = bool(t.bit(c["enabled"].w_stb) and t.bit(c["enabled"].w_data))
        else:
            t.bit(c["enabled"].w_stb)
        return (en, q, frame, bit, cyc, late)


def line(div, bits, depth):
    name = "transmit line, divisor %d, %d bits, depth %d" % (div, bits, depth)

    def task(r):
        UART = load(False)

        def mk():
            uart = UART(rx_depth=1, tx_depth=depth, divisor=div, data_bits=bits)
            return uart

        def spec(d):
            c = {n: pick(d, n)[0] for n, a in REGS}
            ins = ports(("k:1", "rx", d.rx), ("c", "enabled_stb", c["enabled"].w_stb), ("k:1", "enabled_data", c["enabled"].w_data),
                        ("c", "tx_data_stb", c["tx_data"].w_stb), ("d", "tx_data_w", c["tx_data"].w_data), ("k:0", "rx_data_stb", c["rx_data"].r_stb),
                        ("k:0", "divisor_stb", c["divisor"].w_stb), ("k:0", "divisor_w", c["divisor"].w_data),
                        ("k:0", "pending_stb", c["ev_pending"].w_stb), ("k:0", "enable_stb", c["ev_enable"].w_stb),
                        ("k:0", "pending_w", c["ev_pending"].w_data), ("k:0", "enable_w", c["ev_enable"].w_data))
            return ins, Line(d, c, div, bits, depth), dict(must=["line"])
        flow_task(r, mk, spec, config=name)
    return name, task


def tasks(tier):
    ts = [glue("tx", 1, 2), glue("tx", 2, 1, 8), glue("rx", 2, 1), glue("rx", 3, 2, 8), glue("div", 1, 1),
          ("events", events), ("register map", regmap), line(5, 2, 2), glue("tx", 1, 4), glue("rx", 4, 1), glue("tx", 1, 9), glue("rx", 9, 1), glue("tx", 2, 16, 8), line(7, 8, 3), line(33, 8, 1)]
    if tier == "thorough":
        ts += [glue("tx", 1, 33), glue("rx", 33, 1), glue("rx", 16, 2, 8), line(40, 9, 4)]
    return ts
