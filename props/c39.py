"""C39: logic analyser readout over SPI, streams and UART."""
from hwsa.util import *
from hwsa import stubs

EXPLANATION = """
Typestate analysis of the three analysers with read-out.  The captured signals are fresh provenance tokens in every cycle,
triggers come at any time (also during capture and read-out), the host / receiver behaves arbitrarily within its protocol:
any clock timing, number of bits and aborts for SPI, any stalls for the stream, also one that waits for valid first.
The clock-domain crossing variant is analysed with coinciding clocks plus the assignment of every register to its domain.
"""
ASSUMPTIONS = ["the SPI host reads at most sample_depth words per transaction, only while no capture is running, with phases of at least five cycles",
               "trigger and first sample follow the analyser core (C38)", "asynchronous FIFO of the Amaranth library"]
MUST = ["sdo", "stream", "framing", "uart", "domains"]


class Capture:
    """what the core stores: sample i is the input (i - pre) cycles after the trigger"""

    def __init__(self, d, depth, pre, width):
        self.d, self.depth, self.pre, self.w = d, depth, pre, width

    def init(self):
        return ((), (), "idle")

    def step(self, o, t, go):
        """-> new state, buffer just completed"""
        hist, buf, st = o
        x = t.fresh(self.w)
        off = 0
        for s in self.d.v_sigs:
            t.set(s, x[off:off + len(s)])
            off += len(s)
        if st == "run":
            buf = buf + (hist[self.pre],)
        hist = ((x,) + hist)[:self.pre + 1]
        if st == "run" and len(buf) == self.depth:
            return (hist, buf, "full"), True
        if go:
            return (hist, (), "run"), False
        return (hist, buf, st), False


class Spi:
    """a host that reads words; phases of at least h cycles"""

    def __init__(self, d, cap, bits, pol, pha, low, h):
        self.d, self.cap, self.bits, self.pol, self.pha, self.low, self.h = d, cap, bits, pol, pha, low, h

    def init(self, flow):
        return (self.cap.init(), 0, "off", 0, False, 0)

    def step(self, o, t):
        cap, warm, ph, cnt, act, n = o
        d, s, h = self.d, self.d.v_s, self.h
        t.set(d.spi.sck, int(act) ^ self.pol)
        t.set(d.spi.cs, int(ph != "off") ^ int(self.low))
        t.same(d.complete, int(cap[2] == "full"), "status", "complete must be high from the end of a capture to the next trigger", d.complete)
        t.same(d.capturing, int(cap[2] == "run"), "status", "capturing must be high during a capture", d.capturing)
        go = False
        if ph == "off" and warm >= 4 and t.bit(s["go"]):
            go = cap[2] != "run"
            t.set(d.trigger, 1)
            cnt = 0
        else:
            t.set(d.trigger, 0)
        full = cap[2] == "full" and not go
        cap, _ = self.cap.step(cap, t, go)
        warm = min(warm + 1, 4)
        top = h if ph != "off" else h + 6
        step = cnt >= top and t.bit(s["edge"])
        cnt = min(cnt + 1, top)
        if ph == "off" and act and cnt >= h:
            act, cnt = False, 0
        elif ph == "off":
            if step and full:
                ph, cnt, n = "on", 0, 0
        elif step and (n == self.bits * self.cap.depth or t.bit(s["off"])):
            ph, cnt = "off", 0
        elif step:
            act, cnt = not act, 0
            if act == (not self.pha):
                w, b = divmod(n, self.bits)
                b = self.bits - 1 - b
                want = cap[1][w][b] if b < self.cap.w else 0
                t.same(d.spi.sdo, want, "sdo", "word %d of the transaction must be sample %d, most significant bit first, zero extended" % (w, w), d.spi.sdo)
                n += 1
        return (cap, warm, ph, cnt, act, n)


def spi(depth, width, pol, pha, low, pre=1, domain="sync"):
    name = "SPI readout, %d samples of %d bits, mode %d%d%s%s" % (depth, width, pol, pha, ", cs_idles_high" if low else "", "" if domain == "sync" else ", domain " + domain)

    def task(r):
        stubs.install()
        from amlib.debug.ila import SyncSerialILA

        def mk():
            sigs = [Signal(width, name="sig")]
            d = SyncSerialILA(signals=sigs, sample_depth=depth, clock_polarity=pol, clock_phase=pha, cs_idles_high=low, samples_pretrigger=pre, domain=domain)
            d.v_sigs = sigs
            d.v_s = {n: Signal(name="env_" + n) for n in ("go", "edge", "off")}
            return d

        def spec(d):
            bits = 32 if width <= 32 else 64
            r.require(d.bits_per_sample == bits and d.bytes_per_sample == bits // 8, "status", "bits_per_sample is %d, required %d" % (d.bits_per_sample, bits), "amlib/debug/ila.py")
            ins = [("sig", d.v_sigs[0], "x")] + [("env_" + n, x, "c") for n, x in d.v_s.items()]
            ins += ports(("x", "trigger", d.trigger), ("x", "sck", d.spi.sck), ("x", "cs", d.spi.cs), ("k:0", "sdi", d.spi.sdi))
            return ins, Spi(d, Capture(d, depth, pre, width), bits, pol, pha, low, 5), dict(must=["sdo", "status"], clock=domain)
        flow_task(r, mk, spec, config=name)
    return name, task


class Stream:
    """receiver with arbitrary ready; in wait mode ready comes only after valid was seen"""

    def __init__(self, d, cap, bits, lazy, cdc):
        self.d, self.cap, self.bits, self.lazy, self.cdc = d, cap, bits, lazy, cdc
        self.slack, self.settle = (12, 8) if cdc else (4, 0)

    def init(self, flow):
        # capture, warm-up, samples left to send, index, offered word kept, cycles without offer, cycles idle
        return (self.cap.init(), 0, (), 0, False, 0, 0)

    def step(self, o, t):
        cap, warm, todo, n, held, quiet, idle = o
        d, s = self.d, self.d.v_s
        st = d.stream
        valid = t.bit(st.valid)
        ready = (t.bit(s["ready"]) if not self.lazy or valid else False)
        t.set(st.ready, int(ready))
        if held:
            t.require(valid, "stream", "an offered sample is withdrawn", st.valid)
        if valid:
            if t.require(bool(todo), "stream", "a sample is offered without a complete capture", st.valid):
                want = todo[0]
                full = cat(want, K(0, self.bits - want.w)) if want.w < self.bits else want
                t.same(st.payload, full, "stream", "samples must be offered in order, unchanged and zero extended", st.payload)
                t.same(st.first, int(n == 0), "framing", "first must mark exactly the first sample", st.first)
                t.same(st.last, int(n == self.cap.depth - 1), "framing", "last must mark exactly the last sample", st.last)
            quiet = 0
        elif todo:
            t.require(quiet < self.slack, "stream", "the readout stops although samples are left", st.valid)
            quiet += 1
        held = valid and not ready
        # a trigger counts when the previous readout is over; with a clock domain crossing this is observed at its far end
        # only, and triggers are analysed when the near end has to be idle as well, or is busy for sure
        busy = cap[2] == "run" or bool(todo)
        idle = 0 if busy or valid else min(idle + 1, self.settle)
        if valid and ready and todo:
            todo, n = todo[1:], n + 1
        go = False
        if warm >= 4 and (cap[2] == "run" or not self.cdc or idle == self.settle) and t.bit(s["go"]):
            t.set(d.trigger, 1)
            go = not busy
        else:
            t.set(d.trigger, 0)
        cap, done = self.cap.step(cap, t, go)
        if done:
            todo, n, quiet = cap[1], 0, 0
            cap = (cap[0], (), "idle")
        return (cap, min(warm + 1, 4), todo, n, held, quiet, idle)


def stream(depth, width, lazy, pre=1, domain="sync", out=None):
    name = "stream readout, %d samples of %d bits%s%s" % (depth, width, ", receiver waits for valid" if lazy else "",
                                                          "" if domain == "sync" and out is None else ", %s to %s" % (domain, out or domain))

    def task(r):
        stubs.install()
        from amlib.debug.ila import StreamILA
        seen = []

        def mk():
            sigs = [Signal(width, name="sig")]
            d = StreamILA(signals=sigs, sample_depth=depth, samples_pretrigger=pre, domain=domain, o_domain=out)
            d.v_sigs = sigs
            d.v_s = {n: Signal(name="env_" + n) for n in ("go", "ready")}
            return d

        def spec(d):
            seen.append(d.stream)
            bits = 1 << (width - 1).bit_length()
            r.require(len(d.stream.payload) == bits and d.bits_per_sample == bits, "stream", "the stream has %d bits, required %d" % (len(d.stream.payload), bits), "amlib/debug/ila.py")
            ins = [("sig", d.v_sigs[0], "x")] + [("env_" + n, x, "c") for n, x in d.v_s.items()]
            ins += ports(("x", "trigger", d.trigger), ("x", "ready", d.stream.ready))
            return ins, Stream(d, Capture(d, depth, pre, width), bits, lazy, out not in (None, domain)), dict(
                must=["stream", "framing"], clock={domain, out or domain} | ({"async_ff"} if out not in (None, domain) else set()))
        fl = flow_task(r, mk, spec, config=name)
        if out not in (None, domain):
            domains(r, fl, out, seen[-1])
    return name, task


def domains(r, fl, out, stream):
    """the stream depends on registers of the output domain only"""
    for f in ("valid", "first", "last", "payload"):
        regs = fl.flat.sources(getattr(stream, f))
        bad = sorted({x.name for x, dom in regs if dom not in (out, None)})
        r.require(not bad, "domains", "stream.%s depends on registers outside the output domain: %s" % (f, ", ".join(bad)), "amlib/debug/ila.py")


class Uart:
    """frames of the readout on tx"""

    def __init__(self, d, cap, nbytes, div):
        self.d, self.cap, self.nb, self.div = d, cap, nbytes, div

    def init(self, flow):
        return (self.cap.init(), 0, (), None, 0, 0, 0)

    def step(self, o, t):
        cap, warm, todo, frame, bit, cyc, late = o
        d, s = self.d, self.d.v_s
        if frame is None:
            if t.decide(t.val(d.tx)):
                t.require(not todo or late < 12, "uart", "the readout stops although bytes are left", d.tx)
                late = late + 1 if todo else 0
            elif t.require(bool(todo), "uart", "a start bit without a byte to send", d.tx):
                frame, todo, bit, cyc, late = cat(K(0, 1), todo[0], K(1, 1)), todo[1:], 0, 0, 0
        if frame is not None:
            t.same(d.tx, frame[bit], "uart", "the samples must be sent in order, least significant byte and bit first, zero extended", d.tx)
            cyc += 1
            if cyc == self.div:
                bit, cyc = bit + 1, 0
                if bit == 10:
                    frame, bit = None, 0
        go = False
        # triggers are analysed while nothing is being read out
        if warm >= 4 and frame is None and not todo and cap[2] != "run" and late == 0 and t.bit(s["go"]):
            go = True
        t.set(d.trigger, int(go))
        cap, done = self.cap.step(cap, t, go)
        if done:
            for x in cap[1]:
                full = cat(x, K(0, 8 * self.nb - x.w)) if x.w < 8 * self.nb else x
                todo += tuple(full[8 * i:8 * i + 8] for i in range(self.nb))
            cap = (cap[0], (), "idle")
        return (cap, min(warm + 1, 4), todo, frame, bit, cyc, late)


def uart(depth, width, div, pre=1, domain="sync"):
    name = "UART readout, %d samples of %d bits, divisor %d%s" % (depth, width, div, "" if domain == "sync" else ", domain " + domain)

    def task(r):
        stubs.install()
        from amlib.debug.ila import AsyncSerialILA

        def mk():
            sigs = [Signal(width, name="sig")]
            d = AsyncSerialILA(signals=sigs, sample_depth=depth, samples_pretrigger=pre, divisor=div, domain=domain)
            d.v_sigs = sigs
            d.v_s = {"go": Signal(name="env_go")}
            return d

        def spec(d):
            nb = ((1 << (width - 1).bit_length()) + 7) // 8
            r.require(d.bytes_per_sample == nb, "uart", "bytes_per_sample is %d, required %d" % (d.bytes_per_sample, nb), "amlib/debug/ila.py")
            ins = [("sig", d.v_sigs[0], "x"), ("env_go", d.v_s["go"], "c")] + ports(("x", "trigger", d.trigger))
            return ins, Uart(d, Capture(d, depth, pre, width), nb, div), dict(must=["uart"], clock=domain)
        flow_task(r, mk, spec, config=name)
    return name, task


def tasks(tier):
    ts = [spi(2, 3, 0, 1, False), spi(3, 2, 1, 0, False), spi(2, 2, 0, 0, True), spi(2, 4, 1, 1, True, 0, "fast")]
    ts += [stream(2, 3, False), stream(3, 2, True), stream(4, 1, False, 0), stream(3, 3, True, 1, "fast"), stream(2, 2, False, 1, "sync", "usb"),
           stream(3, 2, True, 1, "fast", "sync"), stream(2, 1, False, 1, "a", "b")]
    ts += [stream(8, 4, False), stream(5, 2, True), uart(4, 17, 3), uart(2, 3, 3), uart(2, 12, 2), uart(3, 1, 2, 0, "fast")]
    ts += [stream(33, 5, False), stream(16, 1, True), uart(17, 4, 2), uart(2, 40, 3), spi(2, 33, 0, 1, False), spi(5, 8, 1, 1, False), spi(9, 2, 0, 0, False)]
    if tier == "thorough":
        ts += [spi(4, 2, 0, 0, False, 2), spi(17, 3, 0, 1, False), stream(65, 9, False), uart(33, 9, 3), uart(5, 70, 2), stream(18, 1, False, 1, "sync", "usb")]
    return ts
