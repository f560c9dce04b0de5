"""C03: stream wiring helpers."""
from hwsa.util import *

EXPLANATION = """
The statements produced by the stream wiring helpers are wrapped in a module and analysed as hardware IR: for every
forwarded field the driven bit must carry exactly the provenance token of the field it is documented to come from,
ready must flow the other way, and an omitted field must stay undriven. FIFO helpers: a transfer on one side is a
transfer on the other side.
"""
MUST = ["field", "ready", "omitted", "tap", "fifo-out", "fifo-in"]


def wiring(method, extra, pw, vw, omit, name):
    def task(r):
        from amlib.stream import StreamInterface

        def mk():
            src = StreamInterface(name="src", payload_width=pw, valid_width=vw, extra_fields=list(extra) or None)
            dst = StreamInterface(name="dst", payload_width=pw, valid_width=vw, extra_fields=list(extra) or None)
            m = Module()
            if method == "attach":
                m.d.comb += src.attach(dst, omit=omit)
            elif method == "connect":
                m.d.comb += src.connect(dst, omit=omit)
            elif method == "stream_eq":
                m.d.comb += dst.stream_eq(src, omit=omit)
            elif method == "tap":
                m.d.comb += dst.tap(src)
            elif method == "tap_ready":
                m.d.comb += dst.tap(src, tap_ready=True)
            h = Harness(m)
            h.src, h.dst = src, dst
            return h

        def spec(h):
            fields = ["valid", "first", "last", "payload"] + [e[0] for e in extra]
            ins = [("src." + f, h.src[f], "d") for f in fields]
            tap = method.startswith("tap")
            om = set(omit or ())
            if tap:
                ins.append(("src.ready", h.src.ready, "c"))
            elif "ready" in om:
                ins.append(("dst.ready", h.dst.ready, "c"))
            else:
                ins.append(("dst.ready", h.dst.ready, "c"))

            def chk(t):
                for f in fields:
                    if f in om:
                        t.same(h.dst[f], 0, "omitted", "omitted field %s must not be driven" % f, h.dst[f])
                    else:
                        t.same(h.dst[f], t.val(h.src[f]), "tap" if tap else "field",
                               "field %s must arrive unchanged at the receiver" % f, h.dst[f])
                if tap:
                    t.same(h.dst.ready, t.val(h.src.ready) if method == "tap_ready" else 0, "tap",
                           "a tap mirrors ready only on request", h.dst.ready)
                elif "ready" in om:
                    t.same(h.src.ready, 0, "omitted", "omitted ready must not be driven", h.src.ready)
                else:
                    t.same(h.src.ready, t.val(h.dst.ready), "ready", "ready must travel from the receiver to the originator", h.src.ready)
                t.same(h.src.data, t.val(h.src.payload), "field", "data is an alias of payload", h.src.payload)
            return ins, Stateless(chk), {}
        flow_task(r, mk, spec, config=name)
    return name, task


def fifo(kind, first, last, pw, fw, name):
    def task(r):
        from amlib.stream import StreamInterface, connect_fifo_to_stream, connect_stream_to_fifo
        from amaranth.lib.fifo import FIFOInterface

        def mk():
            f = FIFOInterface(width=fw, depth=4, fwft=True)
            s = StreamInterface(name="s", payload_width=pw)
            m = Module()
            kw = {}
            if first is not None:
                kw["firstBit"] = first
            if last is not None:
                kw["lastBit"] = last
            if kind == "out":
                m.d.comb += connect_fifo_to_stream(f, s, **kw)
            else:
                m.d.comb += connect_stream_to_fifo(s, f, **kw)
            h = Harness(m)
            h.f, h.s = f, s
            return h

        def spec(h):
            f, s = h.f, h.s
            if kind == "out":
                ins = [("r_rdy", f.r_rdy, "c"), ("ready", s.ready, "c"), ("r_data", f.r_data, "d")]

                def chk(t):
                    v, rd = t.bit(f.r_rdy), t.bit(s.ready)
                    t.same(s.valid, int(v), "fifo-out", "stream valid iff the FIFO holds a word", s.valid)
                    if v:
                        t.same(f.r_en, int(rd), "fifo-out", "a word is popped iff the stream transfers it", f.r_en)
                    d = t.val(f.r_data)
                    n = min(pw, fw)
                    t.same(t.val(s.payload)[:n], d[:n], "fifo-out", "payload is the word's low bits", s.payload)
                    t.same(s.first, d[first] if first is not None else 0, "fifo-out", "first comes from the given bit", s.first)
                    t.same(s.last, d[last] if last is not None else 0, "fifo-out", "last comes from the given bit", s.last)
            else:
                ins = [("w_rdy", f.w_rdy, "c"), ("valid", s.valid, "c"), ("first", s.first, "d"), ("last", s.last, "d"),
                       ("payload", s.payload, "d")]

                def chk(t):
                    v, rd = t.bit(s.valid), t.bit(f.w_rdy)
                    t.same(s.ready, int(rd), "fifo-in", "stream ready iff the FIFO has room", s.ready)
                    if rd:
                        t.same(f.w_en, int(v), "fifo-in", "a word is pushed iff the stream transfers it", f.w_en)
                    d = t.val(f.w_data)
                    for i in range(min(pw, fw)):
                        if i not in (first, last):
                            t.same(d[i], t.val(s.payload)[i], "fifo-in", "payload occupies the word's low bits", f.w_data)
                    if first is not None:
                        t.same(d[first], t.val(s.first), "fifo-in", "first goes to the given bit", f.w_data)
                    if last is not None:
                        t.same(d[last], t.val(s.last), "fifo-in", "last goes to the given bit", f.w_data)
            return ins, Stateless(chk), {}
        flow_task(r, mk, spec, config=name)
    return name, task


def tasks(tier):
    out = []
    ex = [("tag", 3), ("keep", 1)]
    for meth in ("attach", "connect", "stream_eq", "tap", "tap_ready"):
        for e, pw, vw in (((), 8, 1), (ex, 5, 1), ((), 32, 4)):
            out.append(wiring(meth, e, pw, vw, None, "%s payload=%d valid=%d extra=%d" % (meth, pw, vw, len(e))))
    for meth in ("attach", "connect", "stream_eq"):
        for om in ({"ready"}, {"first", "last"}, {"valid", "payload"}, ["tag"]):
            out.append(wiring(meth, ex, 8, 1, om, "%s omit=%s" % (meth, ",".join(sorted(om)))))
    for kind in ("out", "in"):
        for first, last, pw, fw in ((None, None, 8, 8), (8, 9, 8, 10), (9, 8, 8, 10), (None, 8, 8, 9), (8, None, 8, 9),
                                    (0, 9, 8, 10), (9, 0, 8, 10), (None, None, 4, 8)):
            out.append(fifo(kind, first, last, pw, fw, "fifo-%s first=%s last=%s payload=%d fifo=%d" % (kind, first, last, pw, fw)))
    return out
