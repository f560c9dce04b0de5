"""C40: stream offers never depend on ready."""
import contextlib
import io

from hwsa.util import *
from hwsa import catalog, ir, netlist

EXPLANATION = """
Reachability in the bit-level combinational dependency graph of the IR of every component with stream ports (table
hwsa/catalog.py): from valid, first, last, payload and extra fields of every stream the component originates, no ready
may be reachable; from the ready of every stream it receives, neither that stream's own offer nor (outside the
multiplexer, which must look at valid to select) any other offer.
"""
ASSUMPTIONS = ["a stream is an attribute of the component that is a StreamInterface; its direction follows from its drivers"]
MUST = ["offer", "ready"]
SELECTS = ("StreamMultiplexer",)    # ready goes to the input selected by valid


def streams(d):
    from amlib.stream import StreamInterface
    out = [(k, v) for k, v in vars(d).items() if isinstance(v, StreamInterface)]
    return out + [("input %d" % i, v) for i, v in enumerate(getattr(d, "v_in", ()))] + [("output %d" % i, v) for i, v in enumerate(getattr(d, "v_out", ()))]


def component(name, fn):
    def task(r):
        with contextlib.redirect_stdout(io.StringIO()):
            d = build(fn)
            ss = streams(d)
            flat = ir.Flat(d)
        nl = netlist.Netlist(flat)
        driven = set(flat.comb) | set(flat.sync)
        outs = [(k, s) for k, s in ss if id(s.valid) in driven]
        ins = [(k, s) for k, s in ss if id(s.valid) not in driven]
        for k, s in outs:
            for f in s.fields:
                if f == "ready":
                    continue
                sig = s[f]
                pred = nl.reach([(id(sig), i) for i in range(len(sig))])
                for k2, s2 in ss:
                    b = (id(s2.ready), 0)
                    r.require(b not in pred, "offer", "%s: `%s` of stream %s depends combinationally on the ready of stream %s" % (name, f, k, k2),
                              type(d).__name__, nl.path(pred, b) if b in pred else ())
        for k, s in ins:
            pred = nl.reach([(id(s.ready), 0)])
            for k2, s2 in ins:
                for f in s2.fields:
                    if f == "ready" or type(d).__name__ in SELECTS and f == "valid":
                        continue
                    hit = [(id(s2[f]), i) for i in range(len(s2[f])) if (id(s2[f]), i) in pred]
                    r.require(not hit, "ready", "%s: ready of stream %s depends combinationally on `%s` of stream %s" % (name, k, f, k2),
                              type(d).__name__, nl.path(pred, hit[0]) if hit else ())
        r.units.append(name)
        r.stats["streams"] = r.stats.get("streams", 0) + len(ss)
    return name, task


def fifo_link(out):
    """the library's connections between a FIFO and a stream"""
    from amaranth.lib.fifo import SyncFIFO
    from amlib.stream import connect_fifo_to_stream, connect_stream_to_fifo
    m = Module()
    m.submodules.fifo = fifo = SyncFIFO(width=10, depth=4)
    s = catalog.stream_cls()()
    h = catalog.H()
    h.m = m
    if out:
        m.d.comb += connect_fifo_to_stream(fifo, s, firstBit=8, lastBit=9)
        h.v_out = [s]
    else:
        m.d.comb += connect_stream_to_fifo(s, fifo, firstBit=8, lastBit=9)
        h.v_in = [s]
    return h


def tasks(tier):
    ts = [component("FIFO to stream", lambda: fifo_link(True)), component("stream to FIFO", lambda: fifo_link(False))]
    return ts + [component(name, fn) for name, fn, dom, extra in catalog.entries()]
