"""C34: Wishbone memories."""
from hwsa.util import *
from hwsa import stubs

EXPLANATION = """
Typestate analysis of the memory's IR with an arbitrary classic Wishbone master (any gaps, back-to-back accesses, any
selects, also cycles without strobe): the automaton keeps every byte as a provenance token and demands the
acknowledge timing and the read data of every access, so it holds for all data and access sequences of the sizes given.
"""
ASSUMPTIONS = ["a classic Wishbone master holds its request until the acknowledge", "amaranth_soc.wishbone.Interface as documented (hwsa/stubs.py)"]
MUST = ["ack", "read-data", "init", "geometry"]


class Wb:
    """idle / request pending for n cycles"""

    def __init__(self, bus, words, lanes, lw, ro, init, s):
        self.b, self.words, self.lanes, self.lw, self.ro, self.ini, self.s = bus, words, lanes, lw, ro, init, s

    def init(self, flow):
        mem = tuple(K(self.ini[w] >> (i * self.lw), self.lw) for w in range(self.words) for i in range(self.lanes))
        return (None, mem)

    def step(self, o, t):
        req, mem = o
        b, s = self.b, self.s
        mem = list(mem)
        new = req is None
        if new:
            k = t.int(s["kind"])      # 0: idle, 1: stb without cyc, 2: cyc without stb, 3: request
            t.set(b.cyc, int(k in (2, 3)))
            t.set(b.stb, int(k in (1, 3)))
            if k == 3:
                a = t.int(s["adr"]) % self.words
                we = t.bit(s["we"])
                sel = t.int(s["sel"])
                req = (a, we, sel, t.fresh(self.lanes * self.lw) if we else None)
                drive(t, b, req)
            else:
                t.set(b.adr, t.int(s["adr"]) % self.words)
                t.set(b.we, t.bit(s["we"]))
                t.set(b.sel, t.int(s["sel"]))
                t.set(b.dat_w, t.fresh(self.lanes * self.lw))
            t.same(b.ack, 0, "ack", "there is no access to acknowledge", b.ack)
            return (req, tuple(mem))
        t.set(b.cyc, 1)
        t.set(b.stb, 1)
        drive(t, b, req)
        t.same(b.ack, 1, "ack", "every access must be acknowledged in the cycle after its request", b.ack)
        a, we, sel, data = req
        for i in range(self.lanes):
            if we and not self.ro and sel >> i & 1:
                mem[a * self.lanes + i] = data[i * self.lw:(i + 1) * self.lw]
        if not we:
            t.same(b.dat_r, cat(*mem[a * self.lanes:(a + 1) * self.lanes]), "read-data",
                   "a read must return the bytes written last (or the initial contents)", b.dat_r)
        return (None, tuple(mem))


def drive(t, b, req):
    a, we, sel, data = req
    t.set(b.adr, a)
    t.set(b.we, we)
    t.set(b.sel, sel)
    if data is not None:
        t.set(b.dat_w, data)
    else:
        t.set(b.dat_w, t.fresh(len(b.dat_w)))


def memory(name, kind, aw, dw, gran, init, words, order="little"):
    """words: the expected initial word values"""
    def task(r):
        stubs.install()
        from amlib.soc.memory import WishboneRAM, WishboneROM

        def mk():
            if kind == "rom":
                d = WishboneROM(init, addr_width=aw, data_width=dw, granularity=gran)
            else:
                d = WishboneRAM(addr_width=aw, data_width=dw, granularity=gran, init=init, read_only=kind == "ro", byteorder=order)
            d.v_s = dict(kind=Signal(2, name="kind"), adr=Signal(max(1, len(d.bus.adr)), name="req_adr"), we=Signal(name="req_we"),
                         sel=Signal(len(d.bus.sel), name="req_sel"))
            return d

        def spec(d):
            lanes, n = dw // gran, 2 ** aw * gran // dw
            r.require(len(d.bus.adr) == (n - 1).bit_length() and len(d.bus.dat_r) == dw and len(d.bus.sel) == lanes, "geometry",
                      "the bus has %d address bits, %d selects; required %d and %d" % (len(d.bus.adr), len(d.bus.sel), (n - 1).bit_length(), lanes),
                      "amlib/soc/memory.py")
            m = d.bus.memory_map
            got = [(x.resource is d, x.start, x.end) for x in m.all_resources()]
            r.require(got == [(True, 0, 2 ** aw)] and m.data_width == gran, "geometry",
                      "the memory map must hold exactly the memory with 2**addr_width addresses of granularity bits", "amlib/soc/memory.py")
            full = list(words) + [0] * (n - len(words))
            b = d.bus
            ins = [("req_" + k, x, "c") for k, x in d.v_s.items()]
            ins += ports(*[("x", f, b[f]) for f in ("cyc", "stb", "we", "adr", "dat_w", "sel")])
            return ins, Wb(b, n, lanes, gran, kind in ("ro", "rom"), full, d.v_s), dict(must=["ack", "read-data"], clock="sync")
        flow_task(r, mk, spec, config=name)
        r.ok("init", len(words))
    return name, task


def tasks(tier):
    f = lambda vals, b: list(vals)
    by = bytes(range(0x81, 0x88))
    le32 = [0x84838281, 0x878685]
    be32 = [0x81828384, 0x85868700]
    cfg = [("RAM 2 x 16 bits", "ram", 2, 16, 8, None, []),
           ("RAM 4 x 8 bits", "ram", 2, 8, 8, [1, 2, 3], [1, 2, 3]),
           ("RAM 2 x 32 bits, granularity 16", "ram", 2, 32, 16, [0x12345678], [0x12345678]),
           ("RAM 2 x 32 bits, granularity 32, bytes", "ram", 1, 32, 32, by, le32),
           ("read-only RAM, bytes, little endian", "ro", 3, 32, 8, by, le32),
           ("read-only RAM, bytes, big endian", "ro", 3, 32, 8, by, be32, "big"),
           ("read-only RAM, bytearray, big endian, granularity 16", "ro", 2, 32, 16, bytearray(by), be32, "big"),
           ("read-only RAM, memoryview", "ro", 4, 16, 8, memoryview(by), [0x8281, 0x8483, 0x8685, 0x87]),
           ("ROM, words", "rom", 4, 32, 8, [1, 0xffffffff, 7], [1, 0xffffffff, 7]),
           ("ROM, granularity 32", "rom", 2, 32, 32, [5, 6, 7, 8], [5, 6, 7, 8]),
           ("ROM, granularity 16, bytes", "rom", 2, 16, 16, by, [0x8281, 0x8483, 0x8685, 0x87])]
    cfg += [("RAM 4 x 16 bits", "ram", 3, 16, 8, None, []), ("ROM 16 x 64 bits", "rom", 7, 64, 8, by, [0x0087868584838281])]
    if tier == "thorough":
        cfg += [("RAM 2 x 64 bits, granularity 32", "ram", 2, 64, 32, None, [])]
    return [memory(*c) for c in cfg]
