"""C04: constant stream generator and stream serializer; C05 reuses Source."""
from hwsa.util import *

EXPLANATION = """
Typestate analysis of the generators' IR: the automaton knows which word of the packet is due, how long the source has
been silent, and what was offered in the previous cycle. In every reachable location the offered word, its byte-valid
mask, first and last must be the due ones, an offered word must stay until it is accepted, and done must follow the
last accepted word exactly once. No-trap: from every location the source can reach the next start.
"""
ASSUMPTIONS = ["max_length is held constant while a packet is being sent; start_position is only looked at with start",
               "start_position counts words, as the code uses it; StreamSerializer: data inputs are held while the packet is being sent"]
MUST = ["word", "valid-mask", "first", "last", "hold", "done", "quiet", "finish"]
LAT = 3


class Source:
    """idle -> sending word k of the current packet list -> finish -> idle"""

    def __init__(self, g, plan, stream, words_of):
        """plan(t) -> hashable description of the packet when start is accepted, or None when start is refused
        words_of(desc, k, t) -> (payload V|int, valid mask int, first, last) or None past the end"""
        self.g, self.plan, self.s, self.words = g, plan, stream, words_of

    def init(self, flow):
        return ("idle", None, 0, 0)

    def step(self, o, t):
        g, s = self.g, self.s
        ph, desc, k, w = o
        vmask = t.int(s.valid)
        done = t.bit(g.done)
        if ph == "idle":
            t.mark("idle")
            t.require(vmask == 0, "quiet", "no word may be offered outside a started transmission", s.valid)
            t.require(not done, "quiet", "done may not be signalled outside a transmission", g.done)
            if t.bit(g.start):
                d = self.plan(t)
                if d is not None:
                    return ("send", d, 0, 0)
            return o
        if ph == "send":
            self.stable(desc, t)
            t.require(not done, "done", "done before the last word was accepted", g.done)
            due = self.words(desc, k, t)
            if vmask == 0:
                t.require(w != "offered", "hold", "an offered word was withdrawn before it was accepted", s.valid)
                if w == "offered":
                    return o
                t.require(w < LAT, "latency", "the source stays silent although a word is due", s.valid)
                return (ph, desc, k, w + 1)
            if w == "offered":
                t.require(True, "hold", "")
            pay, mask, first, last = due
            t.same(s.payload, pay, "word", "word %d of the transmission" % k, s.payload)
            t.require(vmask == mask, "valid-mask", "valid mask of word %d is %s, required %s" % (k, bin(vmask), bin(mask)), s.valid)
            t.same(s.first, int(first), "first", "first flag of word %d" % k, s.first)
            t.same(s.last, int(last), "last", "last flag of word %d" % k, s.last)
            if t.bit(s.ready):
                if self.words(desc, k + 1, t) is None:
                    return ("fin", None, 0, 0)
                return (ph, desc, k + 1, 0)
            return (ph, desc, k, "offered")
        if ph == "fin":
            t.require(vmask == 0, "quiet", "more words than due", s.valid)
            if done:
                t.require(True, "finish", "")
                return ("idle", None, 0, 0)
            t.require(w < LAT, "finish", "done is not signalled after the last word", g.done)
            return (ph, desc, k, w + 1)

    def stable(self, desc, t):
        pass


def const_words(data, width, lanes, start, limit, endian):
    """expected words of one transmission: [(payload, mask, first, last)]"""
    bpw = (width + 7) // 8
    if isinstance(data, (bytes, bytearray)) and width != 8:
        words = [int.from_bytes(data[i:i + bpw], endian) for i in range(0, len(data), bpw)]
        tail = len(data) % bpw or bpw
    else:
        words = list(data)
        tail = lanes
    out = []
    start = min(start, len(words) - 1)
    sent = 0
    for p in range(start, len(words)):
        left = None if limit is None else limit - sent
        n = tail if p == len(words) - 1 else lanes
        last = p == len(words) - 1
        if left is not None and left <= bpw:
            last = True
            if lanes > 1:
                n = min(n, left)
        out.append((words[p], (1 << (n if lanes > 1 else 1)) - 1, p == start, last))
        sent += bpw
        if last:
            break
    return tuple(out)


def constgen(data, width, lanes, mlw, endian, domain, name, limits=None):
    def task(r):
        from amlib.stream.generator import ConstantStreamGenerator
        from amlib.stream import StreamInterface

        def mk():
            class ST(StreamInterface):
                def __init__(self, payload_width=8, **kw):
                    super().__init__(payload_width=payload_width, valid_width=lanes)
            kw = {}
            if width != 8:
                kw["data_width"] = width
            if endian:
                kw["data_endianness"] = endian
            return ConstantStreamGenerator(data, domain=domain, stream_type=ST, max_length_width=mlw, **kw)

        def spec(g):
            ins = ports(("c", "start", g.start), ("c", "ready", g.stream.ready), ("d", "start_position", g.start_position))
            if mlw:
                ins += ports(("d", "max_length", g.max_length))

            class S(Source):
                def stable(self, desc, t):
                    if mlw:
                        t.assume(t.decide(t.eq(t.val(g.max_length), desc[1])))

                def step(self, o, t):
                    if mlw:
                        if o[0] == "idle":
                            ml = t.int(g.max_length)
                        else:
                            ml = t.int(g.max_length) if o[0] == "fin" else None
                        if ml is not None:
                            t.same(g.output_length, min(ml, len(data)), "length",
                                   "output_length must be the lesser of max_length and the data length", g.output_length)
                    return super().step(o, t)


            def plan(t):
                sp = t.int(g.start_position)
                ml = t.int(g.max_length) if mlw else None
                if mlw and ml == 0:
                    return None
                return (const_words(data, width, lanes, sp, ml, endian or "little"), ml)
            aut = S(g, plan, g.stream, lambda d, k, t: d[0][k] if k < len(d[0]) else None)
            return ins, aut, dict(must=["word", "first", "last", "hold", "finish", "quiet"] + (["length"] if mlw else []),
                                  no_trap=["idle"])
        flow_task(r, mk, spec, config=name)
    return name, task


def serializer(n, width, mlw, domain, name):
    def task(r):
        from amlib.stream.generator import StreamSerializer

        def mk():
            return StreamSerializer(n, domain=domain, data_width=width, max_length_width=mlw)

        def spec(g):
            ins = ports(("c", "start", g.start), ("c", "ready", g.stream.ready))
            ins += [("data%d" % i, d, "d") for i, d in enumerate(g.data)]
            if mlw:
                ins += ports(("d", "max_length", g.max_length))

            class S(Source):
                def stable(self, desc, t):
                    if mlw:
                        t.assume(t.decide(t.eq(t.val(g.max_length), desc[0])))

            def plan(t):
                ml = t.int(g.max_length) if mlw else n
                return None if ml == 0 else (ml,)

            def words(d, k, t):
                cnt = min(d[0], n)
                if k >= cnt:
                    return None
                return t.val(g.data[k]), 1, k == 0, k == cnt - 1
            return ins, S(g, plan, g.stream, words), dict(must=["word", "first", "last", "hold", "finish", "quiet"], no_trap=["idle"])
        flow_task(r, mk, spec, config=name)
    return name, task


def tasks(tier):
    out = []
    out.append(constgen(bytes(range(0x41, 0x46)), 8, 1, None, None, "sync", "constant 5 bytes"))
    out.append(constgen(bytes(range(0x41, 0x46)), 8, 1, 4, None, "sync", "constant 5 bytes, max_length 4 bit"))
    out.append(constgen([0x11, 0x80, 0xff, 0], 8, 1, 3, None, "usb", "constant 4 words, max_length 3 bit, domain usb"))
    out.append(constgen([7], 8, 1, 2, None, "sync", "constant 1 word, max_length 2 bit"))
    out.append(constgen([7], 8, 1, None, None, "sync", "constant 1 word"))
    out.append(constgen([0x1234, 0xfedc, 0x8001], 16, 1, None, None, "sync", "constant 3 words of 16 bit"))
    for L, e in ((11, "little"), (8, "big"), (5, "little")):
        out.append(constgen(bytes(range(0x31, 0x31 + L)), 32, 4, None, e, "sync", "constant %d bytes, 32 bit %s endian" % (L, e)))
        out.append(constgen(bytes(range(0x31, 0x31 + L)), 32, 4, 5, e, "sync", "constant %d bytes, 32 bit %s endian, max_length 5 bit" % (L, e)))
    for n, w, mlw, d in ((4, 8, None, "sync"), (4, 8, 3, "sync"), (3, 12, 4, "usb"), (1, 8, 2, "sync"), (5, 8, None, "sync")):
        out.append(serializer(n, w, mlw, d, "serializer %d x %d bit, max_length %s, domain %s" % (n, w, mlw, d)))
    out.append(constgen(bytes(range(40)), 8, 1, None, None, "sync", "constant 40 bytes"))
    out.append(constgen(bytes(range(9)), 8, 1, 4, None, "sync", "constant 9 bytes, max_length 4 bit"))
    out.append(constgen(bytes(range(12)), 8, 1, 5, None, "sync", "constant 12 bytes, max_length 5 bit"))
    out.append(constgen(bytes(range(0x31, 0x31 + 37)), 32, 4, None, "little", "sync", "constant 37 bytes, 32 bit"))
    out.append(constgen(bytes(range(0x31, 0x31 + 20)), 64, 8, 6, "big", "sync", "constant 20 bytes, 64 bit, max_length 6 bit"))
    for n, w, mlw, d in ((9, 8, 4, "sync"), (17, 8, None, "usb"), (33, 16, None, "sync")):
        out.append(serializer(n, w, mlw, d, "serializer %d x %d bit, max_length %s, domain %s" % (n, w, mlw, d)))
    out.append(serializer(17, 8, 6, "sync", "serializer 17 x 8 bit, max_length 6"))
    if tier == "thorough":
        out.append(constgen(bytes(range(0x21, 0x21 + 20)), 8, 1, 6, None, "sync", "constant 20 bytes, max_length 6 bit"))
        out.append(constgen(bytes(range(0x31, 0x31 + 23)), 32, 4, 6, "little", "sync", "constant 23 bytes, 32 bit, max_length 6 bit"))
    return out
