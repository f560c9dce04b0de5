"""C05: packet list streamer."""
from hwsa.util import *
from .c04 import Source

EXPLANATION = """
Typestate analysis of the packet streamer's IR (including the nested generator and both ROMs): after each start the
complete packet list has to appear word by word, each packet delimited by first/last, every word held until accepted,
done exactly once, and the idle location must stay reachable (no trap location) for every ready/start history.
"""
ASSUMPTIONS = ["packets are non-empty (an empty packet has no representation on a stream)"]
MUST = ["word", "first", "last", "hold", "finish", "quiet", "trap:idle"]


def streamer(packets, width, name):
    def task(r):
        from amlib.stream.generator import PacketListStreamer

        def mk():
            return PacketListStreamer(packets, data_width=width)

        def spec(g):
            ins = ports(("c", "start", g.start), ("c", "ready", g.stream.ready))
            words = []
            for p in packets:
                for i, w in enumerate(p):
                    words.append((w, 1, i == 0, i == len(p) - 1))
            words = tuple(words)
            aut = Source(g, lambda t: (), g.stream, lambda d, k, t: words[k] if k < len(words) else None)
            return ins, aut, dict(must=["word", "first", "last", "hold", "finish", "quiet"], no_trap=["idle"])
        flow_task(r, mk, spec, config=name)
    return name, task


def tasks(tier):
    cases = [([b"Hi, ", b"dear", b" ", b"x-"], None), ([b"abc", b"d"], None), ([b"abcd", b"ef", b"gh"], None),
             ([b"a"], None), ([b"abcdefgh"], None), ([b"ab", b"c", b"d", b"e", b"f", b"gh"], 8),
             ([[1, 2, 3], [4]], 8), ([[0x1234, 0x8001], [0xffff], [0x0100, 2, 0xfffe]], 16),
             ([[0x1ff, 0x100], [3, 4]], 9), ([[1, 2, 3, 4, 5, 6, 7], [8], [9, 10]], 32)]
    cases += [([bytes(range(n)) for n in range(1, 9)], None), ([b"a"] * 16, None), ([bytes(64)], None), ([bytes(range(256)) + b"end", b"x"], None), ([b"y"] * 33, None)]
    if tier == "thorough":
        cases += [([bytes(k % 251 for k in range(n)) for n in range(1, 48)], None), ([[k * 7919 & 0xffffff for k in range(600)], [1]], 24)]
    return [streamer(p, w, "packets %s width %s" % ("+".join(str(len(x)) for x in p), w)) for p, w in cases]
