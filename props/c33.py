"""C33: interrupt source."""
from hwsa.util import *
from hwsa import stubs

EXPLANATION = """
Typestate analysis of the InterruptSource IR: the automaton keeps the pending and enable bits and the previous level of
every event and demands register contents and interrupt line in every cycle for arbitrary strobes and CSR accesses.
"""
ASSUMPTIONS = ["amaranth_soc CSR elements as documented (interface model in hwsa/stubs.py)"]
MUST = ["status", "pending", "enable", "irq"]


class Irq:
    def __init__(self, d, events, modes):
        self.d, self.ev, self.modes = d, events, modes

    def init(self, flow):
        n = len(self.modes)
        return ((0,) * n, (0,) * n, (0,) * n)

    def step(self, o, t):
        prev, pend, en = o
        d = self.d
        n = len(self.modes)
        word = lambda bits: sum(b << i for i, b in enumerate(bits))
        t.same(d.status.r_data, word(prev), "status", "status must show the level of every event (one cycle ago)", d.status.r_data)
        t.same(d.pending.r_data, word(pend), "pending", "pending must be set by exactly the configured level or edge and cleared by writing one", d.pending.r_data)
        t.same(d.enable.r_data, word(en), "enable", "enable must hold the word written last", d.enable.r_data)
        t.same(d.irq, int(any(p and e for p, e in zip(pend, en))), "irq", "irq must be high exactly while an enabled event is pending", d.irq)
        cur = [t.bit(e.stb) for e in self.ev]
        clear = t.int(d.pending.w_data) if t.bit(d.pending.w_stb) else 0
        trig = [c if m == "level" else (c and not p) if m == "rise" else (p and not c) for c, p, m in zip(cur, prev, self.modes)]
        pend = [int(x or (p and not clear >> i & 1)) for i, (x, p) in enumerate(zip(trig, pend))]
        if t.bit(d.enable.w_stb):
            w = t.int(d.enable.w_data)
            en = [w >> i & 1 for i in range(n)]
        return (tuple(int(c) for c in cur), tuple(pend), tuple(en))


def irq(modes):
    name = "events " + ",".join(modes)

    def task(r):
        stubs.install()
        from amlib.soc.event import EventSource, InterruptSource

        def mk():
            evs = [EventSource(mode=m, name="ev%d" % i) for i, m in enumerate(modes)]
            d = InterruptSource(evs, name="src")
            d.v_ev = evs
            return d

        def spec(d):
            ins = [(e.name, e.stb, "c") for e in d.v_ev]
            ins += ports(*[("c", n + "_" + f, e[f]) for n, e in (("pending", d.pending), ("enable", d.enable)) for f in ("w_data", "w_stb")])
            return ins, Irq(d, d.v_ev, modes), dict(must=MUST, clock="sync")
        flow_task(r, mk, spec, config=name)
    return name, task


def modes_rejected(r):
    stubs.install()
    from amlib.soc.event import EventSource, InterruptSource
    for bad, exc in ((lambda: EventSource(mode="both", name="x"), ValueError), (lambda: InterruptSource([Signal()], name="x"), TypeError)):
        try:
            bad()
        except exc:
            r.ok("rejects")
        else:
            r.bad("rejects", "an unknown trigger mode or a non-event is accepted", "amlib/soc/event.py")


def tasks(tier):
    cfg = [("level",), ("rise",), ("fall",), ("level", "rise"), ("fall", "level"), ("level", "rise", "fall")]
    if tier == "thorough":
        cfg += [("fall", "fall", "rise"), ("rise", "fall", "level")]
    return [irq(c) for c in cfg] + [("constructor arguments", modes_rejected)]
