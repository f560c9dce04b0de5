"""setup: the engine must find planted violations in tiny positive examples, and stay silent on their repaired twins"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from amaranth import Module, Signal, Memory                     # noqa: E402
from hwsa.util import Harness, Auto, ports                      # noqa: E402
from hwsa.flow import Flow                                      # noqa: E402


def holder(broken):
    """register that has to hold its word while stalled"""
    m = Module()
    en, d, q = Signal(), Signal(4), Signal(4)
    if broken:
        with m.If(en | (d == 9)):
            m.d.sync += q.eq(d)
    else:
        with m.If(en):
            m.d.sync += q.eq(d)
    h = Harness(m)
    h.en, h.d, h.q = en, d, q

    def step(o, t):
        if o[0] is not None:
            t.same(q, o[0], "hold", "word must be held", q)
        return (t.val(d),) if t.bit(en) else o
    return Flow(h, ports(("c", "en", en), ("d", "d", d)), Auto((None,), step))


def main():
    f = holder(False).run()
    assert not f.violations and f.obl["hold"] >= 2, f.obl
    f = holder(True).run()
    assert "hold" in f.violations
    m = Module()
    a, b = Signal(), Signal()
    m.d.comb += [a.eq(b), b.eq(~a)]
    h = Harness(m)
    from hwsa.ir import Broken
    try:
        Flow(h, [], Auto((), lambda o, t: (t.val(a), ())[1])).run()
        raise SystemExit("selftest: comb. loop not found")
    except Broken:
        pass
    print("selftest ok")


if __name__ == "__main__":
    main()
