"""C38: integrated logic analyser core."""
from hwsa.util import *
from hwsa import stubs

EXPLANATION = """
Typestate analysis of the analyser's IR: the captured signals are fresh provenance tokens in every cycle, trigger, enable
and read address are arbitrary; the automaton keeps the sample history and the buffer contents and demands status outputs
in every cycle and every read-back sample of a complete capture, over any number of captures.
"""
ASSUMPTIONS = ["with two or more pre-trigger samples, the first trigger comes after the pre-trigger buffer has been filled (enable high meanwhile)",
               "samples are read back while no capture is running"]
MUST = ["status", "sample"]


class Ila:
    def __init__(self, d, depth, pre, enable, width):
        self.d, self.depth, self.pre, self.en, self.w = d, depth, pre, enable, width
        self.warm = 0 if pre == 0 else 3 if pre == 1 else 2 * pre + 6

    def init(self, flow):
        # history (newest first) of (sample, enabled), buffer, position or None, complete, warm-up, readback address
        return ((), (None,) * self.depth, None, 0, 0, None)

    def go(self, t):
        b = t.bit(self.d.v_s["go"])
        t.set(self.d.trigger, b)
        return b

    def step(self, o, t):
        hist, buf, pos, done, warm, rd = o
        d = self.d
        n = self.pre
        # the sample that is stored in this cycle: taken pre + 1 cycles ago
        cur = hist[n] if len(hist) > n else None
        smp = pos is not None and (cur[1] if self.en else True)
        t.same(d.capturing, int(pos is not None), "status", "capturing must be high from the cycle after the trigger until the buffer is full", d.capturing)
        t.same(d.sampling, int(smp), "status", "sampling must be high in exactly the cycles that store a sample", d.sampling)
        t.same(d.complete, done, "status", "complete must be high after the last sample until the next trigger", d.complete)
        if rd is not None and pos is None and done and buf[rd] is not None:
            t.same(d.captured_sample, buf[rd], "sample", "sample %d must be the input %d cycles %s the trigger%s" % (
                rd, abs(rd - n), "before" if rd < n else "after", " (counting enabled samples)" if self.en else ""), d.captured_sample)
        en = True
        if self.en:
            if warm < self.warm and n:
                t.set(d.enable, 1)
            else:
                en = t.bit(d.v_s["en"])
                t.set(d.enable, en)
        x = t.fresh(self.w)
        off = 0
        for s in d.v_sigs:
            t.set(s, x[off:off + len(s)])
            off += len(s)
        # data taken while disabled is never stored: forget it
        hist = ((x, en),) + hist[:n]
        rd = None
        if pos is None and done:
            a = t.int(d.captured_sample_number)
            rd = a if a < self.depth else None
        buf = list(buf)
        if pos is None:
            if warm < self.warm:
                t.set(d.trigger, 0)
                warm += 1
            elif self.go(t):
                pos, done, rd = 0, 0, None
                buf = [None] * self.depth
        else:
            self.go(t)
            if smp:
                buf[pos] = cur[0]
                pos += 1
                if pos == self.depth:
                    pos, done = None, 1
        return (hist, tuple(buf), pos, done, warm, rd)


def ila(depth, pre, enable, widths, domain="sync"):
    name = "depth %d, %d pre-trigger samples%s, widths %s%s" % (depth, pre, ", enable" if enable else "", widths, "" if domain == "sync" else ", domain " + domain)

    def task(r):
        stubs.install()
        from amlib.debug.ila import IntegratedLogicAnalyzer

        def mk():
            sigs = [Signal(w, name="sig%d" % i) for i, w in enumerate(widths)]
            d = IntegratedLogicAnalyzer(signals=sigs, sample_depth=depth, samples_pretrigger=pre, with_enable=enable, domain=domain)
            d.v_sigs = sigs
            d.v_s = {n: Signal(name="env_" + n) for n in ("go", "en")}
            return d

        def spec(d):
            ins = [(s.name, s, "x") for s in d.v_sigs] + [(n, x, "c") for n, x in d.v_s.items()] + ports(("x", "trigger", d.trigger), ("c", "captured_sample_number", d.captured_sample_number))
            if enable:
                ins += ports(("x", "enable", d.enable))
            return ins, Ila(d, depth, pre, enable, sum(widths)), dict(must=MUST, clock=domain)
        flow_task(r, mk, spec, config=name)
    return name, task


def tasks(tier):
    cfg = [(2, 0, False, (1, 2)), (4, 0, True, (1,)), (3, 1, False, (2,)), (2, 1, True, (1, 1)), (2, 2, False, (1, 2)), (4, 3, False, (1,)), (3, 2, True, (1,)),
           (3, 1, False, (4, 9, 3), "fast"), (4, 2, False, (2,), "usb"), (5, 4, False, (2,)), (6, 5, False, (1,)), (9, 8, False, (1,)), (2, 3, True, (1,)), (8, 1, False, (3,)), (16, 0, False, (1,)), (7, 0, True, (33,)), (12, 7, False, (2,))]
    if tier == "thorough":
        cfg += [(4, 3, True, (1,)), (20, 2, False, (1,)), (33, 0, False, (8,)), (17, 16, False, (1,)), (4, 5, True, (1,), "fast")]
    return [ila(*c) for c in cfg]
