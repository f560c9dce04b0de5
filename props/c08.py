"""C08: timer, dividing counter, clock divider."""
from hwsa.util import *

EXPLANATION = """
The counters' control-flow automata are run to the fixpoint together with a reference typestate that counts cycles:
done / divided count / clock level are required in every reachable location, for all enable, start and reload
histories (all load and reload values of the analysed widths).
"""
MUST = ["done", "count", "divided", "dividable", "clk"]


def timer(width, load, reload, restart, name, sig=False):
    def task(r):
        from amlib.utils import Timer

        def mk():
            kw = {}
            if load is not None:
                kw["load"] = load
            if reload is not None:
                kw["reload"] = reload
            if sig:
                kw = {k: Signal(width, reset=v, name=k) for k, v in kw.items()}
            return Timer(width=width, allow_restart=restart, **kw)

        def spec(d):
            ins = [("start", d.start, "c")]
            if load is None:
                ins.append(("load", d.load_in, "c"))
            if reload is None:
                ins.append(("reload", d.reload_in, "c"))

            # 'run' counts cycles until the cycle in which done is high
            def run(o, t):
                if o[0] == "run":
                    t.same(d.done, int(o[1] == 0), "done", "done must be high exactly `load` cycles after the start, "
                           "and after that every `reload` cycles", d.done)
                    if o[1] > 0:
                        return ("run", o[1] - 1)
                    rv = t.int(d.reload_in) if reload is None else reload
                    if rv > 0:
                        return ("run", rv - 1)
                    return ("idle", None) if restart else o
                t.same(d.done, 0, "done", "done must be low while the timer is idle", d.done)
                v = t.int(d.counter_out)
                if o[1] is not None:
                    t.require(v == o[1], "count", "an idle timer must hold the load value (the reload value when load is 0)", d.counter_out)
                if t.bit(d.start) and v > 0:
                    return ("run", v - 1)
                lv = t.int(d.load_in) if load is None else load
                rv = t.int(d.reload_in) if reload is None else reload
                return ("idle", lv if lv else rv)
            return ins, Auto(("idle", None), run), dict(must=["done", "count"])
        flow_task(r, mk, spec, config=name)
    return name, task


def divcount(divisor, width):
    name = "DividingCounter /%d width %d" % (divisor, width)

    def task(r):
        from amlib.utils import DividingCounter

        def spec(d):
            M = 1 << width

            def step(o, t):
                c, q, fresh = o
                t.same(d.counter_out, c, "count", "must count the active cycles since reset", d.counter_out)
                t.same(d.divided_counter_out, q, "divided", "must count how often a multiple of the divisor was reached", d.divided_counter_out)
                if fresh:
                    t.same(d.dividable_out, int(c % divisor == 0) if c else int(M % divisor == 0), "dividable",
                           "must flag exactly the multiples of the divisor", d.dividable_out)
                elif c % divisor:
                    t.same(d.dividable_out, 0, "dividable", "must only flag multiples of the divisor", d.dividable_out)
                if t.bit(d.reset_in):
                    return (0, 0, False)
                if t.bit(d.active_in):
                    c2 = (c + 1) % M
                    hit = (c + 1) % divisor == 0
                    return (c2, (q + hit) % M, True)
                return (c, q, fresh)
            return (ports(("c", "reset_in", d.reset_in), ("c", "active_in", d.active_in)), Auto((0, 0, False), step),
                    dict(must=["count", "divided", "dividable"]))
        flow_task(r, lambda: DividingCounter(divisor, width), spec)
    return name, task


def clkdiv(divisor, pol):
    name = "SimpleClockDivider /%d polarity %d" % (divisor, pol)

    def task(r):
        from amlib.utils import SimpleClockDivider
        half = divisor // 2

        def spec(d):
            def step(o, t):
                lvl, k = o
                t.same(d.clock_out, lvl, "clk", "clock must toggle every divisor/2 cycles while enabled, rest at its polarity otherwise, and never glitch", d.clock_out)
                if k == half - 1:
                    return (1 - lvl if t.bit(d.clock_enable_in) else pol, 0)
                return (lvl, k + 1)
            return ports(("c", "clock_enable_in", d.clock_enable_in)), Auto((pol, 0), step), dict(must=["clk"])
        flow_task(r, lambda: SimpleClockDivider(divisor, clock_polarity=pol), spec)
    return name, task


def tasks(tier):
    ts = [timer(3, None, None, True, "Timer width 3"), timer(3, None, None, False, "Timer width 3 no restart"),
          timer(4, 10, 0, True, "Timer load 10"), timer(4, 5, None, True, "Timer load 5"), timer(4, 0, 6, True, "Timer reload 6"),
          timer(2, 1, 1, True, "Timer load 1 reload 1"), timer(32, 10, 3, True, "Timer width 32"),
          timer(4, 3, 1, True, "Timer signals 3 / 1", True), timer(4, 0, 2, False, "Timer signals 0 / 2", True)]
    ts += [divcount(5, 5), divcount(1, 3), divcount(2, 3), divcount(3, 4), divcount(8, 4), divcount(7, 4)]
    ts += [clkdiv(n, p) for n in (2, 4, 6, 10, 16) for p in (0, 1)]
    ts += [timer(12, 4000, 333, True, "Timer load 4000 reload 333"), timer(32, 100000, 333, True, "Timer load 100000 reload 333")]
    ts += [clkdiv(n, p) for n in (100, 254, 1000) for p in (0, 1)] + [divcount(12, 7), divcount(33, 8)]
    if tier == "thorough":
        ts += [divcount(300, 9)]
        ts += [timer(5, None, None, True, "Timer width 5"), timer(32, 1000, 333, True, "Timer width 32 long")]
        ts += [divcount(n, w) for n in (6, 9, 10) for w in (6, 7)]
    return ts
