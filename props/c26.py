"""C26: button debouncer."""
from hwsa.util import *

EXPLANATION = """
Typestate analysis of the debouncer IR for every input history: the automaton counts how long the (active low) button
has been different from the reported state.  The state may change only when the input was stable for the whole debounce
time, has to change then, and every change is announced by exactly one strobe of the right kind.
"""
ASSUMPTIONS = []
MUST = ["early", "late", "strobe", "trap:down", "trap:up"]
TIME = 1 << 15
SLACK = 8


class Deb:
    """(reported state, cycles the input has differed from it up to two cycles ago, input of the last two cycles, strobe of the last cycle)"""

    def __init__(self, d):
        self.d = d

    def init(self, flow):
        return (0, 0, (None, None), None)

    def step(self, o, t):
        state, n, (b1, b2), strobe = o
        d = self.d
        now = t.bit(d.btn_state_out)
        down, up = t.bit(d.btn_down_out), t.bit(d.btn_up_out)
        if now != state:
            t.require(strobe == ("down" if now else "up"), "strobe", "the state changes without its strobe", d.btn_state_out)
            t.require(n >= TIME - 2, "early", "the state changes after only %d cycles of stable input" % n, d.btn_state_out)
            n = 0
        else:
            t.require(strobe is None, "strobe", "a strobe without a change of the state", d.btn_down_out)
            t.require(n <= TIME + SLACK, "late", "the state does not follow the stable input", d.btn_state_out)
        t.require(not (down and up), "strobe", "both strobes at the same time", d.btn_down_out)
        if down:
            t.mark("down")
        if up:
            t.mark("up")
        # an input change may take up to two cycles through the synchroniser; what happens meanwhile does not count
        differs = b2 is not None and (not b2) != bool(now)
        n = min(n + 1, TIME + SLACK + 1) if differs else 0
        return (int(now), n, (bool(t.bit(d.btn_in)), b1), "down" if down else "up" if up else None)


def debounce(r):
    from amlib.io.debouncer import Debouncer

    def spec(d):
        return ports(("c", "btn", d.btn_in)), Deb(d), dict(must=["early", "late", "strobe"], no_trap=["down", "up"])
    flow_task(r, Debouncer, spec, config="debouncer")


def tasks(tier):
    return [("debouncer", debounce)]
