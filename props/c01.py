"""C01: transactional FIFO."""
from hwsa.check import flow_task

EXPLANATION = """
Typestate data-flow analysis of the transactional FIFO's hardware IR (work-list fixpoint over control locations,
provenance tokens for data words) against the typestate automaton of a transactional queue; every location reachable
from reset is visited, each obligation is an identity between abstract values, so it holds for all word contents and
all strobe histories of any length in the listed (width, depth) configurations.
"""
ASSUMPTIONS = ["commit and discard of the same side are not strobed in the same cycle (undefined by the interface)",
               "depths/widths outside the table are not analysed; the pointer logic is uniform in them"]
MUST = ["full-flag", "empty-flag", "space", "head-word"]


class Queue:
    """live words: [committed read pointer .. write pointer); nr = words read since commit, nw = words not committed"""

    def __init__(self, f, depth):
        self.f, self.d = f, depth

    def init(self, flow):
        return ((), 0, 0)

    def step(self, o, t):
        f = self.f
        items, nr, nw = o
        committed = len(items) - nw
        t.same(f.full, int(len(items) == self.d), "full-flag",
               "full must be set exactly when all %d places hold live words" % self.d, f.full)
        t.same(f.empty, int(nr == committed), "empty-flag",
               "empty must be set exactly when no committed unread word exists", f.empty)
        t.same(f.space_available, self.d - len(items), "space",
               "space_available must equal depth minus live words", f.space_available)
        if nr < committed:
            t.same(f.read_data, items[nr], "head-word",
                   "read_data must show the oldest unread committed word", f.read_data)
        wc, wd = t.bit(f.write_commit), t.bit(f.write_discard)
        t.assume(not (wc and wd))
        rc, rd = t.bit(f.read_commit), t.bit(f.read_discard)
        t.assume(not (rc and rd))
        we = t.bit(f.write_en)
        re = t.bit(f.read_en)
        full = len(items) == self.d
        avail = nr < committed
        tail, n_tail = items, nw
        if wc:
            n_tail = 0
        if wd:
            tail, n_tail = items[:committed], 0
        elif we and not full:
            tail, n_tail = tail + (t.val(f.write_data),), n_tail + 1
        if rc:
            tail = tail[nr:]
            nr2 = 0
        else:
            nr2 = nr
        if rd:
            nr2 = 0
        elif re and avail:
            nr2 += 1
        return (tail, nr2, n_tail)


SIDES = dict(all=(), plain=("r", "w"), write=("r",), read=("w",))


def spec(f, depth, sides="all"):
    """sides: which side is transactional; the other one commits all the time"""
    kind = lambda side, commit: ("k:%d" % commit) if side in SIDES[sides] else "c"
    ins = [("write_en", f.write_en, "c"), ("write_commit", f.write_commit, kind("w", 1)),
           ("write_discard", f.write_discard, kind("w", 0)), ("read_en", f.read_en, "c"),
           ("read_commit", f.read_commit, kind("r", 1)), ("read_discard", f.read_discard, kind("r", 0)),
           ("write_data", f.write_data, "d")]
    return ins, Queue(f, depth), dict(must=MUST, no_trap=None)


def tasks(tier):
    from amlib.utils.fifo import TransactionalizedFIFO
    cfgs = [(1, 1), (8, 2), (3, 3), (8, 4), (16, 5), (32, 6), (8, 7), (8, 8), (8, 16, "plain"), (5, 33, "plain"), (8, 9, "write"), (8, 9, "read")]
    if tier == "thorough":
        cfgs += [(12, 9), (8, 64, "plain"), (8, 16, "write"), (8, 16, "read"), (8, 33, "read")]

    def mk(w, d, sides="all"):
        n = "fifo width=%d depth=%d%s" % (w, d, {"all": "", "plain": ", plain queue", "write": ", transactional writes", "read": ", transactional reads"}[sides])
        return n, lambda r: flow_task(r, lambda: TransactionalizedFIFO(width=w, depth=d), lambda f: spec(f, d, sides), config=n)
    return [mk(*c) for c in cfgs]
