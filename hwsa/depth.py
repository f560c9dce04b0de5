"""Bit-level synchroniser-chain analysis on the hardware IR.

For an asynchronous input bit every path is followed through unconditional copies / inversions.  The rule: the bit (and
each copy of it) may only be copied into registers until it has passed `need` registers; any other use (condition,
operator, index, conditional assignment, output) before that is a violation.
"""
from amaranth.hdl import ast as A
from . import ir


def copy_bits(v):
    """list of (signal, bit) | None for every bit of an expression; None = not a plain copy"""
    if isinstance(v, A.Signal):
        return [(v, i) for i in range(len(v))]
    if isinstance(v, A.Const):
        return ["const"] * len(v)
    if isinstance(v, A.Cat):
        return [b for p in v.parts for b in copy_bits(p)]
    if isinstance(v, A.Slice):
        return copy_bits(v.value)[v.start:v.stop]
    if isinstance(v, A.Operator) and v.operator in ("u", "s", "~"):
        return copy_bits(v.operands[0])
    if isinstance(v, A.Operator) and v.operator == "b" and len(v.operands[0]) == 1:
        return copy_bits(v.operands[0])
    return [None] * len(v)


class Uses:
    def __init__(self, flat):
        self.copies = {}      # (id, bit) -> [(dst signal, bit, is_reg, loc)]
        self.other = {}       # (id, bit) -> [loc, description]
        for sid, (s, stmts, path) in flat.comb.items():
            self.scan(stmts, {sid}, False, False)
        for d, sigs, stmts, path in flat.groups:
            self.scan(stmts, {id(s) for s in sigs}, True, False)
        for inst, path in flat.instances:
            for k, (v, *_) in getattr(inst, "named_ports", {}).items():
                for s in A.Value.cast(v)._rhs_signals():
                    for b in range(len(s)):
                        self.use(s, b, None, "connected to instance port %s" % k)

    def use(self, s, b, loc, what):
        self.other.setdefault((id(s), b), []).append((loc, what))

    def bits(self, v):
        """(signal, bit)s an expression reads, slice-precise"""
        if isinstance(v, A.Signal):
            return [(v, i) for i in range(len(v))]
        if isinstance(v, A.Slice):
            try:
                bs = copy_bits(v.value)[v.start:v.stop]
                if None not in bs:
                    return [b for b in bs if b != "const"]
            except Exception:
                pass
            return self.bits(v.value)
        if isinstance(v, A.Operator):
            return [b for o in v.operands for b in self.bits(o)]
        if isinstance(v, A.Cat):
            return [b for o in v.parts for b in self.bits(o)]
        if isinstance(v, A.Const):
            return []
        return [(s, i) for s in v._rhs_signals() for i in range(len(s))]

    def scan(self, stmts, ids, reg, cond):
        for st in stmts:
            if isinstance(st, tuple):
                for s, b in self.bits(A.Value.cast(st[1].test)):
                    self.use(s, b, getattr(st[1], "src_loc", None), "used as a condition")
                for p, body in st[2]:
                    self.scan(body, ids, reg, True)
                continue
            lhs = None
            try:
                lhs = ir.expand(st.lhs)
            except Exception:
                pass
            cp = copy_bits(A.Value.cast(st.rhs))
            rb = self.bits(A.Value.cast(st.rhs))
            if lhs is None or cond:
                what = "used in a conditional assignment" if cond else "assigned to a computed target"
                for s, b in rb:
                    self.use(s, b, st.src_loc, what)
                continue
            plain = set()
            for k, src in enumerate(cp):
                if src is None or src == "const":
                    continue
                plain.add((id(src[0]), src[1]))
                if k < len(lhs) and id(lhs[k][0]) in ids:
                    self.copies.setdefault((id(src[0]), src[1]), []).append((lhs[k][0], lhs[k][1], reg, st.src_loc))
            if None in cp:
                for s, b in rb:
                    if (id(s), b) not in plain or not all(cp):
                        self.use(s, b, st.src_loc, "used in an expression")


def chain(flat, sig, bit, need, outputs=()):
    """-> (ok paths, [violations])"""
    u = Uses(flat)
    bad, ok = [], 0
    outs = {(id(s), b) for v in outputs for s, b in ir.expand(v)}
    seen = set()
    work = [(sig, bit, 0)]
    while work:
        s, b, d = work.pop()
        if (id(s), b, d) in seen:
            continue
        seen.add((id(s), b, d))
        if d >= need:
            ok += 1
            continue
        for loc, what in u.other.get((id(s), b), ()):
            bad.append(("`%s[%d]` is %s after only %d synchroniser stage(s)" % (s.name, b, what, d), loc))
        if (id(s), b) in outs and d < need and s is not sig:
            bad.append(("`%s[%d]` leaves the component after only %d synchroniser stage(s)" % (s.name, b, d), s.src_loc))
        for t, tb, reg, loc in u.copies.get((id(s), b), ()):
            work.append((t, tb, d + (1 if reg else 0)))
    return ok, bad


def check(r, dut, pins, need=2, rule="sync-depth", outputs=()):
    flat = ir.Flat(dut)
    for p in pins:
        for s, b in ir.expand(p):
            ok, bad = chain(flat, s, b, need, outputs)
            if bad:
                for msg, loc in bad[:3]:
                    r.bad(rule, "asynchronous input %s: %s" % (s.name, msg), ir.loc_str(loc))
            elif not ok:
                r.bad(rule, "asynchronous input %s never reaches a synchroniser" % s.name, ir.loc_str(s.src_loc))
            else:
                r.ok(rule, ok)
    return flat
