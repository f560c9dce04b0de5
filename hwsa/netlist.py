"""Bit-level combinational dependency graph of the hardware IR: drivers, loops, reachability."""
from amaranth.hdl import ast as A
from . import ir

UNION = None


class Deps:
    """per-bit dependency sets of expressions: frozenset of (id(signal), bit)"""

    def __init__(self):
        self.sigs = {}
        self.memo = {}

    def all(self, v):
        return frozenset().union(*self.bits(v)) if len(v) else self.union(v)

    def union(self, v):
        out = set()
        for s in v._rhs_signals():
            self.sigs[id(s)] = s
            out |= {(id(s), i) for i in range(len(s))}
        return frozenset(out)

    def ext(self, bs, v, w):
        fill = bs[-1] if bs and v.shape().signed else frozenset()
        return (bs + [fill] * (w - len(bs)))[:w]

    def bits(self, v):
        k = id(v)
        if k not in self.memo:
            self.memo[k] = (v, self.compute(v))
        return self.memo[k][1]

    def compute(self, v):
        w = len(v)
        if isinstance(v, A.Const):
            return [frozenset()] * w
        if isinstance(v, A.Signal):
            self.sigs[id(v)] = v
            return [frozenset([(id(v), i)]) for i in range(w)]
        if isinstance(v, A.Cat):
            return [b for p in v.parts for b in self.bits(p)]
        if isinstance(v, A.Slice):
            return self.bits(v.value)[v.start:v.stop]
        if isinstance(v, A.Operator):
            o = v.operands
            op = v.operator
            if op in ("u", "s", "~") and len(o) == 1:
                return self.ext(self.bits(o[0]), o[0], w)
            if op in ("&", "|", "^") and len(o) == 2:
                a, b = [self.ext(self.bits(x), x, w) for x in o]
                return [x | y for x, y in zip(a, b)]
            if op in ("+", "-"):
                xs = [self.ext(self.bits(x), x, w) for x in o]
                out, acc = [], frozenset()
                for i in range(w):
                    acc = acc.union(*[x[i] for x in xs])
                    out.append(acc)
                return out
            if op == "m":
                s = self.all(o[0])
                a, b = [self.ext(self.bits(x), x, w) for x in o[1:]]
                return [x | y | s for x, y in zip(a, b)]
            if op in ("<<", ">>") and isinstance(o[1], A.Const):
                n = o[1].value if op == ">>" else -o[1].value
                bs = self.bits(o[0])
                fill = bs[-1] if bs and o[0].shape().signed else frozenset()
                return [frozenset() if i + n < 0 else bs[i + n] if i + n < len(bs) else fill for i in range(w)]
            u = frozenset().union(*[self.all(x) for x in o])
            return [u] * w
        if isinstance(v, A.ArrayProxy):
            ix = self.all(A.Value.cast(v.index))
            out = [ix] * w
            for e in v._iter_as_values():
                for i, b in enumerate(self.ext(self.bits(e), e, w)):
                    out[i] = out[i] | b
            return out
        return [self.union(v)] * w


class Netlist:
    def __init__(self, flat):
        self.flat = flat
        self.deps = Deps()
        self.edge = {}          # driven comb bit -> set of bits it depends on
        self.where = {}
        for sid, (s, stmts, path) in flat.comb.items():
            self.deps.sigs[sid] = s
            for i in range(len(s)):
                self.edge.setdefault((sid, i), set())
            self.scan(stmts, sid, frozenset())
        self.n_bits = len(self.edge)

    def scan(self, stmts, sid, cond):
        d = self.deps
        for st in stmts:
            if isinstance(st, tuple):
                c = cond | d.all(A.Value.cast(st[1].test))
                for p, body in st[2]:
                    self.scan(body, sid, c)
                continue
            lhs, rhs = A.Value.cast(st.lhs), A.Value.cast(st.rhs)
            rb = d.ext(d.bits(rhs), rhs, len(lhs))
            try:
                tgt = ir.expand(lhs)
            except Exception:
                tgt = None
            if tgt is None:
                extra = cond.union(*rb) | self.indices(lhs)
                for s in lhs._lhs_signals():
                    if id(s) == sid:
                        for i in range(len(s)):
                            self.add(sid, i, extra, st)
                continue
            for (s, i), b in zip(tgt, rb):
                if id(s) == sid:
                    self.add(sid, i, b | cond, st)

    def indices(self, lhs):
        if isinstance(lhs, A.Part):
            return self.deps.all(lhs.offset) | self.indices(lhs.value)
        if isinstance(lhs, A.ArrayProxy):
            return self.deps.all(A.Value.cast(lhs.index)).union(*[self.indices(e) for e in lhs._iter_as_values()])
        if isinstance(lhs, A.Slice):
            return self.indices(lhs.value)
        if isinstance(lhs, A.Cat):
            return frozenset().union(*[self.indices(e) for e in lhs.parts])
        return frozenset()

    def add(self, sid, i, b, st):
        self.edge[(sid, i)] |= b
        self.where.setdefault((sid, i), getattr(st, "src_loc", None))

    def name(self, bit):
        s = self.deps.sigs[bit[0]]
        return s.name if len(s) == 1 else "%s[%d]" % (s.name, bit[1])

    def loops(self):
        """strongly connected components with a cycle (iterative Tarjan)"""
        index, low, stack, on, out, n = {}, {}, [], set(), [], 0
        for root in self.edge:
            if root in index:
                continue
            work = [(root, iter(self.edge[root]))]
            index[root] = low[root] = n
            n += 1
            stack.append(root)
            on.add(root)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in self.edge:
                        continue
                    if w not in index:
                        index[w] = low[w] = n
                        n += 1
                        stack.append(w)
                        on.add(w)
                        work.append((w, iter(self.edge[w])))
                        break
                    if w in on:
                        low[v] = min(low[v], index[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == index[v]:
                        comp = []
                        while True:
                            w = stack.pop()
                            on.discard(w)
                            comp.append(w)
                            if w == v:
                                break
                        if len(comp) > 1 or v in self.edge[v]:
                            out.append(comp)
        return out

    def reach(self, bits):
        """all bits the given bits depend on combinationally, with the predecessor on a path"""
        pred = {b: None for b in bits}
        work = list(bits)
        while work:
            b = work.pop()
            for c in self.edge.get(b, ()):
                if c not in pred:
                    pred[c] = b
                    work.append(c)
        return pred

    def path(self, pred, b):
        out = []
        while b is not None:
            out.append("%s%s" % (self.name(b), " (%s)" % ir.loc_str(self.where[b]) if self.where.get(b) else ""))
            b = pred[b]
        return out[::-1]
