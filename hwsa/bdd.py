"""Decision-diagram domain for single bits.

A bit is abstracted by a canonical boolean function of *provenance tokens* (which input event, or which
unknown part of the current state, the bit stems from).  0 and 1 are the constants.  Canonicity makes
`is the same value`, `is a copy of`, `does not depend on` plain identity questions.
"""


class BDD:
    def __init__(self):
        self.var_of = [-1, -1]       # level of a node (constants: -1)
        self.lo_of = [0, 1]
        self.hi_of = [0, 1]
        self.uniq = {}
        self.memo = {}
        self.supp_memo = {0: frozenset(), 1: frozenset()}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.var_of)
            self.var_of.append(v)
            self.lo_of.append(lo)
            self.hi_of.append(hi)
            self.uniq[k] = n
        return n

    def var(self, v):
        return self.mk(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        if f == g:
            g = 1
        if f == h:
            h = 0
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        V = self.var_of
        vf, vg, vh = V[f], V[g], V[h]
        v = vf
        if vg >= 0 and vg < v:
            v = vg
        if vh >= 0 and vh < v:
            v = vh
        L, H = self.lo_of, self.hi_of
        f0, f1 = (L[f], H[f]) if vf == v else (f, f)
        g0, g1 = (L[g], H[g]) if vg == v else (g, g)
        h0, h1 = (L[h], H[h]) if vh == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def NOT(self, a):
        if a == 0:
            return 1
        if a == 1:
            return 0
        return self.ite(a, 0, 1)

    def AND(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1 or a == b:
            return a
        if a > b:
            a, b = b, a
        return self.ite(a, b, 0)

    def OR(self, a, b):
        if a == 1 or b == 1:
            return 1
        if a == 0:
            return b
        if b == 0 or a == b:
            return a
        if a > b:
            a, b = b, a
        return self.ite(a, 1, b)

    def XOR(self, a, b):
        if a == 0:
            return b
        if b == 0:
            return a
        if a == b:
            return 0
        if a == 1:
            return self.NOT(b)
        if b == 1:
            return self.NOT(a)
        if a > b:
            a, b = b, a
        return self.ite(a, self.NOT(b), b)

    def support(self, n):
        s = self.supp_memo.get(n)
        if s is None:
            s = self.support(self.lo_of[n]) | self.support(self.hi_of[n]) | {self.var_of[n]}
            self.supp_memo[n] = s
        return s

    def top(self, n):
        return self.var_of[n]

    def restrict(self, n, v, val, memo):
        if n < 2 or self.var_of[n] > v:
            return n
        r = memo.get(n)
        if r is not None:
            return r
        if self.var_of[n] == v:
            r = self.hi_of[n] if val else self.lo_of[n]
        else:
            r = self.mk(self.var_of[n], self.restrict(self.lo_of[n], v, val, memo),
                        self.restrict(self.hi_of[n], v, val, memo))
        memo[n] = r
        return r

    def rename(self, n, mapping, memo):
        """mapping: level -> node."""
        if n < 2:
            return n
        r = memo.get(n)
        if r is None:
            r = self.ite(mapping(self.var_of[n]), self.rename(self.hi_of[n], mapping, memo),
                         self.rename(self.lo_of[n], mapping, memo))
            memo[n] = r
        return r

    def one_sat(self, n):
        """some partial assignment making n true"""
        out = {}
        assert n != 0
        while n != 1:
            if self.lo_of[n] != 0:
                out[self.var_of[n]] = 0
                n = self.lo_of[n]
            else:
                out[self.var_of[n]] = 1
                n = self.hi_of[n]
        return out
