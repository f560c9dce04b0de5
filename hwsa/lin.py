"""Word-level abstract interpretation of data paths: polynomial forms over input tokens with rounding error intervals.

Every data word is described by an integer-coefficient polynomial over tokens (values the environment delivered, or
arbitrary register contents), scaled by a power of two, plus an error interval that accounts for discarded low bits,
and is known exactly or modulo a power of two (when a result may not fit its signal).  Control (conditions, indices,
states) is concrete; a condition that depends on data is reported.  Locations are explored to a fixpoint up to renaming of
tokens.  Nothing is simulated: one location stands for all values of its tokens.
"""
from amaranth.hdl import ast as A
from . import ir
from .flow import Violation


class Control(Exception):
    def __init__(self, what, loc):
        super().__init__(what)
        self.what, self.loc = what, loc


class More(Exception):
    def __init__(self, n):
        self.n = n


class Prune(Exception):
    pass


class L:
    """(sum of c * monomial + k + [elo, ehi]) / 2**s, an integer; exact or modulo 2**mod"""
    __slots__ = ("c", "k", "s", "elo", "ehi", "mod", "rng", "_r")

    def __init__(self, c, k=0, s=0, elo=0, ehi=0, mod=None, rng=None):
        while s and not (k | elo | ehi) & 1 and not any(x & 1 for x in c.values()):
            c = {m: x >> 1 for m, x in c.items()}
            k, elo, ehi, s = k >> 1, elo >> 1, ehi >> 1, s - 1
        self.c, self.k, self.s, self.elo, self.ehi, self.mod, self.rng = c, k, s, elo, ehi, mod, rng
        self._r = None

    def form_range(self):
        """range of the polynomial alone, scaled by 2**s"""
        lo = hi = self.k
        for m, c in self.c.items():
            a, b = 1, 1
            for t in m:
                p = (a * t[1], a * t[2], b * t[1], b * t[2])
                a, b = min(p), max(p)
            lo += min(c * a, c * b)
            hi += max(c * a, c * b)
        return lo, hi

    def range(self):
        if self.mod is not None:
            return self.rng
        if self._r is None:
            lo, hi = self.form_range()
            self._r = (-((-(lo + self.elo)) >> self.s), (hi + self.ehi) >> self.s)
        return self._r

    def key(self):
        return (tuple(sorted(self.c.items())), self.k, self.s, self.elo, self.ehi, self.mod, self.rng)

    def __repr__(self):
        ts = ["%s*%s" % (c if not self.s else "%.4g" % (c / 2 ** self.s), "*".join("v%d" % t[0] for t in m)) for m, c in sorted(self.c.items())]
        return "%s%s%s" % (" + ".join(ts[:8]) + (" ..." if len(ts) > 8 else ""), " + %.4g" % (self.k / 2 ** self.s) if self.k or not ts else "",
                           " (mod 2^%d)" % self.mod if self.mod is not None else "")


def dot(coef, xs, shift=0):
    """sum of coef * xs / 2**shift, exactly"""
    v = 0
    for c, x in zip(coef, xs):
        v = add(v, mul(c, x))
    v = lift(v)
    return L(v.c, v.k, v.s + shift, v.elo, v.ehi, v.mod, v.rng)


def token(n, lo, hi):
    return L({((n, lo, hi),): 1})


def lift(a):
    return a if isinstance(a, L) else L({}, a)


def lower(a):
    """constant forms are ints"""
    if isinstance(a, L) and not a.c and not a.elo and not a.ehi and not a.s and (a.mod is None):
        return a.k
    return a


def _mod(a, b):
    return b if a is None else a if b is None else min(a, b)


def add(a, b, sign=1):
    if a is None or b is None:
        return None
    if type(a) is int and type(b) is int:
        return a + sign * b
    a, b = lift(a), lift(b)
    s = max(a.s, b.s)
    fa, fb = 1 << (s - a.s), sign << (s - b.s) if sign > 0 else -(1 << (s - b.s))
    c = {m: x * fa for m, x in a.c.items()}
    for m, x in b.c.items():
        y = c.get(m, 0) + x * fb
        if y:
            c[m] = y
        else:
            c.pop(m, None)
    e = (b.elo * fb, b.ehi * fb)
    mod = _mod(a.mod, b.mod)
    rng = None
    if mod is not None:
        ra, rb = a.range(), b.range()
        rng = (ra[0] + rb[0], ra[1] + rb[1]) if sign > 0 else (ra[0] - rb[1], ra[1] - rb[0])
    return lower(L(c, a.k * fa + b.k * fb, s, a.elo * fa + min(e), a.ehi * fa + max(e), mod, rng))


def mul(a, b):
    if a is None or b is None:
        return 0 if 0 in (a, b) else None
    if type(a) is int and type(b) is int:
        return a * b
    a, b = lift(a), lift(b)
    c = {}
    for m1, x in list(a.c.items()) + ([((), a.k)] if a.k else []):
        for m2, y in list(b.c.items()) + ([((), b.k)] if b.k else []):
            m = tuple(sorted(m1 + m2))
            z = c.get(m, 0) + x * y
            if z:
                c[m] = z
            else:
                c.pop(m, None)
    k = c.pop((), 0)
    elo = ehi = 0
    if a.elo or a.ehi or b.elo or b.ehi:
        fa, fb = a.form_range(), b.form_range()
        iv = lambda p, q: (lambda v: (min(v), max(v)))([x * y for x in p for y in q])
        for p, q in ((fa, (b.elo, b.ehi)), (fb, (a.elo, a.ehi)), ((a.elo, a.ehi), (b.elo, b.ehi))):
            lo, hi = iv(p, q)
            elo += lo
            ehi += hi
    mod, rng = _mod(a.mod, b.mod), None
    if mod is not None:
        v = [x * y for x in a.range() for y in b.range()]
        rng = (min(v), max(v))
    return lower(L(c, k, a.s + b.s, elo, ehi, mod, rng))


def shr(a, n):
    """floor(a / 2**n)"""
    if a is None or n == 0:
        return a
    if type(a) is int:
        return a >> n
    mask = (1 << (n + a.s)) - 1
    r = a.range()
    mod = None if a.mod is None else a.mod - n
    rng = None
    if mod is not None:
        if mod <= 0:
            return None
        rng = (r[0] >> n, r[1] >> n)
    if a.mod is None and r[0] >> n == r[1] >> n:
        return r[0] >> n
    if not a.elo and not a.ehi and not a.s and not any(x & mask for x in a.c.values()):
        return lower(L({m: x >> n for m, x in a.c.items()}, a.k >> n, 0, 0, 0, mod, rng))
    return lower(L(a.c, a.k, a.s + n, a.elo - ((1 << (a.s + n)) - (1 << a.s)), a.ehi, mod, rng))


def wrap(a, w, signed):
    if a is None:
        return None
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed and w else (0, (1 << w) - 1)
    if type(a) is int:
        a &= (1 << w) - 1
        return a - (1 << w) if signed and w and a >> (w - 1) else a
    r = a.range()
    if lo <= r[0] and r[1] <= hi:
        return a
    k = (id(a), w, signed)
    x = _WRAP.get(k)
    if x is None:
        x = _WRAP[k] = (L(a.c, a.k, a.s, a.elo, a.ehi, _mod(a.mod, w), (lo, hi)), a)
    return x[0]


_WRAP = {}      # one object per wrapped value and cycle: identical values stay recognisable


# ---------------------------------------------------------------------------------------------- bit vectors as fields

def bits(v, w):
    if type(v) is int:
        v &= (1 << w) - 1
    return ((v, w),) if w else ()


def width(b):
    return sum(w for _, w in b)


def value(b, signed):
    """the integer a bit vector denotes"""
    if not b:
        return 0
    if len(b) == 1:
        return wrap(b[0][0], b[0][1], signed)
    if all(type(v) is int for v, _ in b):
        x = off = 0
        for v, w in b:
            x |= (v & ((1 << w) - 1)) << off
            off += w
        return wrap(x, off, signed)
    x, off = 0, 0
    for i, (v, w) in enumerate(b):
        x = add(x, mul(wrap(v, w, signed and i == len(b) - 1), 1 << off))
        off += w
    return x


def cut(b, lo, hi):
    out, off = [], 0
    for v, w in b:
        p, q = max(lo - off, 0), min(hi - off, w)
        if p < q:
            out.extend(bits(shr(v, p), q - p))
        off += w
    return tuple(out)


def fuse(b):
    """merge concrete fields"""
    if len(b) < 2:
        return b
    out = []
    for v, w in b:
        if out and type(v) is int and type(out[-1][0]) is int:
            out[-1] = (out[-1][0] | v << out[-1][1], out[-1][1] + w)
        else:
            out.append((v, w))
    return tuple(out)


def splice(old, lo, hi, new):
    n = width(old)
    return fuse(cut(old, 0, lo) + new + cut(old, hi, n))


class Machine:
    """word-level evaluation of the IR"""

    def __init__(self, flat):
        self.flat = flat
        self.all_regs = {id(s): s for domain, sigs, stmts, path in flat.groups for s in sigs}
        self.track([])

    def track(self, roots):
        """follow only the registers that can influence `roots`; reading another one raises Untracked"""
        live = {id(s) for s in self.flat.cone(roots)}
        self.regs = {i: s for i, s in self.all_regs.items() if i in live}
        self.groups = []
        for domain, sigs, stmts, path in self.flat.groups:
            mine = {id(s) for s in sigs} & live
            if mine:
                self.groups.append(stmts if len(mine) == len(sigs) else ir.slice_stmts(stmts, mine))

    def reset(self):
        return {i: bits(s.reset, len(s)) for i, s in self.regs.items()}


class Cycle:
    def __init__(self, mach, regs):
        self.m, self.regs = mach, regs
        self.v = {}
        self.busy = set()

    def get(self, s):
        i = id(s)
        r = self.v.get(i)
        if r is not None:
            return r
        if i in self.regs:
            r = self.regs[i]
        elif i in self.m.flat.comb:
            if i in self.busy:
                raise Control("combinational loop", s.src_loc)
            self.busy.add(i)
            nx = {i: bits(s.reset, len(s))}
            self.block(self.m.flat.comb[i][1], nx)
            r = nx[i]
            self.busy.discard(i)
        else:
            if i in self.m.all_regs:
                raise ir.Untracked(s)
            r = bits(s.reset, len(s))
        self.v[i] = r
        return r

    def next(self):
        nx = dict(self.regs)
        for stmts in self.m.groups:
            self.block(stmts, nx)
        return nx

    def block(self, stmts, nx):
        for st in stmts:
            if isinstance(st, tuple):
                _, sw, cases = st
                x = value(self.ev(sw.test), False)
                w = len(sw.test)
                for pats, body in cases:
                    if pats == () or self.match(x, w, pats, sw):
                        self.block(body, nx)
                        break
            else:
                self.store(st.lhs, self.ext(st.rhs, len(st.lhs)), nx, st)

    def match(self, x, w, pats, sw):
        for p in pats:
            if set(p) == {"-"}:
                return True
            if type(x) is not int:
                raise Control("a condition depends on data", sw.src_loc)
            if all(c == "-" or int(c) == x >> (len(p) - 1 - i) & 1 for i, c in enumerate(p)):
                return True
        return False

    def ext(self, e, w):
        b = self.ev(e)
        n = width(b)
        if n == w:
            return b
        if n > w:
            return cut(b, 0, w)
        if e.shape().signed:
            return bits(value(b, True), w)
        return fuse(b + ((0, w - n),))

    def index(self, e, what):
        x = value(self.ev(e), e.shape().signed)
        if type(x) is not int:
            raise Control("%s depends on data" % what, getattr(e, "src_loc", None))
        return x

    def store(self, lhs, val, nx, st):
        """assign to the bits of lhs"""
        if isinstance(lhs, A.Signal):
            if id(lhs) in nx:
                nx[id(lhs)] = val
        elif isinstance(lhs, A.Cat):
            off = 0
            for p in lhs.parts:
                self.store(p, cut(val, off, off + len(p)), nx, st)
                off += len(p)
        elif isinstance(lhs, A.Operator) and lhs.operator in ("u", "s"):
            self.store(lhs.operands[0], val, nx, st)
        elif isinstance(lhs, A.ArrayProxy):
            elems = list(lhs._iter_as_values())
            i = self.index(A.Value.cast(lhs.index), "a target index")
            el = elems[min(i, len(elems) - 1)]
            n = len(el)
            self.store(el, cut(val, 0, n) if width(val) >= n else self.pad(val, n, st), nx, st)
        elif isinstance(lhs, (A.Slice, A.Part)):
            if isinstance(lhs, A.Slice):
                lo, hi = lhs.start, lhs.stop
            else:
                lo = self.index(lhs.offset, "a target index") * lhs.stride
                hi = min(lo + lhs.width, len(lhs.value))
            if hi <= lo:
                return
            base = lhs.value
            old = self.current(base, nx)
            self.store(base, splice(old, lo, hi, cut(val, 0, hi - lo)), nx, st)
        else:
            raise ir.AnalysisError("assignment to %r" % (lhs,))

    def pad(self, val, n, st):
        return fuse(val + ((0, n - width(val)),))

    def current(self, e, nx):
        """value of a target expression as assigned so far"""
        if isinstance(e, A.Signal):
            return nx[id(e)] if id(e) in nx else bits(None, len(e))
        if isinstance(e, A.Cat):
            return fuse(tuple(f for p in e.parts for f in self.current(p, nx)))
        if isinstance(e, A.Slice):
            return cut(self.current(e.value, nx), e.start, e.stop)
        if isinstance(e, A.Operator) and e.operator in ("u", "s"):
            return self.current(e.operands[0], nx)
        if isinstance(e, A.ArrayProxy):
            elems = list(e._iter_as_values())
            i = self.index(A.Value.cast(e.index), "a target index")
            return self.current(elems[min(i, len(elems) - 1)], nx)
        raise ir.AnalysisError("assignment to %r" % (e,))

    def ev(self, e):
        """bit vector of an expression"""
        if isinstance(e, A.Signal):
            return self.get(e)
        if isinstance(e, A.Const):
            return bits(e.value, len(e))
        if isinstance(e, A.Slice):
            return cut(self.ev(e.value), e.start, e.stop)
        if isinstance(e, A.Cat):
            return fuse(tuple(f for p in e.parts for f in self.ev(p)))
        if isinstance(e, A.Part):
            b = self.ev(e.value)
            n = width(b)
            lo = self.index(e.offset, "a bit index") * e.stride
            hi = lo + e.width
            out = cut(b, min(lo, n), min(hi, n))
            return fuse(out + bits(0, e.width - width(out)))
        if isinstance(e, A.ArrayProxy):
            elems = list(e._iter_as_values())
            if not elems:
                return bits(0, len(e))
            i = self.index(A.Value.cast(e.index), "an array index")
            return self.ext(A.Value.cast(elems[min(i, len(elems) - 1)]), len(e))
        if isinstance(e, A.Operator):
            return self.op(e)
        if isinstance(e, (A.ClockSignal, A.ResetSignal)):
            return bits(0, 1)
        if hasattr(e, "_lazy_lower"):
            return self.ev(e._lazy_lower())
        if hasattr(e, "as_value"):
            return self.ev(e.as_value())
        raise ir.AnalysisError("expression %r" % (e,))

    def iv(self, e):
        return value(self.ev(e), e.shape().signed)

    def op(self, e):
        o, a = e.operator, e.operands
        w = len(e)
        if o in ("u", "s"):
            return self.ev(a[0])
        if o == "m":
            c = value(self.ev(a[0]), False)
            if type(c) is not int:
                rng = c.range() if isinstance(c, L) and c.mod is None else (0, 1)
                if rng[0] <= 0 <= rng[1]:
                    raise Control("a multiplexer depends on data", e.src_loc)
                c = 1
            return self.ext(a[1] if c else a[2], w)
        if o == "b" or (o in ("r|",)):
            x = value(self.ev(a[0]), False)
            if isinstance(x, L):
                lo, hi = x.range()
                return bits(None, 1) if lo <= 0 <= hi else bits(1, 1)
            return bits(None if x is None else int(bool(x)), 1)
        if o in (">>", "<<"):
            b, n = self.ev(a[0]), value(self.ev(a[1]), a[1].shape().signed)
            if len(b) > 1 and type(n) is int and n >= 0:
                # fields are moved, not mixed
                sh = width(b)
                if o == "<<":
                    b = fuse(bits(0, n) + b)
                    if a[0].shape().signed and width(b) < w:
                        return bits(value(b, True), w)
                elif n < sh:
                    b = cut(b, n, sh)
                    if a[0].shape().signed and width(b) < w:
                        return bits(value(b, True), w)
                else:
                    b = bits(0, 1) if not a[0].shape().signed else bits(None, 1)
                return cut(b, 0, w) if width(b) >= w else fuse(b + bits(0, w - width(b)))
        v = [self.iv(x) for x in a]
        if any(x is None for x in v):
            return bits(0 if o == "*" and 0 in v else None, w)
        if o == "+":
            return bits(add(v[0], v[1]) if len(v) == 2 else v[0], w)
        if o == "-":
            return bits(add(v[0], v[1], -1) if len(v) == 2 else add(0, v[0], -1), w)
        if o == "~":
            return bits(add(-1, v[0], -1), w)
        if o == "*":
            return bits(mul(v[0], v[1]), w)
        if o == ">>":
            return bits(shr(v[0], v[1]) if type(v[1]) is int else None, w)
        if o == "<<":
            return bits(mul(v[0], 1 << v[1]) if type(v[1]) is int else None, w)
        if o in ("==", "!=", "<", "<=", ">", ">="):
            d = add(v[0], v[1], -1)
            lo, hi = (d, d) if type(d) is int else d.range()
            if type(d) is not int and d.mod is not None:
                ra, rb = [(x, x) if type(x) is int else x.range() for x in v]
                lo, hi = ra[0] - rb[1], ra[1] - rb[0]
            r = {"==": (0 if lo > 0 or hi < 0 else 1 if lo == hi == 0 else None), "<": (1 if hi < 0 else 0 if lo >= 0 else None),
                 "<=": (1 if hi <= 0 else 0 if lo > 0 else None)}
            r["!="] = None if r["=="] is None else 1 - r["=="]
            r[">="] = None if r["<"] is None else 1 - r["<"]
            r[">"] = None if r["<="] is None else 1 - r["<="]
            return bits(r[o], 1)
        if all(type(x) is int for x in v):
            if o == "&":
                return bits(v[0] & v[1], w)
            if o == "|":
                return bits(v[0] | v[1], w)
            if o == "^":
                return bits(v[0] ^ v[1], w)
            if o == "r&":
                return bits(int(v[0] & ((1 << len(a[0])) - 1) == (1 << len(a[0])) - 1), 1)
            if o == "r^":
                return bits(bin(v[0] & ((1 << len(a[0])) - 1)).count("1") & 1, 1)
            if o == "//":
                return bits(v[0] // v[1] if v[1] else 0, w)
            if o == "%":
                return bits(v[0] % v[1] if v[1] else v[0], w)
        if o == "&":
            for x, y in ((0, 1), (1, 0)):
                if type(v[x]) is int:
                    if v[x] == 0:
                        return bits(0, w)
                    if v[x] == -1:
                        return bits(v[y], w)
                    if v[x] > 0 and v[x] & (v[x] + 1) == 0:
                        n = v[x].bit_length()
                        return fuse(cut(bits(v[y], w), 0, min(n, w)) + bits(0, max(0, w - n)))
        if o in ("|", "^"):
            for x, y in ((0, 1), (1, 0)):
                if v[x] == 0:
                    return bits(v[y], w)
        if o == "//" and type(v[1]) is int and v[1] > 0 and v[1] & (v[1] - 1) == 0:
            return bits(shr(v[0], v[1].bit_length() - 1), w)
        return bits(None, w)


# ---------------------------------------------------------------------------------------------- exploration

class Tick:
    def __init__(self, an, regs, decisions):
        _WRAP.clear()
        self.an, self.cyc = an, Cycle(an.mach, regs)
        self.dec, self.pos = decisions, 0
        self.nt = an.n_tokens(regs)
        self.notes = []
        self.named = {}
        self.restart = None

    def choose(self, n=2):
        if self.pos == len(self.dec):
            raise More(n)
        self.pos += 1
        return self.dec[self.pos - 1]

    def token(self, w=None, signed=True, lo=None, hi=None):
        if lo is None:
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        self.nt += 1
        return token(self.nt, lo, hi)

    def set(self, sig, v):
        sig = A.Value.cast(sig)
        if id(sig) in self.cyc.v:
            raise ir.AnalysisError("input %s is driven after it was read" % sig.name)
        if id(sig) in self.an.mach.flat.comb or id(sig) in self.an.mach.all_regs:
            raise ir.AnalysisError("`%s` is not an input" % sig.name)
        self.cyc.v[id(sig)] = bits(v, len(sig))
        self.notes.append("%s=%s" % (sig.name, v))

    def val(self, e):
        e = A.Value.cast(e)
        return self.cyc.iv(e)

    def int(self, e, rule="control"):
        x = self.val(e)
        if type(x) is not int:
            raise Control("`%s` depends on data" % getattr(e, "name", e), getattr(e, "src_loc", None))
        return x

    def require(self, cond, rule, msg, at=None):
        self.an.count(rule)
        if not cond:
            self.an.violate(rule, msg, at, self)
            raise Prune()
        return cond

    def off(self, sig, want, tol, mod=None):
        """None if sig == want within tol modulo 2**mod (default: the width of sig) for all token values, or the reason"""
        sig = A.Value.cast(sig)
        v = self.val(sig)
        mod = len(sig) if mod is None else mod
        if v is None:
            return "nothing is known about its value"
        l = lift(v)
        if l.mod is not None and l.mod < mod:
            return "only its low %d bits are right, an intermediate result may overflow" % l.mod
        d = lift(add(v, want, -1))
        lo, hi = d.form_range()
        lo, hi = lo + d.elo, hi + d.ehi
        one = 1 << d.s
        c = ((lo + hi) // 2 + (one << mod) // 2) // (one << mod) * (one << mod)
        lo, hi = lo - c, hi - c
        low, high = tol if isinstance(tol, tuple) else (-tol, tol)
        if lo < low * one or hi > high * one:
            return "it may be off by %.4g..%.4g (tolerance %s); %s" % (lo / one, hi / one, tol, self.unlike(lift(v), lift(want)))

    def near(self, sig, want, tol, rule, msg, mod=None):
        """value of sig == want within tol, modulo 2**mod (default: the width of sig)"""
        self.an.count(rule)
        why = self.off(sig, want, tol, mod)
        if why:
            self.an.violate(rule, "%s: %s" % (msg, why), sig, self)
            raise Prune()

    def name(self, sig, lo, hi):
        """introduce a token for the value of sig, wherever this very value is used from now on"""
        sig = A.Value.cast(sig)
        x = self.token(lo=lo, hi=hi)
        for v in [self.val(sig)] + [v for v, w in self.cyc.ev(sig) if w == len(sig)]:
            if isinstance(v, L):
                self.named[id(v)] = (v, x)
        self.cyc.v[id(sig)] = bits(x, len(sig))
        return x

    def unlike(self, v, w):
        """the coefficients that differ most"""
        d = {}
        for m in set(v.c) | set(w.c):
            a, b = v.c.get(m, 0) / 2 ** v.s, w.c.get(m, 0) / 2 ** w.s
            if a != b:
                d[m] = (abs(a - b), a, b)
        if not d:
            return "found %r, required %r" % (v, w)
        ms = sorted(d, key=lambda m: -d[m][0])[:3]
        return "coefficients " + ", ".join("of %s: %.5g, required %.5g" % ("*".join("v%d" % t[0] for t in m), d[m][1], d[m][2]) for m in ms)

    def checkpoint(self, obs):
        """after this cycle, also continue with obs and arbitrary contents of all registers that hold data"""
        self.restart = (obs,)

    def note(self, s):
        self.notes.append(s)

    def stop(self):
        raise Prune()


class Linear:
    """explore all control locations; automaton: init(an) -> obs, step(obs, tick) -> obs"""

    def __init__(self, dut, automaton, config="", start=None, limit=200000):
        self.flat = dut if isinstance(dut, ir.Flat) else ir.Flat(dut)
        self.mach = Machine(self.flat)
        self.aut, self.config, self.start, self.limit = automaton, config, start, limit
        self.obl, self.violations, self.parent = {}, {}, {}
        self.n_loc = self.n_edges = 0

    def count(self, rule, n=1):
        self.obl[rule] = self.obl.get(rule, 0) + n

    def n_tokens(self, regs):
        return self.base

    def violate(self, rule, msg, at, tick):
        loc = getattr(at, "src_loc", None)
        name = getattr(at, "name", "")
        k = (rule, name)
        if k in self.violations:
            return
        tr, key = [], self.cur
        while key is not None and len(tr) < 400:
            key, step = self.parent[key]
            if step:
                tr.append(step)
        tr = tr[::-1] + [", ".join(tick.notes)]
        self.violations[k] = Violation(rule, msg, "%s (%s)" % (ir.loc_str(loc), name) if name else ir.loc_str(loc), tr[-60:], self.config)

    def canon(self, regs, obs):
        """rename tokens in order of age"""
        seen = set()

        def scan(x):
            if isinstance(x, L):
                for m in x.c:
                    seen.update(m)
            elif isinstance(x, tuple):
                for y in x:
                    scan(y)
        for i in self.order:
            for v, w in regs[i]:
                if isinstance(v, L):
                    scan(v)
        scan(obs)
        new = {t: (i + 1, t[1], t[2]) for i, t in enumerate(sorted(seen))}
        same = all(k == v for k, v in new.items())
        memo = {}

        def ren(x):
            if isinstance(x, L):
                if same:
                    return x
                r = memo.get(id(x))
                if r is None:
                    r = memo[id(x)] = L({tuple(sorted(new[t] for t in m)): c for m, c in x.c.items()}, x.k, x.s, x.elo, x.ehi, x.mod, x.rng)
                return r
            if isinstance(x, tuple):
                return tuple(ren(y) for y in x)
            return x
        regs = {i: tuple((ren(v), w) for v, w in b) for i, b in regs.items()}
        obs = ren(obs)
        keys = {}

        def key(x):
            if isinstance(x, L):
                k = keys.get(id(x))
                if k is None:
                    k = keys[id(x)] = ("L", self.intern.setdefault(x.key(), len(self.intern)))
                return k
            if isinstance(x, tuple):
                return tuple(key(y) for y in x)
            return x
        return regs, obs, (tuple(key(regs[i]) for i in self.order), key(obs)), len(new)

    def run(self):
        """registers that hold data at a checkpoint are assumed to hold anything there, all others are followed exactly"""
        self.havoc = set()
        roots = []
        while True:
            n = len(self.havoc)
            self.obl, self.violations = {}, {}
            try:
                self.explore()
            except ir.Untracked as u:       # the automaton reads one more register: follow its cone, start again
                roots.append(u.args[0])
                self.mach.track(roots)
                self.havoc = set()
                continue
            if len(self.havoc) == n:
                return self

    def forget(self, regs):
        out = {}
        for i in self.order:
            if any(type(v) is not int for v, w in regs[i]):
                self.havoc.add(i)
        k = 0
        for i in self.order:
            out[i] = regs[i]
            if i in self.havoc:
                s = self.mach.regs[i]
                lo, hi = (-(1 << (len(s) - 1)), (1 << (len(s) - 1)) - 1) if s.shape().signed else (0, (1 << len(s)) - 1)
                k += 1
                out[i] = bits(token(k, lo, hi), len(s))
        return out

    def explore(self):
        self.order = sorted(self.mach.regs, key=lambda i: (self.mach.regs[i].name, list(self.mach.regs).index(i)))
        todo = []
        self.intern = {}
        self.seen = set()
        self.parent = {}
        for regs, obs in (self.start(self) if self.start else [(self.mach.reset(), self.aut.init(self))]):
            self.push(todo, regs, obs, None, "")
        while todo:
            regs, obs, key, n = todo.pop()
            self.cur = key
            stack = [()]
            while stack:
                dec = stack.pop()
                self.base = n
                t = Tick(self, regs, list(dec))
                try:
                    new_obs = self.aut.step(obs, t)
                    nx = t.cyc.next()
                    if t.named:
                        nx = {i: tuple((t.named[id(v)][1] if id(v) in t.named else v, w) for v, w in b) for i, b in nx.items()}
                except More as e:
                    stack.extend(dec + (i,) for i in range(e.n))
                    continue
                except Prune:
                    self.n_edges += 1
                    continue
                except Control as e:
                    self.count("control")
                    self.violate("control", e.what, None if not e.loc else type("At", (), dict(src_loc=e.loc, name="")), t)
                    continue
                self.n_edges += 1
                self.push(todo, nx, new_obs, key, ", ".join(t.notes))
                if t.restart:
                    h = len(self.havoc)
                    self.push(todo, self.forget(nx), t.restart[0], key, ", ".join(t.notes))
                    if len(self.havoc) > h:
                        return
            if len(self.seen) > self.limit:
                raise ir.AnalysisError("more than %d locations" % self.limit)
            if len(self.violations) > 8:
                break
        self.n_loc = len(self.seen)

    def push(self, todo, regs, obs, parent, step):
        regs, obs, key, n = self.canon(regs, obs)
        if key in self.seen:
            return
        h = hash(key)
        self.seen.add(key)
        self.parent[key] = (parent, step)
        todo.append((regs, obs, key, n))


def lin_task(r, dut_fn, spec_fn, config="", must=()):
    """spec_fn(dut) -> (automaton, options)"""
    from .check import build
    dut = build(dut_fn)
    aut, opt = spec_fn(dut)
    must = list(must) + list(opt.pop("must", []))
    an = Linear(dut, aut, config=config or r.name, **opt)
    an.run()
    for k, n in an.obl.items():
        r.ok(k, n)
    for v in an.violations.values():
        r.viol.append(dict(rule=v.rule, msg=v.msg, where=v.where, trace=v.trace, config=v.config))
    if not an.violations:
        for rule in must:
            if not an.obl.get(rule):
                r.bad("reach:" + rule, "no reachable control location ever instantiates rule `%s`" % rule, type(dut).__name__, config=an.config)
    st = r.stats
    st["locations"] = st.get("locations", 0) + an.n_loc
    st["edges"] = st.get("edges", 0) + an.n_edges
    st["registers"] = st.get("registers", 0) + len(an.mach.regs)
    st["statement_groups"] = st.get("statement_groups", 0) + len(an.flat.comb) + len(an.flat.groups)
    st["configurations"] = st.get("configurations", 0) + 1
    for g in an.flat.groups:
        r.units.append("%s/%s" % (type(dut).__name__, ".".join(g[3])))
    return an
