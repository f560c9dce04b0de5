"""Front end: amlib component -> flat hardware IR -> compiled transfer functions.

The component is put through Amaranth's own compiler front end (elaboration and domain lowering).  What is
analysed is the resulting IR: assignments, switches, drivers per clock domain, memories.  Nothing is simulated;
the transfer functions below work on abstract values (see bdd.py).
"""
import os
import sys
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

from amaranth.hdl import ast as A                      # noqa: E402
from amaranth.hdl.ir import Fragment, Instance         # noqa: E402
from amaranth.hdl.cd import ClockDomain                # noqa: E402
from amaranth.hdl import xfrm                          # noqa: E402
from amaranth.hdl.ir import DriverConflict             # noqa: E402

from .bdd import BDD                                   # noqa: E402

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """the analysis itself cannot proceed (never a verdict)"""


class Broken(Exception):
    """the component is structurally broken (cannot be elaborated, comb. loop, ...): a verdict"""

    def __init__(self, msg, loc=None):
        super().__init__(msg)
        self.loc = loc


class Untracked(Exception):
    """a register outside the tracked cone of influence is read"""


def loc_str(src_loc):
    if not src_loc:
        return "?"
    f, l = src_loc[0], src_loc[1]
    return "%s:%s" % (os.path.relpath(f, "/repo") if f.startswith("/repo") else f, l)


def expand(value):
    """Signal/Record/Cat/Slice -> list of (signal, bit)"""
    v = A.Value.cast(value)
    if isinstance(v, A.Signal):
        return [(v, i) for i in range(len(v))]
    if isinstance(v, A.Cat):
        return [b for p in v.parts for b in expand(p)]
    if isinstance(v, A.Slice):
        return expand(v.value)[v.start:v.stop]
    if isinstance(v, A.Operator) and v.operator in ("u", "s"):
        return expand(v.operands[0])
    raise AnalysisError("not a plain signal: %r" % (v,))


class Flat:
    """flattened IR"""

    def __init__(self, dut, platform=None, extra_domains=()):
        with warnings.catch_warnings(record=True) as wlist:
            warnings.simplefilter("always")
            frag = Fragment.get(dut, platform)
            frag = xfrm.SampleLowerer()(frag)
            created = []

            def missing(name):
                cd = ClockDomain(name)
                created.append(cd)
                return cd
            frag._propagate_domains(missing)
            frag = xfrm.DomainLowerer()(frag)
        self.conflicts = [str(w.message) for w in wlist if isinstance(w.message, DriverConflict)]
        self.frag = frag
        self.domains = {}
        self.comb = {}          # signal id -> (signal, [stmts])
        self.sync = {}          # signal id -> (signal, domain, [stmts])
        self.groups = []        # (domain, [signals], stmts)
        self.instances = []
        self.signals = {}
        self.multi = []
        self._walk(frag, ("top",))

    def sources(self, value):
        """registers [(signal, domain)] and undriven signals [(signal, None)] an expression depends on combinationally"""
        seen, out, work = set(), [], list(A.Value.cast(value)._rhs_signals())
        while work:
            s = work.pop()
            if id(s) in seen:
                continue
            seen.add(id(s))
            if id(s) in self.sync:
                out.append((s, self.sync[id(s)][1]))
            elif id(s) in self.comb:
                for st in self.comb[id(s)][1]:
                    work.extend(stmt_reads(st))
            else:
                out.append((s, None))
        return out

    def cone(self, roots):
        """registers whose value can influence one of the signals `roots`, in any number of cycles"""
        seen, out, work = set(), [], list(roots)
        grp = {id(s): g for g in self.groups for s in g[1]}
        while work:
            s = work.pop()
            if id(s) in seen:
                continue
            seen.add(id(s))
            if id(s) in self.sync:
                out.append(s)
                for st in slice_stmts(grp[id(s)][2], {id(s)}):
                    work.extend(stmt_reads(st))
            elif id(s) in self.comb:
                for st in self.comb[id(s)][1]:
                    work.extend(stmt_reads(st))
        return out

    def _note(self, s):
        self.signals[id(s)] = s

    def _walk(self, frag, path):
        for n, cd in frag.domains.items():
            self.domains[n] = cd
        stmts = list(frag.statements)
        for s in stmts:
            for x in s._lhs_signals():
                self._note(x)
            for x in s._rhs_signals():
                self._note(x)
        for domain, sigs in frag.drivers.items():
            sigs = list(sigs)
            for s in sigs:
                self._note(s)
                if id(s) in self.comb or id(s) in self.sync:
                    self.multi.append(s)
                if domain is None:
                    self.comb[id(s)] = (s, slice_stmts(stmts, {id(s)}), path)
                else:
                    self.sync[id(s)] = (s, domain, None, path)
            if domain is not None and sigs:
                self.groups.append((domain, sigs, slice_stmts(stmts, {id(s) for s in sigs}), path))
        if isinstance(frag, Instance) and not frag.statements:
            self.instances.append((frag, path))
        for i, (sub, name) in enumerate(frag.subfragments):
            self._walk(sub, path + (name or "U$%d" % i,))


def stmt_reads(st):
    """signals read by a (sliced) statement"""
    if isinstance(st, tuple):
        out = list(A.Value.cast(st[1].test)._rhs_signals())
        for p, body in st[2]:
            for b in body:
                out.extend(stmt_reads(b))
        return out
    return list(st._rhs_signals())


def slice_stmts(stmts, ids):
    out = []
    for s in stmts:
        if isinstance(s, A.Assign):
            l = {id(x) for x in s._lhs_signals()}
            if l & ids:
                out.append(s)
        elif isinstance(s, A.Switch):
            l = {id(x) for x in s._lhs_signals()}
            if l & ids:
                cases = [(p, slice_stmts(b, ids)) for p, b in s.cases.items()]
                out.append(("switch", s, cases))
        elif isinstance(s, tuple):
            l = {id(x) for x in s[1]._lhs_signals()}
            if l & ids:
                out.append(("switch", s[1], [(p, slice_stmts(b, ids)) for p, b in s[2]]))
        elif isinstance(s, A.Property):
            pass
        else:
            raise AnalysisError("statement %r" % (s,))
    return out


# ------------------------------------------------------------------------------------------------ raw values
# a raw value is an int (all bits known) or a tuple of nodes, LSB first

def norm(bits):
    if not bits:
        return 0
    if max(bits) < 2:
        r = 0
        for i, b in enumerate(bits):
            if b:
                r |= 1 << i
        return r
    return bits if type(bits) is tuple else tuple(bits)


def bits_of(a, w):
    if type(a) is int:
        return tuple([(a >> i) & 1 for i in range(w)])
    return a


def ext(a, wa, signed, w):
    """resize raw value of width wa to w"""
    if type(a) is int:
        if w <= wa:
            return a & ((1 << w) - 1)
        if signed and wa and (a >> (wa - 1)) & 1:
            return a | (((1 << (w - wa)) - 1) << wa)
        return a
    if w == wa:
        return a
    if w < wa:
        return norm(a[:w])
    return a + ((a[-1] if signed else 0),) * (w - wa)


class Ops:
    def __init__(self, mgr):
        self.m = mgr

    def mux(self, c, a, b, w):
        if c == 1:
            return a
        if c == 0:
            return b
        if a == b:
            return a
        ite = self.m.ite
        return norm([ite(c, x, y) for x, y in zip(bits_of(a, w), bits_of(b, w))])

    def add(self, a, b, w, cin=0):
        if type(a) is int and type(b) is int and cin < 2:
            return (a + b + cin) & ((1 << w) - 1)
        m = self.m
        c = cin
        out = []
        for x, y in zip(bits_of(a, w), bits_of(b, w)):
            xy = m.XOR(x, y)
            out.append(m.XOR(xy, c))
            c = m.ite(xy, c, x)
        return norm(out)

    def inv(self, a, w):
        if type(a) is int:
            return ~a & ((1 << w) - 1)
        N = self.m.NOT
        return tuple([N(x) for x in a])

    def sub(self, a, b, w):
        if type(a) is int and type(b) is int:
            return (a - b) & ((1 << w) - 1)
        return self.add(a, self.inv(b, w), w, 1)

    def bitwise(self, op, a, b, w):
        m = self.m
        f = {"&": m.AND, "|": m.OR, "^": m.XOR}[op]
        return norm([f(x, y) for x, y in zip(bits_of(a, w), bits_of(b, w))])

    def eq(self, a, b, w):
        m = self.m
        r = 1
        for x, y in reversed(list(zip(bits_of(a, w), bits_of(b, w)))):
            r = m.AND(r, m.NOT(m.XOR(x, y)))
            if r == 0:
                return 0
        return r

    def ult(self, a, b, w):
        """unsigned a<b"""
        m = self.m
        r = 0
        for x, y in zip(bits_of(a, w), bits_of(b, w)):
            r = m.ite(m.XOR(x, y), y, r)
        return r

    def any(self, a):
        if type(a) is int:
            return int(a != 0)
        r = 0
        for x in a:
            r = self.m.OR(r, x)
        return r

    def all(self, a, w):
        if type(a) is int:
            return int(a == (1 << w) - 1)
        r = 1
        for x in a:
            r = self.m.AND(r, x)
        return r

    def parity(self, a):
        if type(a) is int:
            return bin(a).count("1") & 1
        r = 0
        for x in a:
            r = self.m.XOR(r, x)
        return r

    def mul(self, a, b, w):
        if type(a) is int and type(b) is int:
            return (a * b) & ((1 << w) - 1)
        if type(a) is int:
            a, b = b, a
        acc = 0
        bb = bits_of(b, w)
        ab = bits_of(a, w)
        for i, y in enumerate(bb):
            if y == 0:
                continue
            row = (0,) * i + ab[:w - i]
            row = norm([self.m.AND(y, x) for x in row])
            acc = self.add(acc, row, w)
        return acc


class Compiled:
    """transfer functions of a flat IR over abstract values"""

    def __init__(self, flat, inputs=(), mgr=None, opaque=None):
        self.flat = flat
        self.mgr = mgr or BDD()
        self.ops = Ops(self.mgr)
        self.index = {}
        self.sig = []
        self.cache_expr = {}
        self.opaque = opaque
        for s in flat.signals.values():
            self.add_sig(s)
        for v in inputs:
            for s, _ in expand(v):
                self.add_sig(s)
        n = len(self.sig)
        self.comb_fn = {}
        for sid, (s, stmts, path) in flat.comb.items():
            self.comb_fn[self.index[sid]] = None
        self._comb_src = {self.index[sid]: (s, st) for sid, (s, st, p) in flat.comb.items()}
        self.regs = [s for s, d, _, p in flat.sync.values()]
        self.reg_idx = [self.index[id(s)] for s in self.regs]
        self.reg_domain = {self.index[id(s)]: d for s, d, _, p in flat.sync.values()}
        self.all_groups = None
        self.untracked = set()

    @property
    def groups(self):
        if self.all_groups is None:
            self.all_groups = [(d, [self.index[id(s)] for s in sigs], self.block(stmts))
                               for d, sigs, stmts, path in self.flat.groups]
        return self.all_groups

    def cone(self, roots):
        return {self.index[id(s)] for s in self.flat.cone([self.sig[i] for i in roots])}

    def track(self, live):
        """compute only the registers in `live`; reading another one raises Untracked"""
        ids = {id(self.sig[i]) for i in live}
        self.all_groups = []
        for d, sigs, stmts, path in self.flat.groups:
            mine = [s for s in sigs if id(s) in ids]
            if mine:
                self.all_groups.append((d, [self.index[id(s)] for s in mine],
                                        self.block(stmts if len(mine) == len(sigs) else
                                                   slice_stmts(stmts, {id(s) for s in mine}))))
        self.untracked = set(self.reg_idx) - set(live)

    def add_sig(self, s):
        if id(s) not in self.index:
            self.index[id(s)] = len(self.sig)
            self.sig.append(s)
        return self.index[id(s)]

    # -------------------------------------------------------------------------------------------- expressions
    def expr(self, v):
        """-> fn(env) -> raw value of width len(v)"""
        k = id(v)
        f = self.cache_expr.get(k)
        if f is None:
            f = self._expr(v)
            self.cache_expr[k] = f
            self.cache_expr[("keep", k)] = v
        return f

    def ext_expr(self, v, w):
        f = self.expr(v)
        sh = v.shape()
        wa = sh.width
        if wa == w:
            return f
        sg = sh.signed
        return lambda e: ext(f(e), wa, sg, w)

    def _expr(self, v):
        o = self.ops
        m = self.mgr
        if isinstance(v, A.Const):
            c = v.value & ((1 << len(v)) - 1)
            return lambda e: c
        if isinstance(v, A.Signal):
            i = self.add_sig(v)
            return lambda e: e.get(i)
        if isinstance(v, A.Slice):
            f = self.expr(v.value)
            a, b = v.start, v.stop
            mask = (1 << (b - a)) - 1

            def fn(e):
                x = f(e)
                if type(x) is int:
                    return (x >> a) & mask
                return norm(x[a:b])
            return fn
        if isinstance(v, A.Cat):
            parts = [(self.expr(p), len(p)) for p in v.parts]

            def fn(e):
                out = []
                for f, w in parts:
                    out.extend(bits_of(f(e), w))
                return norm(out)
            return fn
        if isinstance(v, A.Part):
            f = self.expr(v.value)
            g = self.expr(v.offset)
            wv, wo, w, stride = len(v.value), len(v.offset), v.width, v.stride
            mask = (1 << w) - 1

            def fn(e):
                x = f(e)
                off = g(e)
                if type(off) is int:
                    s = off * stride
                    if type(x) is int:
                        return (x >> s) & mask
                    xb = x[s:s + w]
                    return norm(xb + (0,) * (w - len(xb)))
                xb = bits_of(x, wv)

                def pick(k):
                    s = k * stride
                    y = xb[s:s + w]
                    return norm(y + (0,) * (w - len(y)))
                return self.mux_tree(off, wo, pick, (wv + stride - 1) // stride, 0, w)
            return fn
        if isinstance(v, A.ArrayProxy):
            sh = v.shape()
            w = sh.width
            elems = [self.ext_expr(x, w) for x in v._iter_as_values()]
            g = self.expr(A.Value.cast(v.index))
            wi = len(v.index)
            n = len(elems)
            if not n:
                return lambda e: 0

            def fn(e):
                i = g(e)
                if type(i) is int:
                    return elems[min(i, n - 1)](e)
                return self.mux_tree(i, wi, lambda k: elems[k](e), n, elems[n - 1], w, lazy=e)
            return fn
        if isinstance(v, A.Operator):
            return self._operator(v)
        raise AnalysisError("expression %r" % (v,))

    def mux_tree(self, idx, wi, pick, n, default, w, lazy=None):
        """value selected by symbolic idx among n, out of range -> default"""
        ib = bits_of(idx, wi)
        d = default(lazy) if callable(default) else default

        def rec(bit, base):
            if base >= n:
                return d
            if bit < 0:
                return pick(base)
            b = ib[bit]
            if b == 0:
                return rec(bit - 1, base)
            if b == 1:
                return rec(bit - 1, base | (1 << bit))
            return self.ops.mux(b, rec(bit - 1, base | (1 << bit)), rec(bit - 1, base), w)
        return rec(wi - 1, 0)

    def _operator(self, v):
        o = self.ops
        m = self.mgr
        op = v.operator
        args = v.operands
        sh = v.shape()
        w = sh.width
        if len(args) == 1:
            a, = args
            f = self.expr(a)
            wa = len(a)
            if op == "~":
                return lambda e: o.inv(f(e), wa)
            if op == "-":
                g = self.ext_expr(a, w)
                return lambda e: o.sub(0, g(e), w)
            if op in ("b", "r|"):
                return lambda e: norm((o.any(f(e)),))
            if op == "r&":
                return lambda e: norm((o.all(f(e), wa),))
            if op == "r^":
                return lambda e: norm((o.parity(f(e)),))
            if op in ("u", "s"):
                return f
        if len(args) == 2:
            a, b = args
            sa, sb = a.shape(), b.shape()
            if op in ("+", "-", "&", "|", "^", "*"):
                f, g = self.ext_expr(a, w), self.ext_expr(b, w)
                if op == "+":
                    return lambda e: o.add(f(e), g(e), w)
                if op == "-":
                    return lambda e: o.sub(f(e), g(e), w)
                if op == "*":
                    opq = self.opaque

                    def fmul(e):
                        x, y = f(e), g(e)
                        if opq is not None and not (type(x) is int and type(y) is int):
                            return opq("*", x, y, w)
                        return o.mul(x, y, w)
                    return fmul

                def fb(e):
                    x, y = f(e), g(e)
                    if type(x) is int and type(y) is int:
                        return x & y if op == "&" else x | y if op == "|" else x ^ y
                    return o.bitwise(op, x, y, w)
                return fb
            if op in ("==", "!=", "<", "<=", ">", ">="):
                # common width including sign
                if sa.signed == sb.signed:
                    cw = max(sa.width, sb.width)
                    sg = sa.signed
                else:
                    cw = max(sa.width + (not sa.signed), sb.width + (not sb.signed))
                    sg = True
                f, g = self.ext_expr(a, cw), self.ext_expr(b, cw)
                flip = 1 << (cw - 1) if (sg and cw) else 0

                def cmp(e):
                    x, y = f(e), g(e)
                    if type(x) is int and type(y) is int:
                        if op == "==":
                            return int(x == y)
                        if op == "!=":
                            return int(x != y)
                        x ^= flip
                        y ^= flip
                        return int(x < y if op == "<" else x <= y if op == "<=" else x > y if op == ">" else x >= y)
                    if op == "==":
                        return norm((o.eq(x, y, cw),))
                    if op == "!=":
                        return norm((m.NOT(o.eq(x, y, cw)),))
                    if flip:
                        x = bits_of(x, cw)
                        y = bits_of(y, cw)
                        x = x[:-1] + (m.NOT(x[-1]),)
                        y = y[:-1] + (m.NOT(y[-1]),)
                    if op == "<":
                        return norm((o.ult(x, y, cw),))
                    if op == ">":
                        return norm((o.ult(y, x, cw),))
                    if op == "<=":
                        return norm((m.NOT(o.ult(y, x, cw)),))
                    return norm((m.NOT(o.ult(x, y, cw)),))
                return cmp
            if op in ("<<", ">>"):
                wa, wb = sa.width, sb.width
                f, g = self.ext_expr(a, max(w, wa)), self.expr(b)
                sga = sa.signed
                ww = max(w, wa)

                def shf(e):
                    x, y = f(e), g(e)
                    def sh1(k):
                        if op == "<<":
                            if type(x) is int:
                                return (x << k) & ((1 << ww) - 1)
                            return norm(((0,) * k + x)[:ww])
                        xb = bits_of(x, ww)
                        fill = xb[-1] if (sga and xb) else 0
                        return norm((xb[k:] + (fill,) * k)[:ww])
                    if type(y) is int:
                        r = sh1(y)
                    else:
                        r = self.mux_tree(y, wb, lambda k: sh1(min(k, ww)), 1 << wb, 0, ww)
                    return ext(r, ww, False, w)
                return shf
            if op in ("//", "%"):
                f, g = self.expr(a), self.expr(b)

                def dm(e):
                    x, y = f(e), g(e)
                    if type(x) is int and type(y) is int:
                        if sa.signed and sa.width and x >> (sa.width - 1):
                            x -= 1 << sa.width
                        if sb.signed and sb.width and y >> (sb.width - 1):
                            y -= 1 << sb.width
                        r = 0 if y == 0 else (x // y if op == "//" else x % y)
                        return r & ((1 << w) - 1)
                    if type(y) is int and y and (y & (y - 1)) == 0 and not sb.signed and not sa.signed:
                        k = y.bit_length() - 1
                        xb = bits_of(x, sa.width)
                        r = xb[k:] if op == "//" else xb[:k]
                        r = tuple(r)[:w]
                        return norm(r + (0,) * (w - len(r)))
                    raise AnalysisError("symbolic division at %s" % loc_str(v.src_loc))
                return dm
        if len(args) == 3 and op == "m":
            c, a, b = args
            fc = self.expr(c)
            fa, fb = self.ext_expr(a, w), self.ext_expr(b, w)

            def fm(e):
                cc = o.any(fc(e))
                if cc == 1:
                    return fa(e)
                if cc == 0:
                    return fb(e)
                return o.mux(cc, fa(e), fb(e), w)
            return fm
        raise AnalysisError("operator %s" % op)

    # -------------------------------------------------------------------------------------------- statements
    def block(self, stmts):
        fns = []
        for s in stmts:
            if isinstance(s, A.Assign):
                fns.append(self.assign(s))
            else:
                fns.append(self.switch(s))
        if len(fns) == 1:
            return fns[0]

        def run(e, nx, g):
            for f in fns:
                f(e, nx, g)
        return run

    def switch(self, s):
        _, sw, cases = s
        test = self.expr(sw.test)
        w = len(sw.test)
        m = self.mgr
        comp = []
        for pats, body in cases:
            pp = []
            for p in pats:
                p = p if isinstance(p, str) else format(p, "0%db" % w)
                mask = int("".join("0" if b == "-" else "1" for b in p) or "0", 2)
                val = int("".join("0" if b == "-" else b for b in p) or "0", 2)
                pp.append((mask, val))
            comp.append((pp if len(pats) else None, self.block(body)))

        def run(e, nx, g):
            t = test(e)
            if type(t) is int:
                for pp, body in comp:
                    if pp is None:
                        body(e, nx, g)
                        return
                    for mask, val in pp:
                        if t & mask == val:
                            body(e, nx, g)
                            return
                return
            rest = g
            for pp, body in comp:
                if pp is None:
                    c = 1
                else:
                    c = 0
                    for mask, val in pp:
                        r = 1
                        for i in range(w - 1, -1, -1):
                            if (mask >> i) & 1:
                                b = t[i]
                                r = m.AND(r, b if (val >> i) & 1 else m.NOT(b))
                                if r == 0:
                                    break
                        c = m.OR(c, r)
                gc = m.AND(rest, c)
                if gc != 0:
                    body(e, nx, gc)
                rest = m.AND(rest, m.NOT(c))
                if rest == 0:
                    return
        return run

    def lhs_bits(self, v):
        """static list of (sig index, bit) or None when dynamic"""
        if isinstance(v, A.Signal):
            i = self.add_sig(v)
            return [(i, b) for b in range(len(v))]
        if isinstance(v, A.Cat):
            out = []
            for p in v.parts:
                x = self.lhs_bits(p)
                if x is None:
                    return None
                out.extend(x)
            return out
        if isinstance(v, A.Slice):
            x = self.lhs_bits(v.value)
            return None if x is None else x[v.start:v.stop]
        if isinstance(v, A.Operator) and v.operator in ("u", "s"):
            return self.lhs_bits(v.operands[0])
        return None

    def lhs_alts(self, v):
        """[( [(index fn, width, k, is_default)...], bits )]"""
        st = self.lhs_bits(v)
        if st is not None:
            return [((), st)]
        if isinstance(v, A.Slice):
            return [(c, b[v.start:v.stop]) for c, b in self.lhs_alts(v.value)]
        if isinstance(v, A.Operator) and v.operator in ("u", "s"):
            return self.lhs_alts(v.operands[0])
        if isinstance(v, A.Part):
            g, wo = self.expr(v.offset), len(v.offset)
            out = []
            for c, b in self.lhs_alts(v.value):
                for k in range(min(1 << wo, (len(b) + v.stride - 1) // v.stride)):
                    bb = b[k * v.stride:k * v.stride + v.width]
                    out.append((c + ((g, wo, k, False),), bb))
            return out
        if isinstance(v, A.ArrayProxy):
            g, wi = self.expr(A.Value.cast(v.index)), len(v.index)
            elems = list(v._iter_as_values())
            out = []
            for k, el in enumerate(elems):
                if k >= (1 << wi):
                    break
                for c, b in self.lhs_alts(el):
                    out.append((((g, wi, k, k == len(elems) - 1),) + c, b))
            return out
        if isinstance(v, A.Cat):
            res = [((), [])]
            for p in v.parts:
                res = [(c1 + c2, b1 + b2) for c1, b1 in res for c2, b2 in self.lhs_alts(p)]
            return res
        raise AnalysisError("lhs %r" % (v,))

    def storer(self, bits, pad_w):
        """bits: list of (sig, bit) -> fn(nx, g, raw)"""
        segs = []
        for off, (s, b) in enumerate(bits):
            if segs and segs[-1][0] == s and segs[-1][1] + segs[-1][3] == b:
                segs[-1][3] += 1
            else:
                segs.append([s, b, off, 1])
        segs = [tuple(x) for x in segs]
        widths = {s: len(self.sig[s]) for s, _, _, _ in segs}
        ops = self.ops

        def store(nx, g, val):
            for s, b, off, n in segs:
                ws = widths[s]
                if type(val) is int:
                    part = (val >> off) & ((1 << n) - 1)
                else:
                    part = norm(val[off:off + n])
                old = nx[s]
                if n != ws:
                    if type(old) is int and type(part) is int:
                        part = (old & ~(((1 << n) - 1) << b)) | (part << b)
                    else:
                        ob = bits_of(old, ws)
                        part = norm(ob[:b] + bits_of(part, n) + ob[b + n:])
                nx[s] = part if g == 1 else ops.mux(g, part, old, ws)
        return store

    def assign(self, s):
        lhs, rhs = s.lhs, s.rhs
        w = len(lhs)
        f = self.ext_expr(rhs, w)
        st = self.lhs_bits(lhs)
        if st is not None:
            store = self.storer(st, w)

            def run(e, nx, g):
                store(nx, g, f(e))
            return run
        alts = []
        for conds, bits in self.lhs_alts(lhs):
            alts.append((conds, self.storer(bits, w)))
        ops, m = self.ops, self.mgr

        def run(e, nx, g):
            val = f(e)
            vals = {}
            for conds, store in alts:
                gg = g
                for fn, wi, k, last in conds:
                    i = vals.get(id(fn))
                    if i is None:
                        i = vals[id(fn)] = fn(e)
                    if type(i) is int:
                        if not (i == k or (last and i > k)):
                            gg = 0
                            break
                    else:
                        c = ops.eq(i, k, wi)
                        if last:
                            c = m.OR(c, ops.ult(k, i, wi))
                        gg = m.AND(gg, c)
                        if gg == 0:
                            break
                if gg != 0:
                    store(nx, gg, val)
        return run


class Env:
    """abstract values of all signals in one clock cycle, computed on demand"""
    __slots__ = ("c", "v", "busy", "override")

    def __init__(self, comp):
        self.c = comp
        self.v = {}
        self.busy = set()

    def get(self, i):
        r = self.v.get(i)
        if r is None:
            c = self.c
            s = c.sig[i]
            if i in c._comb_src:
                if i in self.busy:
                    raise Broken("combinational loop through %s" % s.name, s.src_loc)
                fn = c.comb_fn[i]
                if fn is None:
                    fn = c.comb_fn[i] = c.block(c._comb_src[i][1])
                self.busy.add(i)
                nx = _Next(self, {i: s.reset & ((1 << len(s)) - 1)})
                fn(self, nx, 1)
                r = nx[i]
                self.busy.discard(i)
            else:
                if i in c.untracked:
                    raise Untracked(i)
                r = s.reset & ((1 << len(s)) - 1)     # undriven: holds its reset value
            self.v[i] = r
        return r

    def next(self, domains=None):
        """abstract next value of every register of the ticking domains"""
        out = {}
        c = self.c
        for d, idxs, fn in c.groups:
            if domains is not None and d not in domains:
                for i in idxs:
                    out[i] = self.get(i)
                continue
            nx = _Next(self, {i: self.get(i) for i in idxs})
            fn(self, nx, 1)
            for i in idxs:
                out[i] = nx[i]
        return out


class _Next(dict):
    __slots__ = ("e",)

    def __init__(self, e, d):
        super().__init__(d)
        self.e = e

    def __missing__(self, i):
        # a signal assigned in a shared statement but owned by another group
        s = self.e.c.sig[i]
        return s.reset & ((1 << len(s)) - 1)
