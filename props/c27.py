"""C27: the bit sequence type."""
import os

from hwsa.check import REPO, Result
from hwsa.pyabs import ABytes, AInt, AObj, AStr, Iter, PyExc, Unsupported, explore

EXPLANATION = """
Abstract interpretation of the syntax tree of amlib/utils/bits.py (never imported or executed): for every length in
the bound the contents are provenance tokens, one per bit, so one pass covers all values of that length.  Each
operation's result must have the specified length and, bit by bit, exactly the specified provenance; inputs without
meaning must be rejected with TypeError/ValueError, and comparisons must always give an answer.
"""
ASSUMPTIONS = ["lengths up to the stated bound; the methods treat all lengths with the same code"]
MUST = ["construct", "observe", "index", "slice", "equality", "concat", "repeat", "logic", "reverse", "reject"]
PATH = os.path.join(REPO, "amlib", "utils", "bits.py")


class Ctx:
    def __init__(self, r, it, name):
        self.r, self.it, self.name = r, it, name
        self.cls = it.module(PATH).get("bits")
        for i in range(40):         # interleaved variable order
            it.token("v[%d]" % i)
            it.token("w[%d]" % i)

    def tok(self, name, n):
        """(list of n bit functions, the integer they form)"""
        v = self.it.fresh(name, n)
        return [self.it.token("%s[%d]" % (name, i)) for i in range(n)], v

    def make(self, *args, **kw):
        return self.it.call(self.cls, list(args), kw)

    def seq(self, name, n):
        b, v = self.tok(name, n)
        return b, self.make(v, n)

    def m(self, o, name, *args, **kw):
        return self.it.call(self.it.attr(o, name), list(args), kw)

    def run(self, rule, what, fn):
        """result of fn; an exception of the program is a violation"""
        try:
            return True, fn()
        except PyExc as e:
            self.r.bad(rule, "%s raises %s" % (what, e), "%s:%d" % ("amlib/utils/bits.py", e.loc[1]))
            return False, None

    def where(self, what):
        return "amlib/utils/bits.py (%s)" % what

    def same(self, rule, what, o, bits):
        """o is a bit sequence with exactly these bits"""
        it = self.it
        if not (isinstance(o, AObj) and o.cls.subclass_of(self.cls)):
            self.r.bad(rule, "%s gives %r, no bit sequence" % (what, it.typename(o)), self.where(what))
            return
        n = it.concrete(it.b_len(o))
        v = self.m(o, "to_int")
        if self.r.require(n == len(bits), rule, "%s: length %d, required %d" % (what, n, len(bits)), self.where(what)):
            self.int(rule, what, v, bits)

    def int(self, rule, what, v, bits):
        it = self.it
        if not it.isint(v):
            self.r.bad(rule, "%s gives a %s, no integer" % (what, it.typename(v)), self.where(what))
            return
        d = it.eq(v, it.num(bits))
        if d != 1:
            have, sign = it.parts(v, len(bits))
            k = next((i for i, (p, q) in enumerate(zip(have, bits)) if p != q), len(bits))
            self.r.bad(rule, "%s: bit %d is %s, required %s" % (what, k, self.show(have[k] if k < len(have) else sign), self.show(bits[k] if k < len(bits) else 0)),
                       self.where(what))
        else:
            self.r.ok(rule)

    def show(self, f):
        it = self.it
        if f in (0, 1):
            return str(f)
        for n in it.names:
            if n not in it.assume and it.token(n) == f:
                return n
        return "a function of several bits"

    def truth(self, rule, what, v, node):
        it = self.it
        have = it.node_of(v)
        self.r.require(have == node, rule, "%s gives %s, required %s" % (what, self.show(have), self.show(node)), self.where(what))

    def rejected(self, what, fn, kinds):
        try:
            v = fn()
        except PyExc as e:
            self.r.require(isinstance(e.exc, kinds), "reject", "%s raises %s" % (what, e), self.where(what))
            return
        self.r.bad("reject", "%s is accepted" % what, self.where(what))


def chars(c, bits):
    return c.it.mkstr([b if isinstance(b, str) else b if b in (0, 1) else AInt([b]) for b in bits])


def byts(c, bits, n=None):
    n = (len(bits) + 7) // 8 if n is None else n
    b = list(bits) + [0] * (8 * n - len(bits))
    return c.it.mkbytes([c.it.num(b[8 * i:8 * i + 8]) for i in range(n)])


def construct(c, n):
    bits, v = c.tok("v", n)
    one = [c.it.num([b]) for b in bits]
    for what, args, want in [("bits(v, %d)" % n, (v, n), bits), ("bits(v, %d)" % (n + 3), (v, n + 3), bits + [0] * 3),
                             ("bits(v, %d) of a longer value" % max(n - 2, 0), (v, max(n - 2, 0)), bits[:max(n - 2, 0)]),
                             ("bits(list of %d)" % n, (one,), bits), ("bits(tuple of %d)" % n, (tuple(one),), bits),
                             ("bits(iterator of %d)" % n, (Iter(one),), bits),
                             ("bits(-1, %d)" % n, (-1, n), [1] * n)]:
        ok, o = c.run("construct", what, lambda: c.make(*args))
        if ok:
            c.same("construct", what, o, want)
    # without a length: up to the most significant set bit
    if n:
        top = c.it.num(bits[:-1] + [1])
        ok, o = c.run("construct", "bits(v)", lambda: c.make(top))
        if ok:
            c.same("construct", "bits(v)", o, bits[:-1] + [1])
        neg = c.it.num(bits[:-1], 1)
        ok, o = c.run("construct", "bits(negative v, %d)" % n, lambda: c.make(neg, n))
        if ok:
            c.same("construct", "bits(negative v, %d)" % n, o, bits[:-1] + [1])
        c.rejected("bits(negative v)", lambda: c.make(neg), ValueError)
        c.rejected("from_int(negative v)", lambda: c.m(c.cls, "from_int", neg), ValueError)
    else:
        ok, o = c.run("construct", "bits(0)", lambda: c.make(0))
        c.same("construct", "bits(0)", o, [])
        ok, o = c.run("construct", "bits()", lambda: c.make())
        c.same("construct", "bits()", o, [])
    # strings, most significant bit first; spaces and underscores only separate, a sign may lead
    msb = list(reversed(bits))
    for what, s in [("bits(str)", msb), ("bits('+str')", ["+"] + msb), ("bits(str with separators)", [" "] + msb[:1] + ["_"] + msb[1:2] + ["\t", " "] + msb[2:] + ["\n"])]:
        if not n and "+" in s:
            continue
        s = chars(c, s)
        ok, o = c.run("construct", what, lambda: c.make(s))
        if ok:
            c.same("construct", what, o, bits)
        ok, o = c.run("construct", "from_str", lambda: c.m(c.cls, "from_str", s))
        if ok:
            c.same("construct", "from_str", o, bits)
    # bytes
    for order in ("little", "big"):
        for ln in sorted({n, max(n - 3, 0), n + 9}):
            nb = (n + 7) // 8
            data = c.it.items(byts(c, bits))
            data = c.it.mkbytes(reversed(data) if order == "big" else data)
            what = "bits(%d bytes, %d, %s)" % (nb, ln, order)
            ok, o = c.run("construct", what, lambda: c.make(data, ln, byteorder=order))
            if ok:
                c.same("construct", what, o, (bits + [0] * ln)[:ln])
            ok, o = c.run("construct", "from_bytes", lambda: c.m(c.cls, "from_bytes", data, ln, order))
            if ok:
                c.same("construct", "from_" + what, o, (bits + [0] * ln)[:ln])
    _, s = c.seq("v", n)
    ok, o = c.run("construct", "bits(bits)", lambda: c.make(s))
    if ok:
        c.same("construct", "bits(bits)", o, bits)
    ok, o = c.run("construct", "bits(bits, %d)" % max(n - 1, 0), lambda: c.make(s, max(n - 1, 0)))
    if ok:
        c.same("construct", "bits(bits, shorter)", o, bits[:max(n - 1, 0)])
    ok, o = c.run("construct", "bits(bits, %d)" % (n + 2), lambda: c.make(s, n + 2))
    if ok:
        c.same("construct", "bits(bits, longer)", o, bits + [0, 0])
    c.rejected("bits(str, length)", lambda: c.make(chars(c, msb), n), ValueError)
    c.rejected("bits(bytes) without length", lambda: c.make(byts(c, bits)), ValueError)
    c.rejected("bits(iterable, length)", lambda: c.make(one, n), ValueError)
    for bad, e in [("-1", ValueError), ("23", ValueError), ("1-0", ValueError), ("x", ValueError), (1.5, TypeError), (None, TypeError)]:
        c.rejected("bits(%r)" % (bad,), lambda: c.make(bad), e)


def observe(c, n):
    bits, s = c.seq("v", n)
    it = c.it
    from hwsa.pyabs import _bool, _bytes, _int, _str
    for what, fn in [("to_int()", lambda: c.m(s, "to_int")), ("int()", lambda: _int(it, s))]:
        ok, v = c.run("observe", what, fn)
        if ok:
            c.int("observe", what, v, bits)
    c.r.require(it.concrete(it.b_len(s)) == n, "observe", "len() is not %d" % n, c.where("len()"))
    ok, v = c.run("observe", "bool()", lambda: _bool(it, s))
    if ok:
        c.truth("observe", "bool()", v, int(n > 0))
    for what, fn in [("to_str()", lambda: c.m(s, "to_str")), ("str()", lambda: _str(it, s))]:
        ok, v = c.run("observe", what, fn)
        if ok:
            c.truth("observe", "%s of length %d" % (what, n), it.equal(v, chars(c, list(reversed(bits)))), 1)
            ok, o = c.run("observe", "bits(%s)" % what, lambda: c.make(v))
            if ok:
                c.same("observe", "bits(%s)" % what, o, bits)
    for order in ("little", "big"):
        want = it.items(byts(c, bits))
        want = it.mkbytes(reversed(want) if order == "big" else want)
        ok, v = c.run("observe", "to_bytes(%s)" % order, lambda: c.m(s, "to_bytes", order))
        if ok:
            c.truth("observe", "to_bytes(%s) of length %d" % (order, n), it.equal(v, want), 1)
            if n:
                ok, o = c.run("observe", "from_bytes(to_bytes)", lambda: c.m(c.cls, "from_bytes", v, n, order))
                if ok:
                    c.same("observe", "from_bytes(to_bytes(%s))" % order, o, bits)
    ok, v = c.run("observe", "bytes()", lambda: _bytes(it, s))
    if ok:
        c.truth("observe", "bytes() of length %d" % n, it.equal(v, byts(c, bits)), 1)
    ok, v = c.run("observe", "iteration", lambda: it.items(s))
    if ok and c.r.require(len(v) == n, "observe", "iteration gives %d elements, required %d" % (len(v), n), c.where("iteration")):
        for k, x in enumerate(v):
            c.int("observe", "element %d of the iteration" % k, x, [bits[k]])


def index(c, n):
    bits, s = c.seq("v", n)
    for k in range(-n, n):
        ok, v = c.run("index", "[%d] of length %d" % (k, n), lambda: c.it.getitem(s, k))
        if ok:
            c.int("index", "[%d] of length %d" % (k, n), v, [bits[k]])
    ends = [None] + list(range(-n - 1, n + 2))
    for a in ends:
        for b in ends:
            what = "[%s:%s] of length %d" % ("" if a is None else a, "" if b is None else b, n)
            ok, v = c.run("slice", what, lambda: c.it.getitem(s, slice(a, b)))
            if ok:
                c.same("slice", what, v, bits[a:b])
    for k in ("x", 1.0, None):
        c.rejected("[%r]" % (k,), lambda: c.it.getitem(s, k), TypeError)


def equality(c, n):
    it = c.it
    b1, x = c.seq("v", n)
    for k in sorted({0, max(n - 1, 0), n, n + 1}):
        b2, y = c.seq("w", k)
        same = int(n == k)
        if same:
            for p, q in zip(b1, b2):
                same = it.m.AND(same, it.m.NOT(it.m.XOR(p, q)))
        others = [("a bit sequence", y), ("a string", chars(c, list(reversed(b2)))), ("a list", [it.num([b]) for b in b2]),
                  ("a tuple", tuple(it.num([b]) for b in b2))]
        for what, o in others:
            what = "length %d == %s of length %d" % (n, what, k)
            ok, v = c.run("equality", what, lambda: it.equal(x, o))
            if ok:
                c.truth("equality", what, v, same)
            import ast
            ok, v = c.run("equality", what, lambda: it.compare(ast.NotEq, x, o))
            if ok:
                c.truth("equality", what.replace("==", "!="), v, it.m.NOT(same))
    if n:
        b2, w = c.tok("w", n - 1)
        same = b1[-1]
        for p, q in zip(b1, b2):
            same = it.m.AND(same, it.m.NOT(it.m.XOR(p, q)))
        ok, v = c.run("equality", "== integer", lambda: it.equal(x, it.num(b2 + [1])))
        if ok:
            c.truth("equality", "length %d == integer of this length" % n, v, same)
    for o in (None, 1.5, -1, "xyz", "-1", b"\x01", object):
        ok, v = c.run("equality", "== %r" % (o,), lambda: it.equal(x, o))
        if ok:
            c.truth("equality", "== %r" % (o,), v, 0)


def operands(c, name, k):
    b, y = c.seq(name, k)
    one = [c.it.num([x]) for x in b]
    return b, [("bits", y), ("string", chars(c, list(reversed(b)))), ("list", one), ("tuple", tuple(one))]


def concat(c, n):
    b1, x = c.seq("v", n)
    for k in sorted({0, 1, n, n + 2}):
        b2, os_ = operands(c, "w", k)
        for what, o in os_:
            ok, v = c.run("concat", "bits + " + what, lambda: c.it.binop("+", x, o))
            if ok:
                c.same("concat", "bits of length %d + %s of length %d" % (n, what, k), v, b1 + b2)
            ok, v = c.run("concat", what + " + bits", lambda: c.it.binop("+", o, x))
            if ok:
                c.same("concat", "%s of length %d + bits of length %d" % (what, k, n), v, b2 + b1)
    c.same("concat", "the operand after the operation", x, b1)
    c.rejected("bits + None", lambda: c.it.binop("+", x, None), TypeError)


def repeat(c, n):
    b, x = c.seq("v", n)
    for k in (0, 1, 2, 3, 5):
        for what, f in [("bits of length %d * %d" % (n, k), lambda: c.it.binop("*", x, k)), ("%d * bits of length %d" % (k, n), lambda: c.it.binop("*", k, x))]:
            ok, v = c.run("repeat", what, f)
            if ok:
                c.same("repeat", what, v, b * k)
    for o in ("x", None, 1.5):
        c.rejected("bits * %r" % (o,), lambda: c.it.binop("*", x, o), TypeError)
    ok, v = c.run("reverse", "reversed()", lambda: c.m(x, "reversed"))
    if ok:
        c.same("reverse", "reversed() of length %d" % n, v, b[::-1])
        ok, v = c.run("reverse", "reversed()", lambda: c.m(v, "reversed"))
        if ok:
            c.same("reverse", "reversed().reversed() of length %d" % n, v, b)


def logic(c, n):
    b1, x = c.seq("v", n)
    m = c.it.m
    for k in sorted({0, 1, max(n - 1, 0), n, n + 2}):
        b2, os_ = operands(c, "w", k)
        w = max(n, k)
        p, q = b1 + [0] * (w - n), b2 + [0] * (w - k)
        for op, f in (("&", m.AND), ("|", m.OR), ("^", m.XOR)):
            want = [f(i, j) for i, j in zip(p, q)]
            for what, o in os_:
                for t, fn in (("bits of length %d %s %s of length %d" % (n, op, what, k), lambda: c.it.binop(op, x, o)),
                              ("%s of length %d %s bits of length %d" % (what, k, op, n), lambda: c.it.binop(op, o, x))):
                    ok, v = c.run("logic", t, fn)
                    if ok:
                        c.same("logic", t, v, want)
    for op in "&|^":
        c.rejected("bits %s None" % op, lambda: c.it.binop(op, x, None), TypeError)


PARTS = [("constructors", construct), ("observers", observe), ("indexing", index), ("equality", equality), ("concatenation", concat),
         ("repetition and reversal", repeat), ("bit operations", logic)]


def part(name, fn, lengths):
    def task(r):
        fs, np, done = set(), 0, 0
        for n in lengths:
            subs = []

            def run(it):
                # a partition starts afresh; only complete ones count
                sub = Result(name)
                fn(Ctx(sub, it, name), n)
                subs.append(sub)
            try:
                k, f = explore(run, limit=400 if n > 4 else 40000)
            except Unsupported as e:
                if "partitions" not in str(e) or n <= 4:
                    raise
                break           # written in a way that needs every value on its own: the smaller lengths decide
            done += 1
            np += k
            fs |= f
            for s in subs:
                for rule, cnt in s.obl.items():
                    r.ok(rule, cnt)
                for v in s.viol:
                    if not any(o["rule"] == v["rule"] and o["msg"] == v["msg"] for o in r.viol):
                        r.viol.append(v)
        r.units += sorted(fs)
        r.stats.update(functions=len(fs), partitions=np, lengths=done)
    return name, task


def tasks(tier):
    top = 34 if tier == "thorough" else 14
    return [part("%s, lengths 0 to %d" % (n, (min(top, 18) if f is index else top) - 1), f, range(min(top, 18) if f is index else top)) for n, f in PARTS]
