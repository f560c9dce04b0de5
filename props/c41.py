"""C41: host side of the logic analyser."""
import os
import types

from hwsa.check import REPO, Result
from hwsa.pyabs import AObj, Builtin, Opaque, PyExc, explore

EXPLANATION = """
Abstract interpretation of the syntax tree of the frontend classes of amlib/debug/ila.py (never imported or executed):
every bit the device transmits is a provenance token, so one pass covers all captures.  The serial port, the VCD and
GTKWave writers, files and processes are models that record what they are given.  The parameters are those the
constructor of AsyncSerialILA computed; the order of bytes is the one C39 establishes for the transmitter.
"""
ASSUMPTIONS = ["the port delivers the bytes of one capture to each refresh",
               "pyvcd and pyserial behave as documented"]
MUST = ["samples", "timestamps", "vcd", "clock", "gtkw", "parameters", "display"]
FILE = "amlib/debug/ila.py"
PATH = os.path.join(REPO, FILE)
MODEL = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "hwsa", "models", "frontend.py")


def clone(o):
    """what unpickling a pickled object gives"""
    if isinstance(o, AObj):
        c = AObj(o.cls)
        c.d = {k: clone(v) for k, v in o.d.items()}
        return c
    if isinstance(o, (list, tuple)):
        return type(o)(clone(x) for x in o)
    if isinstance(o, dict):
        return {k: clone(v) for k, v in o.items()}
    return o


class Ctx:
    def __init__(self, r, it, widths, depth, bps, period):
        self.r, self.it = r, it
        self.widths, self.depth, self.bps, self.period = widths, depth, bps, period
        self.model = mod = it.module(MODEL)
        ns = types.SimpleNamespace
        g = mod.get
        self.world = g("WORLD")
        it.foreign.update({
            ("amaranth", "Signal"): g("Signal"), ("amaranth", "Cat"): g("Cat"), ("amaranth.hdl.ast", "Shape"): g("Shape"), ("amaranth", "Shape"): g("Shape"),
            ("amaranth.hdl", "Shape"): g("Shape"), ("amaranth", "Elaboratable"): Opaque("Elaboratable"),
            "serial": ns(Serial=g("Port")), ("vcd", "VCDWriter"): g("VCDWriter"), ("vcd.gtkw", "GTKWSave"): g("GTKWSave"),
            "pickle": ns(dump=Builtin(lambda o, f, *a: it.call(g("dump"), [clone(o), f], {})), load=Builtin(lambda f: clone(it.attr(f, "object")))), "subprocess": ns(run=g("run"), call=g("run"), check_call=g("run")),
            "tempfile": ns(gettempdir=g("gettempdir")), "sys": ns(stdout=it.attr(self.world, "stdout")),
            "os": ns(path=ns(join=g("join")), urandom=g("urandom"), remove=g("remove"), unlink=g("remove")),
            ("builtins", "open"): g("open"), ("builtins", "print"): g("print")})
        self.mod = it.module(PATH)

    def new(self, cls, *args, **kw):
        return self.it.call(cls, list(args), kw)

    def m(self, o, name, *args, **kw):
        return self.it.call(self.it.attr(o, name), list(args), kw)

    def core(self):
        """the attributes of an AsyncSerialILA the frontend uses"""
        o = AObj(self.model.get("Core"))
        sig, shape = self.model.get("Signal"), self.model.get("Shape")
        o.d["signals"] = [self.new(sig, self.new(shape, w, s), name=n) for n, w, s in self.widths]
        o.d.update(sample_width=sum(w for _, w, _ in self.widths), sample_depth=self.depth, sample_period=self.period, sample_rate=1 / self.period,
                   bits_per_sample=self.bps * 8, bytes_per_sample=self.bps)
        return o

    def capture(self, tag):
        """(bits[sample][signal], bytes as transmitted: least significant byte first)"""
        it = self.it
        val, raw = [], []
        for k in range(self.depth):
            allb, row = [], []
            for n, w, _ in self.widths:
                b = [it.token("%s.%d.%s[%d]" % (tag, k, n, i)) for i in range(w)]
                row.append(b)
                allb += b
            val.append(row)
            allb += [0] * (8 * self.bps - len(allb))
            raw += [it.num(allb[8 * i:8 * i + 8]) for i in range(self.bps)]
        return val, it.mkbytes(raw)

    def frontend(self, core, tag="c"):
        f = self.new(self.mod.get("AsyncSerialILAFrontend"), "port", 115200, ila=core)
        self.port = self.it.attr(self.world, "ports")[-1]
        val, raw = self.capture(tag)
        self.m(self.port, "arrive", raw)
        return f, val

    def show(self, f):
        it = self.it
        if f in (0, 1):
            return str(f)
        for n in it.names:
            if n not in it.assume and it.token(n) == f:
                return n
        return "a function of several bits"

    def value(self, rule, what, v, bits):
        """integer or bit sequence v is exactly these bits"""
        it = self.it
        if isinstance(v, AObj):
            n = it.concrete(it.b_len(v))
            if not self.r.require(n == len(bits), rule, "%s has %d bits, required %d" % (what, n, len(bits)), FILE):
                return
            v = self.m(v, "to_int")
        if not it.isint(v):
            self.r.bad(rule, "%s is a %s" % (what, it.typename(v)), FILE)
            return
        if it.eq(v, it.num(bits)) == 1:
            self.r.ok(rule)
            return
        have, sign = it.parts(v, len(bits))
        k = next((i for i, (p, q) in enumerate(zip(have, bits)) if p != q), len(bits))
        self.r.bad(rule, "%s: bit %d is %s, required %s" % (what, k, self.show(have[k] if k < len(have) else sign), self.show(bits[k] if k < len(bits) else 0)), FILE)

    def samples(self, rule, what, f, val, times=True):
        """enumerate_samples gives exactly the capture"""
        it = self.it
        pairs = [it.items(p) for p in it.items(self.m(f, "enumerate_samples"))]
        if not self.r.require(len(pairs) == len(val), rule, "%s: %d samples, required %d" % (what, len(pairs), len(val)), FILE):
            return
        for k, ((t, s), row) in enumerate(zip(pairs, val)):
            self.r.require(abs(t - k * self.period) <= 1e-6 * self.period * (k + 1), "timestamps", "%s: sample %d has time %r, required %r" % (what, k, t, k * self.period), FILE)
            if not self.r.require(isinstance(s, dict) and list(s) == [n for n, _, _ in self.widths], rule, "%s: sample %d names %s" % (what, k, list(s)), FILE):
                return
            for (n, w, _), bits in zip(self.widths, row):
                self.value(rule, "%s: %s in sample %d" % (what, n, k), s[n], bits)


def read(c):
    f, val = c.frontend(c.core())
    c.samples("samples", "first capture", f, val)
    c.samples("samples", "reading the same capture again", f, val)
    val2, raw = c.capture("d")
    c.m(c.port, "arrive", raw)
    c.m(f, "refresh")
    c.samples("samples", "capture after refresh", f, val2)


def parameters(c):
    core = c.core()
    p = c.new(c.mod.get("ILACoreParameters"), core)
    f, val = c.frontend(p)
    c.samples("parameters", "with ILACoreParameters", f, val)
    p = c.new(c.mod.get("ILACoreParameters"), core)
    for name in ((), ("x.P",)):
        c.m(p, "pickle", *name)
        q = c.m(c.mod.get("ILACoreParameters"), "unpickle", *name)
        f, val = c.frontend(q)
        c.samples("parameters", "with unpickled parameters", f, val)
        for s, (n, w, sg) in zip(c.it.attr(q, "signals"), c.widths):
            c.r.require(c.it.attr(s, "name") == n and c.it.concrete(c.it.b_len(s)) == w and c.it.attr(c.m(s, "shape"), "signed") == sg, "parameters",
                        "unpickled signal %s differs" % n, FILE)
        for a in ("sample_width", "sample_depth", "sample_period", "sample_rate", "bits_per_sample", "bytes_per_sample"):
            c.r.require(c.it.attr(q, a) == c.it.attr(core, a), "parameters", "unpickled %s is %r" % (a, c.it.attr(q, a)), FILE)


def check_dump(c, what, val, filename, add_clock):
    it = c.it
    ws = it.attr(c.world, "writers")
    if not c.r.require(len(ws) == 1, "vcd", "%s: %d dumps written" % (what, len(ws)), FILE):
        return
    w = ws[0]
    out = it.attr(w, "file")
    c.r.require(it.attr(out, "name") == filename and it.attr(out, "mode")[0] in "wx", "vcd", "%s: written to %r" % (what, it.attr(out, "name")), FILE)
    scale = str(it.attr(w, "timescale")).replace(" ", "")
    c.r.require(scale == "1ns", "vcd", "%s: time unit %s" % (what, scale), FILE)
    c.r.require(it.truth(it.attr(w, "closed")), "vcd", "%s: the dump is not completed" % what, FILE)
    vs, ch = it.attr(w, "variables"), it.attr(w, "changes")
    P = c.period * 1e9
    names = [v[1] for v in vs]
    want = sorted([n for n, _, _ in c.widths] + (["ila_clock"] if add_clock else []))
    if not c.r.require(sorted(names) == want, "vcd", "%s: variables %s, required %s" % (what, names, want), FILE):
        return
    for v in vs:
        width = dict((n, w) for n, w, _ in c.widths).get(v[1], 1)
        c.r.require(it.concrete(v[3]) == width and v[0] == "ila", "vcd", "%s: variable %s.%s has size %r, required %d" % (what, v[0], v[1], v[3], width), FILE)
    last = -1
    for v, t, x in ch:
        c.r.require(t >= int(last), "vcd", "%s: time goes backwards from %r to %r" % (what, last, t), FILE)
        last = max(t, last)
    tol = min(1, P / 4)

    def at(i, t):
        v = None
        for j, s, x in ch:
            if j == i and s <= t:
                v = x
        return v
    for k, row in enumerate(val):
        for (n, width, _), bits in zip(c.widths, row):
            for t in (k * P + tol, (k + 1) * P - tol):
                v = at(names.index(n), t)
                if v is None:
                    c.r.bad("vcd", "%s: %s has no value at sample %d" % (what, n, k), FILE)
                    continue
                h, s = it.parts(v, width)
                c.value("vcd", "%s: %s at sample %d" % (what, n, k), it.num(h[:width]), bits)
    if add_clock:
        i = names.index("ila_clock")
        for k in range(len(val) - 1):
            for t, want in ((k * P + tol, 1), (k * P + P / 2 - tol, 1), (k * P + P / 2 + tol, 0), ((k + 1) * P - tol, 0)):
                c.r.require(at(i, t) == want, "clock", "%s: clock is %r at %.1f ns, required %d" % (what, at(i, t), t, want), FILE)


def check_save(c, what, filename, dump, add_clock):
    it = c.it
    ss = it.attr(c.world, "saves")
    if not c.r.require(len(ss) == 1, "gtkw", "%s: %d save files" % (what, len(ss)), FILE):
        return
    s = ss[0]
    want = (["ila.ila_clock"] if add_clock else []) + ["ila." + n for n, _, _ in c.widths]
    c.r.require(it.attr(s, "traces") == want, "gtkw", "%s: traces %s, required %s" % (what, it.attr(s, "traces"), want), FILE)
    c.r.require(it.attr(s, "dump") == dump, "gtkw", "%s: dump file %r, required %r" % (what, it.attr(s, "dump"), dump), FILE)
    c.r.require(it.attr(it.attr(s, "file"), "name") == filename, "gtkw", "%s: written to %r" % (what, it.attr(it.attr(s, "file"), "name")), FILE)


def dump(filename, gtkw, add_clock):
    def fn(c):
        f, val = c.frontend(c.core())
        kw = {} if add_clock else {"add_clock": False}
        if gtkw:
            kw["gtkw_filename"] = gtkw
        c.m(f, "emit_vcd", filename, **kw)
        what = "emit_vcd(%r%s)" % (filename, "".join(", %s=%r" % x for x in kw.items()))
        check_dump(c, what, val, filename, add_clock)
        if gtkw:
            check_save(c, what, gtkw, filename, add_clock)
        else:
            c.r.require(c.it.attr(c.world, "saves") == [], "gtkw", "%s: save file without request" % what, FILE)
    return fn


def display(add_clock):
    def fn(c):
        f, val = c.frontend(c.core())
        c.m(f, "interactive_display", **({} if add_clock else {"add_clock": False}))
        it = c.it
        what = "interactive_display(%s)" % ("" if add_clock else "add_clock=False")
        ran, gone = it.attr(c.world, "ran"), it.attr(c.world, "removed")
        if not c.r.require(len(ran) == 1 and ran[0][0] == "gtkwave", "display", "%s: starts %s" % (what, ran), FILE):
            return
        made = list(it.attr(c.world, "files"))
        names = [a for a in ran[0] if a in made]
        if not c.r.require(len(names) == 2 and sorted(gone) == sorted(made), "display", "%s: files %s, removed %s" % (what, made, gone), FILE):
            return
        vcd = [n for n in names if it.attr(it.attr(c.world, "writers")[0], "file") is it.attr(c.world, "files")[n]]
        if c.r.require(len(vcd) == 1, "display", "%s: the viewer is not given the dump" % what, FILE):
            gtkw = [n for n in names if n != vcd[0]][0]
            check_dump(c, what, val, vcd[0], add_clock)
            check_save(c, what, gtkw, vcd[0], add_clock)
    return fn


def build(widths, depth, period):
    """what the constructor computes for these signals"""
    from hwsa import stubs
    stubs.install()
    from amaranth import Shape, Signal
    from amlib.debug.ila import AsyncSerialILA
    ila = AsyncSerialILA(signals=[Signal(Shape(w, s), name=n) for n, w, s in widths], sample_depth=depth, divisor=12, sample_rate=1 / period)
    return ila.bytes_per_sample, ila.sample_period


PARTS = [("samples", read), ("parameters", parameters)] + \
        [("dump%s%s%s" % (", stdout" if n == "-" else "", ", save" if g else "", "" if a else ", no clock"), dump(n, g, a))
         for n, g, a in (("a.vcd", None, True), ("a.vcd", "a.gtkw", True), ("a.vcd", "a.gtkw", False), ("-", None, False), ("-", None, True))] + \
        [("display", display(True)), ("display, no clock", display(False))]


def part(label, parts, widths, depth, period):
    def task(r):
        bps, per = build(widths, depth, period)
        fs, np = set(), 0
        for name, fn in parts:
            subs = []

            def run(it):
                sub = Result(name)
                c = Ctx(sub, it, widths, depth, bps, per)
                try:
                    fn(c)
                except PyExc as e:
                    sub.bad(name.split(",")[0] if name.split(",")[0] in MUST else "vcd", "%s raises %s" % (name, e), "%s:%d" % (FILE, e.loc[1]))
                subs.append(sub)
            k, f = explore(run, limit=4000, fuel=20000000)
            np += k
            fs |= {x for x in f if "models" not in x}
            for s in subs:
                for rule, cnt in s.obl.items():
                    r.ok(rule, cnt)
                for v in s.viol:
                    if not any(o["rule"] == v["rule"] and o["msg"] == v["msg"] for o in r.viol):
                        r.viol.append(v)
        r.units += sorted(fs)
        r.stats.update(functions=len(fs), partitions=np, samples=depth)
    return label, task


CONFIGS = [([("a", 1, False)], 4, 1 / 60e6), ([("a", 8, False)], 3, 1e-8), ([("a", 3, False), ("b", 6, True)], 4, 1e-8),
           ([("a", 12, True), ("b", 1, False), ("c", 4, False)], 5, 1 / 60e6), ([("a", 20, False), ("b", 13, False)], 3, 1e-6)]
MORE = [([("s%d" % i, w, i % 2 == 1) for i, w in enumerate(ws)], d, p) for ws, d, p in
        (((32,), 6, 1e-8), ((1,) * 9, 17, 1 / 48e6), ((7, 7, 7), 8, 1 / 3e6), ((5, 64, 2), 3, 1 / 100e6), ((16, 16), 33, 1 / 60e6), ((33, 31, 1), 9, 1e-3))]

DEEP = [([("a", 24, True), ("b", 3, False), ("c", 1, False)], 256, 1 / 60e6), ([("s%d" % i, i + 1, False) for i in range(16)], 40, 1 / 12e6)] + \
       [([("a", w, False), ("b", 3, True)], 3, 1e-8) for w in range(1, 41)]


def tasks(tier):
    out = []
    for ws, d, p in CONFIGS + MORE + (DEEP if tier == "thorough" else []):
        out.append(part("signals %s, depth %d, %g MHz" % ("+".join(str(w) for _, w, _ in ws), d, 1e-6 / p), PARTS, ws, d, p))
    return out
