"""C23: seven segment and bar displays."""
from hwsa.util import *

EXPLANATION = """
Data-flow analysis of the display encoders' IR: every output bit is computed as a Boolean function of the input bits
(provenance domain, so all numbers are covered at once) and compared with the function the property defines: segment
patterns of the sixteen hex digits (segments a..g are bits 6..0), and a bar whose n-th bit is set exactly from the n-th
threshold on.
"""
ASSUMPTIONS = ["NumberToBitBar has at least three output bits and maxvalue > minvalue"]
MUST = ["digit", "distinct", "dot", "number", "bar"]

# segments lit for each hex digit (a top, b/c right, d bottom, e/f left, g middle)
SEGMENTS = ["abcdef", "bc", "abdeg", "abcdg", "bcfg", "acdfg", "acdefg", "abc", "abcdefg", "abcdfg",
            "abcefg", "cdefg", "adef", "bcdeg", "adefg", "aefg"]
PATTERN = [sum(1 << (6 - "abcdefg".index(c)) for c in s) for s in SEGMENTS]


def is_value(t, v, c):
    """node: v == c"""
    n = 1
    for i in range(v.w):
        b = t.node(v[i])
        n = t.m.AND(n, b if c >> i & 1 else t.m.NOT(b))
    return n


def at_least(t, v, c):
    """node: v >= c (unsigned)"""
    if c <= 0:
        return 1
    if c >> v.w:
        return 0
    n = 1
    for i in range(v.w):
        b = t.node(v[i])
        n = t.m.AND(b, n) if c >> i & 1 else t.m.OR(b, n)
    return n


def bit(n):
    return V((n,) if n > 1 else n, 1)


def pattern(t, nibble):
    out = []
    for k in range(7):
        n = 0
        for d in range(16):
            if PATTERN[d] >> k & 1:
                n = t.m.OR(n, is_value(t, nibble, d))
        out.append(bit(n))
    return cat(*out)


def nibble(r):
    from amlib.io.led import NibbleToSevenSegmentHex

    def spec(d):
        def fn(t):
            v = t.val(d.nibble_in)
            t.same(d.seven_segment_out[0:7], pattern(t, v), "digit", "the segments must show the hexadecimal digit", d.seven_segment_out)
            t.same(d.seven_segment_out[7], 0, "dot", "the dot must be off", d.seven_segment_out)
        return ports(("d", "nibble", d.nibble_in)), Stateless(fn), dict(must=["digit", "dot"])
    flow_task(r, NibbleToSevenSegmentHex, spec, config="nibble")
    r.require(len(set(PATTERN)) == 16, "distinct", "segment table of the analysis")


def number(width, register, digit=None):
    """digit: only this digit varies, the others are held (keeps registered functions small)"""
    name = "%d bit number%s" % (width, ", registered, digit %d" % digit if register else "")

    def task(r):
        from amlib.io.led import NumberToSevenSegmentHex
        n = width // 4

        def mk():
            d = NumberToSevenSegmentHex(width=width, register=register)
            d.v_n, d.v_d = Signal(4, name="nibble"), Signal(name="dot")
            return d

        def spec(d):
            def want(v, dots, t):
                return cat(*[x for i in range(n) for x in (pattern(t, v[4 * i:4 * i + 4]), dots[i])])

            def comb(t):
                t.same(d.seven_segment_out, want(t.val(d.number_in), t.val(d.dots_in), t), "number", "every digit must show its nibble and dot", d.seven_segment_out)

            def reg(o, t):
                if o is not None:
                    t.same(d.seven_segment_out, o, "number", "every digit must show its nibble and dot of one cycle ago", d.seven_segment_out)
                v = cat(*[t.val(d.v_n) if i == digit else K((i * 5 + 3) % 16, 4) for i in range(n)])
                dots = cat(*[t.val(d.v_d) if i == digit else K(i & 1, 1) for i in range(n)])
                t.set(d.number_in, v)
                t.set(d.dots_in, dots)
                return want(v, dots, t)
            if register:
                return ports(("d", "nibble", d.v_n), ("d", "dot", d.v_d), ("x", "number", d.number_in), ("x", "dots", d.dots_in)), Auto(None, reg), dict(must=["number"])
            return ports(("d", "number", d.number_in), ("d", "dots", d.dots_in)), Stateless(comb), dict(must=["number"])
        flow_task(r, mk, spec, config=name)
    return name, task


def bar(lo, hi, bits):
    name = "bar of %d bits for %d..%d" % (bits, lo, hi)

    def task(r):
        from amlib.io.led import NumberToBitBar

        def mk():
            return NumberToBitBar(minvalue_in=lo, maxvalue_in=hi, bitwidth_out=bits)

        def spec(d):
            step = (hi - lo) // (bits - 2)

            def init_step(o, t):
                if o is not None:
                    t.same(d.bitbar_out, o, "bar", "bit n of the bar must be set exactly from its threshold on", d.bitbar_out)
                v = t.val(d.value_in)
                # empty up to the minimum, one more bit per step, full from the maximum on
                out = []
                for n in range(bits):
                    if n == bits - 1:
                        x = at_least(t, v, hi)
                    else:
                        x = t.m.AND(at_least(t, v, lo + n * step), at_least(t, v, lo + 1))
                        x = t.m.OR(x, at_least(t, v, hi))
                    out.append(bit(x))
                return cat(*out)
            r.require((1 << len(d.value_in)) > hi, "bar", "value_in cannot represent the maximum value", "amlib/io/led.py NumberToBitBar.value_in")
            return ports(("d", "value", d.value_in)), Auto(None, init_step), dict(must=["bar"])
        flow_task(r, mk, spec, config=name)
    return name, task


def tasks(tier):
    nums = [(4, False), (8, False), (12, False), (32, False), (64, False)] + [(w, True, i) for w in (4, 16, 32) for i in range(w // 4)]
    bars = [(0x10, 0x82, 8), (0, 64, 8), (3, 20, 5), (0, 256, 16), (1, 7, 3), (100, 1024, 10), (0, 256, 24), (5, 300, 33)]
    if tier == "thorough":
        nums += [(128, False)] + [(w, True, i) for w in (8, 12, 64) for i in range(w // 4)]
        bars += [(lo, hi, n) for lo in (0, 1, 5) for hi in (15, 16, 17, 31, 40, 63, 64, 65) for n in (3, 4, 7, 8, 10)]
        bars += [(1000, 30000, 12), (0, 4096, 20)]
    return [("hex digit", nibble)] + [number(*c) for c in nums] + [bar(*c) for c in bars]
