"""C19: SPI command and register interfaces."""
from hwsa.util import *

EXPLANATION = """
Typestate analysis of the command/register interface IR with an arbitrary host: any bit timing above the minimum, aborts
at any point, extra bits after the word, any number of transactions.  Command and data words are provenance tokens
(addresses are partitioned), so command/data delivery, register contents, strobes and read-back hold for all values.
"""
ASSUMPTIONS = ["clock phases last at least the configured number of cycles, chip select is low for at least five cycles between transactions",
               "host data changes on the rising and is sampled on the falling clock edge",
               "the response is given with the command (combinationally or one cycle later) and kept for one cycle"]
MUST = ["command", "strobe", "word", "sdo", "status", "register", "register-write", "register-strobe", "register-range"]


class Host:
    """(state, phase cycles, clock, sdi, bits, sent word, pend, last complete)   state: off / cmd / data / extra"""

    def __init__(self, spi, cs, ws, h, s):
        self.spi, self.cs, self.ws, self.h, self.s = spi, cs, ws, h, s

    def init(self, flow):
        return ("off", 0, False, K(0, 1), ())

    def drive(self, o, t):
        st, cnt, clk, sdi, bits = o
        t.set(self.spi.cs, int(st != "off"))
        t.set(self.spi.sck, int(clk))
        t.set(self.spi.sdi, sdi)

    def move(self, o, t):
        """-> next host state, list of events"""
        st, cnt, clk, sdi, bits = o
        top = self.h if st != "off" else self.h + 6
        ev = []
        go = cnt >= top and t.bit(self.s["go"])
        cnt = min(cnt + 1, top)
        if st == "off" and clk and cnt >= 2:
            clk, cnt = False, 0
        elif go and st == "off":
            st, cnt, bits = "cmd", 0, ()
        elif go and t.bit(self.s["off"]):
            if st == "data" and len(bits) == 0 and not clk:
                ev.append("no-data")
            st, cnt, bits = "off", 0, ()
            ev.append("abort")
        elif go:
            clk, cnt = not clk, 0
            if clk:
                sdi = t.fresh(1, data=st != "cmd") if st != "extra" else K(0, 1)
            elif st == "extra":
                pass
            else:
                bits = bits + (sdi,)
                ev.append(("sample", st, len(bits) - 1))
                if st == "cmd" and len(bits) == self.cs:
                    ev.append(("command", cat(*reversed(bits))))
                    st, bits = "data", ()
                elif st == "data" and len(bits) == self.ws:
                    ev.append(("word", cat(*reversed(bits))))
                    st, bits = "extra", ()
        return (st, cnt, clk, sdi, bits), ev


class Command:
    def __init__(self, d, host, latency):
        self.d, self.h, self.lat = d, host, latency

    def init(self, flow):
        # host, expected events, word sent, last command, last word, respond in n cycles, quiet cycles since CS off / since word
        return (self.h.init(flow), (), None, K(0, self.h.cs), K(0, self.h.ws), None, 0, 0)

    def step(self, o, t):
        host, pend, tx, cmd, word, resp, off, full = o
        d = self.d
        self.h.drive(host, t)
        pend = list(pend)
        for name, kind, reg in (("command_ready", "command", d.command), ("word_complete", "word", d.word_received)):
            sig = getattr(d, name)
            if t.bit(sig):
                if t.require(bool(pend) and pend[0][0] == kind, "strobe", "unexpected %s" % name, sig):
                    v = pend.pop(0)[1]
                    t.same(reg, v, kind, "%s must be the %s sent by the host, MSB first" % (reg.name, kind), reg)
                    if kind == "command":
                        cmd = v
                        resp = 0
                    else:
                        word = v
        for x in pend:
            t.require(x[2] > 0, "strobe", "the complete %s is not reported" % x[0], d.command_ready if x[0] == "command" else d.word_complete)
        pend = [(a, b, c - 1) for a, b, c in pend]
        t.same(d.command, cmd, "command", "command must keep the last command", d.command)
        t.same(d.word_received, word, "word", "word_received must keep the last word", d.word_received)
        # the response: valid from the given latency after command_ready for two cycles
        if resp is not None and resp >= self.lat and tx is None:
            tx = t.fresh(self.h.ws)
        t.set(d.word_to_send, tx if tx is not None and resp is not None and resp <= self.lat + 1 else t.fresh(self.h.ws))
        if resp is not None:
            resp = resp + 1 if resp < self.lat + 1 else None
        # status
        st = host[0]
        off = min(off + 1, 5) if st == "off" else 0
        full = min(full + 1, 5) if st == "extra" else 0
        if off >= 5:
            t.same(d.idle, 1, "status", "idle must be high between transactions", d.idle)
            t.same(d.stalled, 0, "status", "stalled must be low between transactions", d.stalled)
        elif st != "off" and host[1] >= 3:
            t.same(d.idle, 0, "status", "idle must be low during a transaction", d.idle)
            if st != "extra":
                t.same(d.stalled, 0, "status", "stalled must be low while data is accepted", d.stalled)
            elif full >= 5:
                t.same(d.stalled, 1, "status", "stalled must be high until the end of a complete transaction", d.stalled)
        host, ev = self.h.move(host, t)
        for e in ev:
            if e[0] == "sample" and e[1] == "data":
                if t.require(tx is not None, "strobe", "no command_ready before the data phase", d.command_ready):
                    n = self.h.ws - 1 - e[2]
                    t.same(d.spi.sdo, tx[n], "sdo", "bit %d of the response must be on sdo at the sampling edge" % n, d.spi.sdo)
            elif e[0] in ("command", "word"):
                pend.append((e[0], e[1], self.h.h if e[0] == "word" else 3))
            elif e == "abort":
                pass
        if host[0] != "data":
            if host[0] in ("off", "extra", "cmd") and resp is None:
                tx = None
        return (host, tuple(pend), tx, cmd, word, resp, off, full)


def command(cs, ws, h, lat):
    name = "command interface %d/%d bits, phases of %d, response after %d" % (cs, ws, h, lat)

    def task(r):
        from amlib.io.spi import SPICommandInterface

        def mk():
            d = SPICommandInterface(command_size=cs, word_size=ws)
            d.v_s = {n: Signal(name=n) for n in ("go", "off")}
            return d

        def spec(d):
            ins = [(n, x, "c") for n, x in d.v_s.items()]
            ins += ports(("x", "sck", d.spi.sck), ("x", "cs", d.spi.cs), ("x", "sdi", d.spi.sdi), ("x", "word_to_send", d.word_to_send))
            return ins, Command(d, Host(d.spi, cs, ws, h, d.v_s), lat), dict(must=["command", "strobe", "word", "sdo", "status"])
        flow_task(r, mk, spec, config=name)
    return name, task


class Registers:
    """register map: address -> dict(kind, ...)"""

    def __init__(self, d, host, regs, default, aw):
        self.d, self.h, self.regs, self.default, self.aw = d, host, regs, default, aw

    def init(self, flow):
        return (self.h.init(flow), None, None, (), tuple(K(g["reset"], g["width"]) for g in self.regs if g["kind"] == "rw"), (0, 0))

    def step(self, o, t):
        host, acc, tx, pend, vals, (off, full) = o
        d, ws = self.d, self.h.ws
        self.h.drive(host, t)
        vals = list(vals)
        pend = list(pend)
        # strobes: exactly one cycle per complete transaction, for the addressed register only
        k = 0
        fired = False
        written = None
        for g in self.regs:
            for kind, key in (("read", "rs"), ("write", "ws")):
                sig = g.get(key)
                if sig is None:
                    continue
                if t.bit(sig):
                    fired = True
                    if t.require(bool(pend) and pend[0][0] == kind and pend[0][1] == g["addr"], "register-strobe",
                                 "unexpected %s strobe of register %d" % (kind, g["addr"]), sig):
                        if kind == "write" and g.get("wsig") is not None:
                            t.same(g["wsig"], ir_trunc(pend[0][2], g["width"]), "register-write", "the write signal must carry the written word at the strobe", g["wsig"])
            if g["kind"] == "rw":
                t.same(g["sig"], vals[k], "register", "register %d must hold the value written last" % g["addr"], g["sig"])
                k += 1
        off = min(off + 1, 5) if host[0] == "off" else 0
        full = min(full + 1, 5) if host[0] == "extra" else 0
        if off >= 5:
            t.same(d.idle, 1, "status", "idle must be high between transactions", d.idle)
            t.same(d.stalled, 0, "status", "stalled must be low between transactions", d.stalled)
        elif host[0] != "off" and host[1] >= 3:
            t.same(d.idle, 0, "status", "idle must be low during a transaction", d.idle)
            if host[0] != "extra":
                t.same(d.stalled, 0, "status", "stalled must be low while data is accepted", d.stalled)
            elif full >= 5:
                t.same(d.stalled, 1, "status", "stalled must be high until the end of a complete transaction", d.stalled)
        if pend:
            g = self.find(pend[0][1])
            kind = pend[0][0]
            has = g is not None and g.get("rs" if kind == "read" else "ws") is not None
            done = fired if has else pend[0][3] == 0
            if has:
                t.require(fired or pend[0][3] > 0, "register-strobe", "the %s strobe of register %d does not come" % (kind, pend[0][1]), d.spi.sdi)
            if g is not None and g["kind"] == "rw" and kind == "write" and g.get("ws") is None:
                # without a strobe the register itself tells when the write happened
                i = [x["addr"] for x in self.regs if x["kind"] == "rw"].index(g["addr"])
                raise AssertionError("rw registers of the analysis have a strobe")
            if done:
                kind, a, w, _ = pend.pop(0)
                if g is not None and g["kind"] == "rw" and kind == "write":
                    i = [x["addr"] for x in self.regs if x["kind"] == "rw"].index(a)
                    vals[i] = ir_trunc(w, g["width"])
            else:
                pend[0] = pend[0][:3] + (pend[0][3] - 1,)
        # values that the core offers for reading change at any time except while they are latched
        if acc is not None and tx is None:
            g = self.find(acc[1])
            if g is None or g.get("value", 0) is None:
                tx = K(self.default, ws)
            elif g["kind"] == "const":
                tx = K(g["value"], ws)
            elif g["kind"] == "rw":
                i = [x["addr"] for x in self.regs if x["kind"] == "rw"].index(acc[1])
                tx = cat(vals[i], K(0, ws - g["width"])) if g["width"] < ws else vals[i]
            else:
                v = t.fresh(g["width"])
                tx = cat(v, K(0, ws - g["width"])) if g["width"] < ws else v
        for g in self.regs:
            if g["kind"] == "in":
                same = acc is not None and acc[1] == g["addr"] and tx is not None
                t.set(g["sig"], V(tx[:g["width"]].raw, g["width"]) if same else t.fresh(g["width"]))
        host, ev = self.h.move(host, t)
        for e in ev:
            if e[0] == "sample" and e[1] == "data":
                n = ws - 1 - e[2]
                t.same(d.spi.sdo, tx[n], "sdo", "bit %d of the addressed register (or the default value) must be on sdo" % n, d.spi.sdo)
            elif e[0] == "command":
                v = e[1]
                acc, tx = (t.decide(v[self.aw]), t.int(v[:self.aw])), None
            elif e[0] == "word":
                t.require(not pend, "register-strobe", "the previous access is not finished", d.spi.sdi)
                pend.append(("write" if acc[0] else "read", acc[1], e[1], self.h.h))
        if host[0] not in ("data", "extra"):
            acc = tx = None
        return (host, acc, tx, tuple(pend), tuple(vals), (off, full))

    def find(self, a):
        return next((g for g in self.regs if g["addr"] == a), None)


def ir_trunc(v, w):
    return v[:w] if v.w > w else v


def registers(name, aw, ws, h, default, auto, build):
    def task(r):
        from amlib.io.spi import SPIRegisterInterface

        def mk():
            d = SPIRegisterInterface(address_size=aw, register_size=ws, default_read_value=default, support_size_autonegotiation=auto)
            regs = build(d)
            if auto:
                regs.append(dict(addr=0, kind="const", value=-1, width=ws))
            m = Module()
            m.submodules.dut = d
            hn = Harness(m)
            hn.regs, hn.dut, hn.spi, hn.idle, hn.stalled = regs, d, d.spi, d.idle, d.stalled
            hn.v_s = {n: Signal(name=n) for n in ("go", "off")}
            return hn

        def spec(d):
            ins = [(n, x, "c") for n, x in d.v_s.items()]
            ins += ports(("x", "sck", d.spi.sck), ("x", "cs", d.spi.cs), ("x", "sdi", d.spi.sdi))
            ins += [("reg%d" % g["addr"], g["sig"], "x") for g in d.regs if g["kind"] == "in"]
            must = ["sdo", "status"]
            if any(g["kind"] == "rw" for g in d.regs):
                must += ["register", "register-strobe"]
            return ins, Registers(d, Host(d.spi, aw + 1, ws, h, d.v_s), d.regs, default, aw), dict(must=must)
        flow_task(r, mk, spec, config=name)
    return name, task


def typical(d):
    s = lambda n, w=1: Signal(w, name=n)
    regs = []
    g = dict(addr=2, kind="rw", width=4, reset=5, ws=s("ws2"), rs=s("rs2"))
    g["sig"] = d.add_register(2, size=4, reset=5, write_strobe=g["ws"], read_strobe=g["rs"])
    regs.append(g)
    g = dict(addr=1, kind="in", width=4, sig=s("status", 4), rs=s("rs1"))
    d.add_read_only_register(1, read=g["sig"], read_strobe=g["rs"])
    regs.append(g)
    g = dict(addr=3, kind="wo", width=4, value=None, ws=s("ws3"), wsig=s("w3", 4))
    d.add_sfr(3, write_signal=g["wsig"], write_strobe=g["ws"])
    regs.append(g)
    return regs


def small(d):
    g = dict(addr=1, kind="rw", width=2, reset=0, ws=Signal(name="ws1"))
    g["sig"] = Signal(2, name="store")
    d.add_register(1, value_signal=g["sig"], write_strobe=g["ws"])
    return [g, const(d)]


def const(d):
    d.add_sfr(0, read=6)
    return dict(addr=0, kind="const", value=6, width=3)


def rejects(r):
    from amlib.io.spi import SPIRegisterInterface as R

    def attempt(fn, what):
        try:
            fn()
        except (ValueError, AssertionError):
            r.ok("register-range")
        else:
            r.bad("register-range", "%s is accepted" % what, "amlib/io/spi.py")
    d = R(address_size=3, register_size=8)
    d.add_register(1)
    attempt(lambda: d.add_register(1), "a second register with the same address")
    attempt(lambda: d.add_sfr(1, read=0), "a special function register on a used address")
    attempt(lambda: d.add_read_only_register(0, read=1), "a register on the auto-negotiation address")
    attempt(lambda: d.add_sfr(8, read=0), "an address outside the address range")
    attempt(lambda: d.add_register(8), "a register address outside the address range")


def tasks(tier):
    cfg = [(3, 4, 3, 0), (4, 2, 4, 1), (2, 5, 3, 1), (8, 8, 4, 0), (1, 1, 3, 0), (8, 32, 3, 1), (16, 16, 4, 0), (5, 9, 6, 1)]
    if tier == "thorough":
        cfg += [(24, 8, 3, 0), (7, 33, 4, 2), (32, 17, 3, 1)]
    ts = [command(*c) for c in cfg]
    ts += [registers("register interface, typical map", 2, 4, 3, 9, True, typical),
           registers("register interface, no auto-negotiation", 2, 3, 4, 0, False, small),
           registers("register interface, empty", 2, 3, 3, 5, False, lambda d: []),
           ("register addresses", rejects),
           registers("register interface, 5 bit registers", 2, 5, 3, 9, True, typical)]
    if tier == "thorough":
        ts += [registers("register interface, larger map", 3, 5, 3, 33, True, typical)]
    return ts
