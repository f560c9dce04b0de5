"""C37: peripheral bridge and SoC composition."""
import sys

from hwsa.util import *
from hwsa import stubs, ir

EXPLANATION = """
Structural analysis of the design graph the library builds (objects, bus and memory map construction, elaborated
hierarchy) and data-flow analysis of the connecting statements in the SoC's IR.
"""
ASSUMPTIONS = ["amaranth_soc, lambdasoc and minerva objects as documented (hwsa/stubs.py)"]
MUST = ["registers", "windows", "events", "hierarchy", "rejects", "soc-map", "soc-irq", "soc-bus", "soc-hierarchy"]
W = "amlib/soc/peripheral.py"
S = "amlib/soc/simplesoc.py"


def bridges(r):
    stubs.install()
    from amlib.soc.peripheral import Peripheral
    from amlib.soc.event import InterruptSource

    class P(Peripheral, Elaboratable):
        def __init__(self, banks, windows, events, **bridge):
            super().__init__(name="per")
            self.v_regs, self.v_windows, self.v_events = [], [], []
            for b, (ba, bal, regs) in enumerate(banks):
                bank = self.csr_bank(addr=ba, alignment=bal)
                for i, (w, acc, addr, al) in enumerate(regs):
                    self.v_regs.append((bank.csr(w, acc, addr=addr, alignment=al, name="r%d_%d" % (b, i)), b, w, acc, addr))
            for aw, addr in windows:
                x = self.window(addr_width=aw, data_width=bridge["data_width"], granularity=bridge["granularity"], addr=addr)
                x.memory_map._frozen = False
                x.memory_map.add_resource(x, size=1 << x.memory_map.addr_width, name="w")
                x.memory_map.freeze()
                self.v_windows.append((x, aw, addr))
            for i, mode in enumerate(events):
                self.v_events.append(self.event(mode=mode, name="e%d" % i))
            self.v_bridge = self.bridge(**bridge)
            self.bus = self.v_bridge.bus
            if events:
                self.irq = self.v_bridge.irq

        def elaborate(self, platform):
            m = Module()
            m.submodules.bridge = self.v_bridge
            return m

    full = dict(data_width=32, granularity=8, alignment=2)
    cases = [
        ("one bank", [(None, None, [(8, "r", None, None), (1, "w", None, None), (20, "rw", None, None)])], [], [], full),
        ("events", [(None, None, [(8, "rw", None, None)])], [], ["level", "rise", "fall"], full),
        ("two banks, addresses", [(0x40, None, [(8, "r", 8, None), (16, "w", 0x10, None)]), (0x80, 4, [(32, "rw", None, 3), (4, "r", None, None)])], [], ["rise"], full),
        ("windows", [(None, None, [(8, "r", None, None)])], [(4, None), (2, 0x100)], [], full),
        ("events only", [], [], ["fall"], full),
        ("bytes", [(None, None, [(8, "r", None, None), (12, "rw", None, None)])], [], ["level"], dict(data_width=8, granularity=8, alignment=0)),
    ]
    for name, banks, windows, events, bridge in cases:
        p = build(lambda: P(banks, windows, events, **bridge))
        mm = p.bus.memory_map
        infos = list(mm.all_resources())
        at = lambda res: [(i.start, i.end) for i in infos if i.resource is res]
        align = 1 << bridge["alignment"]
        seen = []
        for el, b, w, acc, addr in p.v_regs:
            pos = at(el)
            if not r.require(len(pos) == 1, "registers", "%s: a requested register is mapped %d times" % (name, len(pos)), W):
                continue
            s, e = pos[0]
            r.require(el.width == w and el.access.text == acc, "registers", "%s: width or access of a register are lost" % name, W)
            r.require((e - s) * 8 >= w and s % align == 0, "registers", "%s: a register is too small or not aligned" % name, W)
            base = banks[b][0]
            if base is not None and addr is not None:
                r.require(s == base + addr, "registers", "%s: a register requested at 0x%x is at 0x%x" % (name, base + addr, s), W)
            if base is not None:
                r.require(base <= s, "registers", "%s: a bank is not at its address" % name, W)
            if banks[b][2][int(el.v_name.rsplit("_", 1)[1])][3] is not None:
                r.require(s % (1 << banks[b][2][int(el.v_name.rsplit("_", 1)[1])][3]) == 0, "registers", "%s: the alignment of a register is lost" % name, W)
            seen.append((s, e))
        for x, aw, addr in p.v_windows:
            pos = at(x)
            if r.require(len(pos) == 1, "windows", "%s: a requested window is mapped %d times" % (name, len(pos)), W):
                r.require(pos[0][1] - pos[0][0] == (1 << aw) * (bridge["data_width"] // bridge["granularity"]), "windows", "%s: a window has the wrong size" % name, W)
                if addr is not None:
                    r.require(pos[0][0] == addr, "windows", "%s: a window is not at its address" % name, W)
                seen.append(pos[0])
        r.require(p.bus.data_width == bridge["data_width"] and p.bus.granularity == bridge["granularity"], "registers", "%s: the bus has the wrong geometry" % name, W)
        ev = [i for i in infos if not any(i.resource is x[0] for x in p.v_regs) and not any(i.resource is x[0] for x in p.v_windows)]
        if events:
            got = [(i.resource.width, i.resource.access.text) for i in ev]
            r.require(got == [(len(events), "r"), (len(events), "rw"), (len(events), "rw")], "events",
                      "%s: status, pending and enable registers must follow, found %r" % (name, got), W)
            r.require(isinstance(p.irq, stubs.IRQLine), "events", "%s: no interrupt line" % name, W)
            seen += [(i.start, i.end) for i in ev]
        else:
            r.require(not ev, "registers", "%s: unrequested registers are mapped" % name, W)
            try:
                p.irq
                r.bad("events", "%s: an interrupt line without events" % name, W)
            except NotImplementedError:
                r.ok("events")
        seen.sort()
        r.require(all(a[1] <= b[0] for a, b in zip(seen, seen[1:])), "registers", "%s: registers or windows overlap" % name, W)
        # the elaborated hierarchy: every multiplexer, bridge and decoder exactly once; the interrupt line is driven by the events
        flat = ir.Flat(p)
        driven = set(flat.comb) | set(flat.sync)
        dec = p.bus.v_decoder
        parts = [dec]
        for sub in dec.v_subs:
            if hasattr(sub[0], "v_bridge"):
                parts += [sub[0].v_bridge, sub[0].v_bridge.v_mux]
        for x in parts:
            r.require(x.v_elaborated == 1, "hierarchy", "%s: a %s is elaborated %d times" % (name, type(x).__name__, x.v_elaborated), W)
        if events:
            r.require(id(p.irq) in driven, "hierarchy", "%s: the interrupt line is not driven" % name, W)

    def attempt(exc, fn, what):
        try:
            fn()
        except exc:
            r.ok("rejects")
        else:
            r.bad("rejects", "%s is accepted" % what, W)

    def bad_bus():
        p = P([], [], ["level"], **full)
        p.bus = object()

    def bad_irq():
        p = P([], [], ["level"], **full)
        p.irq = object()
    attempt(TypeError, bad_bus, "a bus that is none")
    attempt(TypeError, bad_irq, "an interrupt line that is none")
    attempt(TypeError, lambda: Peripheral(name=5), "a name that is no string")
    attempt(NotImplementedError, lambda: Peripheral(name="x").bus, "reading the bus of a peripheral without one")
    attempt(ValueError, lambda: P([(0x40, None, [(8, "r", None, None)]), (0x40, None, [(8, "r", None, None)])], [], [], **full), "two banks at one address")


def soc(r):
    stubs.install()
    from amlib.soc.simplesoc import SimpleSoC
    from amlib.soc.memory import WishboneRAM, WishboneROM

    class Dev(stubs.SimplePeriph):
        name = "dev"

    class Mute(stubs.SimplePeriph):
        def __init__(self):
            super().__init__()
            del self.irq

    for variant in range(3):
        devs = [Dev(), Mute(), Dev(), Dev()]

        def mk():
            s = SimpleSoC(clock_frequency=1000000)
            s.v_rom = s.add_rom(b"\x01\x02\x03\x04", 0x4000)
            s.v_ram = s.add_ram(0x4000, addr=0x4000 if variant else None)
            s.v_ret = [s.add_peripheral(d, addr=0x10000 * (i + 1)) if variant == 1 else s.add_peripheral(d) for i, d in enumerate(devs)]
            return s
        s = build(mk)
        mm = s.bus_decoder.bus.memory_map
        infos = list(mm.all_resources())
        parts = [s.v_rom, s.v_ram] + devs
        r.require(all(a is b for a, b in zip(s.v_ret, devs)), "soc-map", "add_peripheral must return the peripheral", S)
        seen = []
        for i, p in enumerate(parts):
            pos = [(x.start, x.end) for x in infos if x.resource is p]
            if r.require(len(pos) == 1, "soc-map", "an added peripheral is mapped %d times" % len(pos), S):
                seen.append(pos[0])
                if i < 2:
                    r.require(pos[0][1] - pos[0][0] == 0x4000, "soc-map", "a memory of 0x4000 bytes occupies 0x%x" % (pos[0][1] - pos[0][0]), S)
                if i == 0:
                    r.require(pos[0][0] == 0, "soc-map", "the ROM is not at its address", S)
                if i == 1 and variant:
                    r.require(pos[0][0] == 0x4000, "soc-map", "the RAM is not at its address", S)
                if i >= 2 and variant == 1:
                    r.require(pos[0][0] == 0x10000 * (i - 1), "soc-map", "a peripheral is not at its address", S)
        seen.sort()
        r.require(all(a[1] <= b[0] for a, b in zip(seen, seen[1:])), "soc-map", "peripherals overlap", S)
        r.require(s.v_rom.read_only and not s.v_ram.read_only, "soc-map", "the ROM must be read-only and the RAM writable", S)
        res = [(x.resource, a, n) for x, a, n in build(lambda: list(s.resources()))]
        r.require([(a, a + n) for _, a, n in sorted(res, key=lambda x: x[1])] == seen and all(any(x is p for p in parts) for x, _, _ in res), "soc-map",
                  "resources() must list every resource with its address and size", S)
        lines = [s.intc.v_lines.get(i) for i in range(3)]
        want = [d.irq for d in devs if hasattr(d, "irq")]
        r.require(len(s.intc.v_lines) == 3 and all(a is b for a, b in zip(lines, want)), "soc-irq",
                  "the interrupt lines must be connected with the indices 0, 1, 2 in the order of addition", S)
        # elaborated design
        arbs = []

        class Arb(stubs.Arbiter):
            def __init__(self, **kw):
                super().__init__(**kw)
                arbs.append(self)
        wb = sys.modules["amaranth_soc.wishbone"]
        wb.Arbiter, keep = Arb, wb.Arbiter
        try:
            m = build(lambda: s.elaborate(None))
        finally:
            wb.Arbiter = keep
        if not r.require(len(arbs) == 1, "soc-bus", "there is no bus arbiter", S):
            continue
        arb = arbs[0]
        r.require(sorted(map(id, arb.v_masters)) == sorted([id(s.cpu.ibus), id(s.cpu.dbus)]), "soc-bus", "the arbiter must serve the instruction and the data bus", S)
        wires(r, s, arb.bus, Harness(m))
        for x in [s.cpu, s.bus_decoder, s.intc, arb] + devs:
            r.require(x.v_elaborated == 1, "soc-hierarchy", "a %s is elaborated %d times" % (type(x).__name__, x.v_elaborated), S)


def bios(r):
    stubs.install()
    from amlib.soc.simplesoc import SimpleSoC
    for fixed in (True, False):
        def mk():
            s = SimpleSoC(clock_frequency=1000000)
            s.add_bios_and_peripherals(uart_pins=None, uart_baud_rate=10000, fixed_addresses=fixed)
            s.v_ram = s.add_ram(0x1000)
            return s
        s = build(mk)
        infos = list(s.bus_decoder.bus.memory_map.all_resources())
        parts = [s.bootrom._mem, s.scratchpad._mem, s.timer, s.uart, s.v_ram]
        pos = [[(x.start, x.end) for x in infos if x.resource is p] for p in parts]
        r.require(all(len(p) == 1 for p in pos), "soc-map", "every BIOS peripheral must be mapped once", S)
        if fixed:
            r.require([p[0][0] for p in pos[:4]] == [0, 0x10000, 0x20000, 0x30000], "soc-map", "fixed addresses are not kept", S)
        flat = sorted(p[0] for p in pos)
        r.require(all(a[1] <= b[0] for a, b in zip(flat, flat[1:])), "soc-map", "BIOS peripherals overlap", S)
        r.require(not s.bootrom.writable and s.scratchpad.writable, "soc-map", "the boot ROM must be read-only and the scratchpad writable", S)
        r.require(s.intc.v_lines.get(0) is s.timer.irq and s.intc.v_lines.get(1) is s.uart.irq and len(s.intc.v_lines) == 2, "soc-irq",
                  "timer and UART must have the interrupt lines 0 and 1", S)
        for omit in (True, False):
            got = build(lambda: [x.resource for x, a, n in s.resources(omit_bios_mem=omit)])
            want = parts[2:] if omit else parts
            r.require(len(got) == len(want) and all(any(x is y for y in want) for x in got), "soc-map",
                      "resources(omit_bios_mem=%s) must list every resource%s" % (omit, " except the BIOS memories" if omit else ""), S)


def wires(r, s, b, hn):
    """arbiter -> decoder bus and interrupt controller -> CPU, as functions of the IR"""
    d = s.bus_decoder.bus
    prs = [(b[f], d[f]) for f in ("adr", "dat_w", "sel", "cyc", "stb", "we", "cti", "bte")] + [(d[f], b[f]) for f in ("dat_r", "ack")] + [(s.intc.ip, s.cpu.ip)]

    def spec(dut):
        inp = [("in%d" % i, x, "d") for i, (x, y) in enumerate(prs)]
        for i, mem in enumerate((s.v_rom, s.v_ram)):
            inp += [("mem%d_%s" % (i, f), mem.bus[f], "k:0") for f in ("adr", "dat_w", "sel", "cyc", "stb", "we")]

        def fn(t):
            for x, y in prs:
                t.same(y, t.val(x), "soc-bus", "`%s` must follow `%s`" % (y.name, x.name), y)
        return inp, Stateless(fn), dict(must=["soc-bus"])
    flow_task(r, lambda: hn, spec, config="bus wiring")


def tasks(tier):
    return [("peripheral bridges", bridges), ("simple SoC", soc), ("BIOS", bios)]
