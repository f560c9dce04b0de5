"""Interface models of the packages amlib.soc / amlib.debug / amlib.stream.uart import and this sandbox lacks
(amaranth_soc, lambdasoc, minerva).

They provide the documented constructors and signal layouts and the address allocation of memory maps, and record
what the library builds out of them; the third-party hardware itself (CSR multiplexer, bus decoder, CPU) is an empty
module, so its outputs are free inputs of the analysis: the library's part is analysed for all their behaviours.
"""
import sys
import types

from amaranth import Elaboratable, Module, Record, Signal
from amaranth.hdl.rec import DIR_FANIN, DIR_FANOUT


def log2c(n):
    return (n - 1).bit_length()


class Access:
    def __init__(self, text):
        if text not in ("r", "w", "rw"):
            raise ValueError("invalid access mode %r" % (text,))
        self.text = text

    def readable(self):
        return "r" in self.text

    def writable(self):
        return "w" in self.text


class Element(Record):
    def __init__(self, width, access, *, name=None, src_loc_at=0):
        if not isinstance(width, int) or width < 0:
            raise ValueError("width must be a non-negative integer")
        self.width = width
        self.access = access if isinstance(access, Access) else Access(access)
        lay = []
        if self.access.readable():
            lay += [("r_data", width), ("r_stb", 1)]
        if self.access.writable():
            lay += [("w_data", width), ("w_stb", 1)]
        super().__init__(lay, name=name, src_loc_at=1 + src_loc_at)
        self.v_name = name


class ResourceInfo:
    def __init__(self, resource, name, start, end, width):
        self.resource, self.name, self.start, self.end, self.width = resource, name, start, end, width


class MemoryMap:
    """address allocation as documented: first free aligned address, or the given one; overlaps are rejected"""

    def __init__(self, *, addr_width, data_width, alignment=0, name=None):
        if not isinstance(addr_width, int) or addr_width <= 0 or not isinstance(data_width, int) or data_width <= 0:
            raise ValueError("widths must be positive integers")
        self.addr_width, self.data_width, self.alignment, self.name = addr_width, data_width, alignment, name
        self._frozen = False
        self._items = []        # start, end, kind, object, name, ratio
        self._next = 0

    def freeze(self):
        self._frozen = True

    def align_to(self, alignment):
        a = 1 << max(alignment, self.alignment)
        self._next = -(-self._next // a) * a
        return self._next

    def _place(self, addr, size, alignment, extend):
        if self._frozen:
            raise ValueError("memory map is frozen")
        a = 1 << max(alignment or 0, self.alignment)
        if addr is None:
            addr = -(-self._next // a) * a
        elif addr % a:
            raise ValueError("address 0x%x is not aligned to 0x%x" % (addr, a))
        size = -(-size // a) * a
        if addr + size > 1 << self.addr_width:
            if not extend:
                raise ValueError("0x%x..0x%x is out of bounds for an address width of %d" % (addr, addr + size, self.addr_width))
            self.addr_width = log2c(addr + size)
        for s, e, *_ in self._items:
            if addr < e and s < addr + size:
                raise ValueError("0x%x..0x%x overlaps 0x%x..0x%x" % (addr, addr + size, s, e))
        self._next = addr + size
        return addr, addr + size

    def add_resource(self, resource, *, size, name=None, addr=None, alignment=None, extend=False):
        s, e = self._place(addr, size, alignment, extend)
        self._items.append((s, e, "resource", resource, name, 1))
        return s, e

    def add_window(self, window, *, addr=None, sparse=None, extend=False):
        if window.data_width > self.data_width or (not sparse and self.data_width % window.data_width):
            raise ValueError("window data width does not fit")
        ratio = 1 if sparse else self.data_width // window.data_width
        size = max(1, (1 << window.addr_width) // ratio)
        s, e = self._place(addr, size, log2c(size), extend)
        window.freeze()
        self._items.append((s, e, "window", window, window.name, ratio))
        return s, e, ratio

    def resources(self):
        for s, e, k, o, n, r in sorted(self._items, key=lambda i: i[0]):
            if k == "resource":
                yield o, (s, e)

    def windows(self):
        for s, e, k, o, n, r in sorted(self._items, key=lambda i: i[0]):
            if k == "window":
                yield o, (s, e, r)

    def all_resources(self):
        for s, e, k, o, n, r in sorted(self._items, key=lambda i: i[0]):
            if k == "resource":
                yield ResourceInfo(o, (n,) if isinstance(n, str) else tuple(n or ()), s, e, self.data_width)
            else:
                for i in o.all_resources():
                    yield ResourceInfo(i.resource, ((n,) if n else ()) + i.name, s + i.start // r, s + i.end // r, self.data_width)

    def find_resource(self, resource):
        for i in self.all_resources():
            if i.resource is resource:
                return i
        raise KeyError(resource)


FEATURES = {"rty", "err", "stall", "lock", "cti", "bte"}


class Interface(Record):
    """Wishbone bus"""

    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), alignment=0, name=None, src_loc_at=0):
        if not isinstance(addr_width, int) or addr_width < 0:
            raise ValueError("address width must be a non-negative integer, not %r" % (addr_width,))
        if data_width not in (8, 16, 32, 64):
            raise ValueError("data width must be one of 8, 16, 32, 64, not %r" % (data_width,))
        if granularity is None:
            granularity = data_width
        if granularity not in (8, 16, 32, 64) or granularity > data_width:
            raise ValueError("invalid granularity %r" % (granularity,))
        if set(features) - FEATURES:
            raise ValueError("unknown features %r" % (set(features) - FEATURES,))
        self.addr_width, self.data_width, self.granularity, self.features = addr_width, data_width, granularity, set(features)
        self._map = None
        lay = [("adr", addr_width, DIR_FANOUT), ("dat_w", data_width, DIR_FANOUT), ("dat_r", data_width, DIR_FANIN),
               ("sel", data_width // granularity, DIR_FANOUT), ("cyc", 1, DIR_FANOUT), ("stb", 1, DIR_FANOUT), ("we", 1, DIR_FANOUT), ("ack", 1, DIR_FANIN)]
        lay += [(f, {"cti": 3, "bte": 2}.get(f, 1), DIR_FANOUT if f in ("lock", "cti", "bte") else DIR_FANIN) for f in sorted(features)]
        super().__init__(lay, name=name, src_loc_at=1 + src_loc_at)

    @property
    def memory_map(self):
        if self._map is None:
            raise AttributeError("bus interface does not have a memory map")
        return self._map

    @memory_map.setter
    def memory_map(self, m):
        if not isinstance(m, MemoryMap):
            raise TypeError("memory map must be an instance of MemoryMap")
        if m.data_width != self.granularity:
            raise ValueError("memory map has data width %d, which is not the same as the bus granularity %d" % (m.data_width, self.granularity))
        want = max(1, self.addr_width + log2c(self.data_width // self.granularity))
        if m.addr_width != want:
            raise ValueError("memory map has address width %d, which is not the same as the bus address width %d" % (m.addr_width, want))
        m.freeze()
        self._map = m


class Opaque(Elaboratable):
    """third-party hardware: no statements, its outputs are free"""
    v_elaborated = 0

    def elaborate(self, platform):
        self.v_elaborated += 1
        return Module()


class Multiplexer(Opaque):
    def __init__(self, *, addr_width, data_width, alignment=0, name=None):
        self.v_elements = []
        self.v_data_width = data_width
        self.alignment = alignment
        self._map = MemoryMap(addr_width=addr_width, data_width=data_width, alignment=alignment)
        self.bus = CSRBus(self)

    def align_to(self, alignment):
        return self._map.align_to(alignment)

    def add(self, elem, *, addr=None, alignment=None, extend=False, name=None):
        if not isinstance(elem, Element):
            raise TypeError("element must be an instance of csr.Element, not %r" % (elem,))
        size = -(-elem.width // self.v_data_width)
        s, e = self._map.add_resource(elem, size=max(1, size), addr=addr, alignment=alignment, extend=extend, name=elem.v_name)
        self.v_elements.append((elem, s, e))
        return s, e


class CSRBus:
    def __init__(self, mux):
        self.v_mux = mux

    @property
    def memory_map(self):
        return self.v_mux._map


class WishboneCSRBridge(Opaque):
    def __init__(self, csr_bus, *, data_width=None, name=None):
        if not isinstance(csr_bus, CSRBus):
            raise TypeError("CSR bus must be an instance of csr.Interface")
        m = csr_bus.memory_map
        m.freeze()
        csr_w = m.data_width
        data_width = data_width or csr_w
        aw = max(0, m.addr_width - log2c(data_width // csr_w))
        self.v_mux = csr_bus.v_mux
        self.wb_bus = Interface(addr_width=aw, data_width=data_width, granularity=csr_w, name="wb")
        mm = MemoryMap(addr_width=max(1, aw + log2c(data_width // csr_w)), data_width=csr_w)
        mm.add_window(m)
        self.wb_bus.memory_map = mm
        self.wb_bus.v_bridge = self


class Decoder(Opaque):
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), alignment=0, name=None):
        granularity = data_width if granularity is None else granularity
        self.data_width, self.granularity, self.features, self.alignment = data_width, granularity, features, alignment
        self._map = MemoryMap(addr_width=max(1, addr_width + log2c(data_width // granularity)), data_width=granularity, alignment=alignment)
        self.v_subs = []
        self._bus = None

    @property
    def bus(self):
        if self._bus is None:
            self._map.freeze()
            self._bus = Interface(addr_width=self._map.addr_width - log2c(self.data_width // self.granularity), data_width=self.data_width,
                                  granularity=self.granularity, features=self.features)
            self._bus.memory_map = self._map
            self._bus.v_decoder = self
        return self._bus

    def align_to(self, alignment):
        return self._map.align_to(alignment)

    def add(self, sub, *, addr=None, sparse=False, extend=False):
        if not isinstance(sub, Interface):
            raise TypeError("subordinate bus must be an instance of wishbone.Interface, not %r" % (sub,))
        if sub.granularity > self.granularity:
            raise ValueError("subordinate granularity is greater than the decoder granularity")
        if not sparse and sub.data_width != self.data_width:
            raise ValueError("subordinate data width must equal the decoder data width")
        r = self._map.add_window(sub.memory_map, addr=addr, sparse=sparse, extend=extend)
        self.v_subs.append((sub,) + r)
        return r


class Arbiter(Opaque):
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), **kw):
        self.bus = Interface(addr_width=addr_width, data_width=data_width, granularity=granularity, features=features)
        self.v_masters = []

    def add(self, bus):
        self.v_masters.append(bus)


class IRQLine(Signal):
    def __init__(self, shape=None, *, name=None, src_loc_at=0):
        super().__init__(name=name, src_loc_at=1 + src_loc_at)


class InterruptController(Opaque):
    def __init__(self, *, width=32, **kw):
        self.width = width
        self.ip = Signal(width)
        self.v_lines = {}
        self._irqs = {}

    def add_irq(self, line, index):
        if not isinstance(line, IRQLine):
            raise TypeError("IRQ line must be an instance of IRQLine, not %r" % (line,))
        if index in self.v_lines or not 0 <= index < self.width:
            raise ValueError("IRQ index %r is taken or out of range" % (index,))
        self.v_lines[index] = line

    def find_index(self, line):
        return next(k for k, v in self.v_lines.items() if v is line)


class SRAM(Opaque):
    def __init__(self, *, size, data_width=32, granularity=8, writable=True):
        self.size, self.writable = size, writable
        self._mem = object()
        aw = log2c(size * granularity // data_width)
        self.bus = Interface(addr_width=aw, data_width=data_width, granularity=granularity)
        mm = MemoryMap(addr_width=log2c(size), data_width=granularity)
        mm.add_resource(self._mem, size=size, name=("mem",))
        self.bus.memory_map = mm


class SimplePeriph(Opaque):
    def __init__(self, *a, **kw):
        self.v_args = kw
        self.bus = Interface(addr_width=2, data_width=32, granularity=8)
        mm = MemoryMap(addr_width=4, data_width=8)
        mm.add_resource(self, size=16, name=(type(self).__name__,))
        self.bus.memory_map = mm
        self.irq = IRQLine(name=type(self).__name__ + "_irq")


class Timer(SimplePeriph):
    pass


class AsyncSerialPeripheral(SimplePeriph):
    pass


class AsyncSerialCore(Opaque):
    def __init__(self, *, divisor, pins=None, **kw):
        self.divisor, self.pins = divisor, pins


class CPUSoC:
    cpu = NotImplemented
    bootrom = NotImplemented

    def build(self, name=None, build_dir="build", do_build=True, do_init=True):
        self.v_built = (name, build_dir)


class MinervaCPU(Opaque):
    def __init__(self, **kw):
        self.v_args = kw
        self.ibus = Interface(addr_width=30, data_width=32, granularity=8, features={"err", "cti", "bte"})
        self.dbus = Interface(addr_width=30, data_width=32, granularity=8, features={"err", "cti", "bte"})
        self.ip = Signal(32)
        self._cpu = types.SimpleNamespace(jtag=types.SimpleNamespace(tck=Signal(), tms=Signal(), tdi=Signal(), tdo=Signal()))


class Minerva(Opaque):
    def __init__(self, *a, **kw):
        self.v_args = kw


def _mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    return m


def install():
    """make the models importable (only when the real packages are absent from the analysis process)"""
    if "amaranth_soc" in sys.modules:
        return
    wb = _mod("amaranth_soc.wishbone", Interface=Interface, Decoder=Decoder, Arbiter=Arbiter)
    cw = _mod("amaranth_soc.csr.wishbone", WishboneCSRBridge=WishboneCSRBridge)
    csr = _mod("amaranth_soc.csr", Element=Element, Multiplexer=Multiplexer, wishbone=cw)
    Element.Access = Access
    mem = _mod("amaranth_soc.memory", MemoryMap=MemoryMap, ResourceInfo=ResourceInfo)
    csr.__path__ = []
    _mod("amaranth_soc", wishbone=wb, csr=csr, memory=mem).__path__ = []
    names = {
        "lambdasoc": {}, "lambdasoc.soc": {}, "lambdasoc.cpu": {}, "lambdasoc.periph": {},
        "lambdasoc.soc.cpu": dict(CPUSoC=CPUSoC), "lambdasoc.cpu.minerva": dict(MinervaCPU=MinervaCPU),
        "lambdasoc.periph.intc": dict(GenericInterruptController=InterruptController),
        "lambdasoc.periph.serial": dict(AsyncSerialPeripheral=AsyncSerialPeripheral, AsyncSerial=AsyncSerialCore),
        "lambdasoc.periph.sram": dict(SRAMPeripheral=SRAM), "lambdasoc.periph.timer": dict(TimerPeripheral=Timer),
        "lambdasoc.periph.event": dict(IRQLine=IRQLine),
        "minerva": {}, "minerva.core": dict(Minerva=Minerva),
    }
    for n, a in names.items():
        _mod(n, **a).__path__ = []
    for n in names:
        if "." in n:
            p, c = n.rsplit(".", 1)
            setattr(sys.modules[p], c, sys.modules[n])
