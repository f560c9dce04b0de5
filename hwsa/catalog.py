"""Every hardware component of the library in several configurations, through its public constructor.

entries(): (name, constructor, keyword for the clock domain or None, extra allowed domains)
A component is made with mk(**{domain keyword}); the constructed object carries .v_out / .v_in stream lists where
the interface attributes are not found by themselves.
"""
import numpy

from amaranth import Elaboratable, Module, Record, Signal
from . import stubs


def pads():
    from amlib.io.i2c import _DummyPads
    return _DummyPads()


def serial_pins():
    return Record([("rx", [("i", 1)]), ("tx", [("o", 1)])])


def pin(**parts):
    return Record([(k, [(d, 1)]) for k, d in parts.items()])


def stream_cls(**kw):
    from amlib.stream import StreamInterface

    class S(StreamInterface):
        def __init__(self, **k):
            super().__init__(**{**kw, **k})
    return S


def arbiter(n, **kw):
    from amlib.stream.arbiter import StreamArbiter
    a = StreamArbiter(**kw)
    a.v_in = [stream_cls()() for _ in range(n)]
    for s in a.v_in:
        a.add_stream(s)
    return a


def mux(n):
    from amlib.stream.arbiter import StreamMultiplexer
    a = StreamMultiplexer()
    a.v_in = [stream_cls()() for _ in range(n)]
    for s in a.v_in:
        a.add_input(s)
    return a


def onehot(n):
    from amlib.utils.bus import OneHotMultiplexer
    a = OneHotMultiplexer(interface_type=stream_cls(), mux_signals=["payload"], or_signals=["valid"], pass_signals=["ready"])
    a.v_in = [stream_cls()() for _ in range(n)]
    for s in a.v_in:
        a.add_interface(s)
    return a


def spi_register():
    from amlib.io.spi import SPIRegisterInterface
    d = SPIRegisterInterface(address_size=3, register_size=8)
    d.add_read_only_register(1, read=Signal(8), read_strobe=Signal())
    d.add_register(2, write_strobe=Signal())
    d.add_register(3, size=5)
    d.add_sfr(5, read=Signal(8), write_signal=Signal(8), write_strobe=Signal(), read_strobe=Signal())
    return d


def spi_mux():
    from amlib.io.spi import SPIMultiplexer, SPIDeviceBus
    return SPIMultiplexer([SPIDeviceBus() for _ in range(3)])


def utils_harness(kind, domain="sync"):
    from amlib import utils as U
    from amlib.utils import cdc
    m = Module()
    m.h_in = Signal(3)
    fn = {"rise": lambda: U.rising_edge_detected(m, m.h_in[0], domain=domain),
          "fall": lambda: U.falling_edge_detected(m, m.h_in[0], domain=domain),
          "any": lambda: U.any_edge_detected(m, m.h_in, domain=domain),
          "past": lambda: U.past_value_of(m, m.h_in, domain=domain),
          "sync": lambda: U.synchronize(m, m.h_in, o_domain=domain),
          "stretch": lambda: U.stretch_strobe_signal(m, m.h_in[1], to_cycles=4, domain=getattr(m.d, domain)),
          "stretchd": lambda: U.stretch_strobe_signal(m, m.h_in[1], to_cycles=4, domain=getattr(m.d, domain), allow_delay=True)}[kind]
    m.h_out = fn()
    h = H()
    h.m = m
    return h


class H(Elaboratable):
    def elaborate(self, platform):
        return self.m


def events(modes):
    from amlib.soc.event import EventSource, InterruptSource
    return InterruptSource([EventSource(mode=x, name="ev%d" % i) for i, x in enumerate(modes)], name="src")


def ila(cls, enable=False, **kw):
    import amlib.debug.ila as I
    return getattr(I, cls)(signals=[Signal(5, name="a"), Signal(name="b")], sample_depth=kw.pop("depth", 8), **kw)


def soc():
    from amlib.soc.simplesoc import SimpleSoC
    s = SimpleSoC(clock_frequency=1000000)
    s.add_rom(b"\x01\x02\x03\x04", 0x4000)
    s.add_ram(0x4000)
    return s


def entries():
    stubs.install()
    import amlib.io.i2c as i2c, amlib.io.i2s as i2s, amlib.io.led as led, amlib.io.serial as serial, amlib.io.spi as spi
    import amlib.io.max7219 as max7219, amlib.io.ws2812 as ws2812, amlib.io.debouncer as deb
    import amlib.stream.generator as gen, amlib.stream.i2c as si2c, amlib.stream.uart as suart
    import amlib.utils as U
    from amlib.utils.fifo import TransactionalizedFIFO
    from amlib.utils.timer import Timer
    from amlib.utils.shiftregister import InputShiftRegister, OutputShiftRegister
    from amlib.utils.lfsr import LinearFeedbackShiftRegister
    from amlib.utils.dividingcounter import DividingCounter
    from amlib.utils.clockdivider import SimpleClockDivider
    from amlib.utils.edgetopulse import EdgeToPulse
    from amlib.utils.nrziencoder import NRZIEncoder
    import amlib.soc.memory as mem, amlib.soc.uart as puart
    import amlib.dsp.fixedpointfft as fft, amlib.dsp.filterbank as fb, amlib.dsp.resampler as rs
    from amlib.dsp.fixedpointcicfilter import FixedPointCICFilter
    from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter
    from amlib.dsp.fixedpointhbfilter import FixedPointHBFilter
    from amlib.dsp.fixedpointiirfilter import FixedPointIIRFilter
    from amlib.dsp.convolution.mac import StereoConvolutionMAC
    from amlib.dsp.convolution.convolutionmode import ConvolutionMode
    out = []

    def uartp(**kw):
        per = puart.UARTPeripheral(divisor=16, **kw)
        return per

    def add(name, fn, dom=None, extra=()):
        out.append((name, fn, dom, tuple(extra)))
    F = i2s.I2S_FORMAT
    add("IntegratedLogicAnalyzer", lambda **k: ila("IntegratedLogicAnalyzer", **k), "domain")
    add("IntegratedLogicAnalyzer, enable, 3 pre-trigger samples", lambda **k: ila("IntegratedLogicAnalyzer", with_enable=True, samples_pretrigger=3, **k), "domain")
    add("SyncSerialILA", lambda **k: ila("SyncSerialILA", **k), "domain")
    add("SyncSerialILA, mode 3", lambda **k: ila("SyncSerialILA", clock_polarity=1, clock_phase=0, **k), "domain")
    add("StreamILA", lambda **k: ila("StreamILA", **k), "domain")
    add("StreamILA, output domain", lambda **k: ila("StreamILA", o_domain="fast", **k), "domain", ("fast", "async_ff"))
    add("AsyncSerialILA", lambda **k: ila("AsyncSerialILA", divisor=12, **k), "domain", ("async_ff",))
    for n in ([], ["level", "rise", "fall"]):
        add("InterruptSource %d" % len(n), lambda n=n: events(n))
    add("UARTPeripheral", uartp)
    add("UARTPeripheral, pins", lambda: uartp(pins=serial_pins()))
    for kw in (dict(), dict(read_only=True), dict(granularity=32)):
        add("WishboneRAM %s" % kw, lambda kw=kw: mem.WishboneRAM(**{**dict(addr_width=5, data_width=32, granularity=8), **kw}))
    add("WishboneROM", lambda: mem.WishboneROM([1, 2, 3], addr_width=5))
    add("SimpleSoC", soc)
    for w in (8, 24):
        for f in (F.STANDARD, F.LEFT_JUSTIFIED):
            if f == F.STANDARD:
                add("I2STransmitter %d" % w, lambda w=w, f=f: i2s.I2STransmitter(sample_width=w, frame_format=f))
            add("I2SReceiver %d %s" % (w, f.name), lambda w=w, f=f: i2s.I2SReceiver(sample_width=w, frame_format=f))
    add("I2SLoopbackTestHarness", lambda: i2s.I2SLoopbackTestHarness())
    add("SerialLEDArray", lambda: max7219.SerialLEDArray(divisor=10, init_delay=20))
    add("SPIControllerInterface", lambda: spi.SPIControllerInterface(divisor=12))
    add("SPIControllerInterface, mode 3", lambda: spi.SPIControllerInterface(word_size=5, divisor=12, clock_polarity=1, clock_phase=1, cs_idles_high=True, msb_first=False))
    add("SPIDeviceInterface", lambda: spi.SPIDeviceInterface())
    add("SPIDeviceInterface, mode 3", lambda: spi.SPIDeviceInterface(word_size=5, clock_polarity=1, clock_phase=1, cs_idles_high=True, msb_first=False))
    add("SPICommandInterface", lambda: spi.SPICommandInterface(command_size=4, word_size=8))
    add("SPIRegisterInterface", spi_register)
    add("SPIMultiplexer", spi_mux)
    add("Debouncer", deb.Debouncer)
    add("NibbleToSevenSegmentHex", led.NibbleToSevenSegmentHex)
    for reg in (False, True):
        add("NumberToSevenSegmentHex, register %s" % reg, lambda reg=reg: led.NumberToSevenSegmentHex(width=16, register=reg))
    add("NumberToBitBar", lambda: led.NumberToBitBar(0, 256, 8))
    add("WS2812", lambda: ws2812.WS2812(sys_clock_freq=12000000, no_leds=3))
    for p in ("none", "even"):
        add("AsyncSerialRX %s" % p, lambda p=p: serial.AsyncSerialRX(divisor=12, parity=p))
        add("AsyncSerialTX %s" % p, lambda p=p: serial.AsyncSerialTX(divisor=12, parity=p))
    add("AsyncSerial", lambda: serial.AsyncSerial(divisor=12))
    add("AsyncSerial, pins", lambda: serial.AsyncSerial(divisor=12, pins=serial_pins()))
    add("I2CInitiator", lambda: i2c.I2CInitiator(pads(), 16))
    add("I2CInitiator, no stretching", lambda: i2c.I2CInitiator(pads(), 16, clk_stretch=False))
    add("I2CTarget", lambda: i2c.I2CTarget(pads()))
    for n in (1, 3):
        add("StreamArbiter %d" % n, lambda n=n, **k: arbiter(n, **k), "domain")
        add("StreamMultiplexer %d" % n, lambda n=n: mux(n))
        add("OneHotMultiplexer %d" % n, lambda n=n: onehot(n))
    add("I2CStreamTransmitter", lambda: si2c.I2CStreamTransmitter(pads(), 16))
    add("UARTTransmitter", lambda: suart.UARTTransmitter(divisor=5))
    add("UARTTransmitterPeripheral", lambda: suart.UARTTransmitterPeripheral(divisor=5))
    add("UARTMultibyteTransmitter", lambda: suart.UARTMultibyteTransmitter(byte_width=3, divisor=5))
    add("ConstantStreamGenerator", lambda **k: gen.ConstantStreamGenerator(b"Hello", **k), "domain")
    add("ConstantStreamGenerator, length", lambda **k: gen.ConstantStreamGenerator(b"Hello Wor", max_length_width=5, **k), "domain")
    add("ConstantStreamGenerator, wide", lambda **k: gen.ConstantStreamGenerator(b"Hello Wor", max_length_width=5, data_width=32, stream_type=stream_cls(payload_width=32, valid_width=4), **k), "domain")
    add("StreamSerializer", lambda **k: gen.StreamSerializer(4, **k), "domain")
    add("StreamSerializer, length", lambda **k: gen.StreamSerializer(5, max_length_width=3, data_width=16, stream_type=stream_cls(payload_width=16), **k), "domain")
    add("PacketListStreamer", lambda: gen.PacketListStreamer([[1, 2], [3], [4, 5, 6]]))
    add("EdgeToPulse", EdgeToPulse)
    add("NRZIEncoder", NRZIEncoder)
    add("SimpleClockDivider", lambda: SimpleClockDivider(6))
    add("InputShiftRegister", lambda: InputShiftRegister(5))
    add("OutputShiftRegister", lambda: OutputShiftRegister(5))
    add("OutputShiftRegister, rotate", lambda: OutputShiftRegister(5, rotate=True))
    add("Timer", lambda: Timer(width=6))
    add("Timer, no restart", lambda: Timer(width=6, allow_restart=False))
    add("TransactionalizedFIFO", lambda **k: TransactionalizedFIFO(width=5, depth=6, **k), "domain")
    add("TransactionalizedFIFO, depth 1", lambda **k: TransactionalizedFIFO(width=5, depth=1, **k), "domain")
    add("LinearFeedbackShiftRegister", lambda: LinearFeedbackShiftRegister(8, [8, 6, 5, 4]))
    add("DividingCounter", lambda: DividingCounter(5, 6))
    for md in ConvolutionMode:
        add("StereoConvolutionMAC %s" % md.name, lambda md=md: StereoConvolutionMAC(taps=numpy.array([[1, 2]] * 8), samplerate=48000, clockfrequency=96000, bitwidth=16, convolutionMode=md))
    add("FixedPointCICFilter", lambda: FixedPointCICFilter(bitwidth=8, filter_stage=3, decimation=4))
    add("FractionalResampler", lambda: rs.FractionalResampler(input_samplerate=56000, upsample_factor=6, downsample_factor=7, filter_instances=2, prescale=4, bitwidth=16))
    add("FixedPointFFT", lambda: fft.FixedPointFFT(bitwidth=12, pts=8))
    add("Filterbank", lambda: fb.Filterbank(num_instances=2, samplerate=48000, bitwidth=16, cutoff_freq=20000))
    fir = dict(samplerate=48000, cutoff_freq=16000, filter_order=8, bitwidth=16)
    add("FixedPointFIRFilter", lambda: FixedPointFIRFilter(**fir))
    add("FixedPointFIRFilter, loop", lambda: FixedPointFIRFilter(**fir, mac_loop=True))
    hb = dict(bitwidth=16, filter_order=19)
    add("FixedPointHBFilter", lambda: FixedPointHBFilter(**hb))
    add("FixedPointHBFilter, loop", lambda: FixedPointHBFilter(**hb, mac_loop=True))
    add("FixedPointIIRFilter", lambda: FixedPointIIRFilter(48000, bitwidth=16, cutoff_freq=20000))
    for k in ("rise", "fall", "any", "past", "sync", "stretch", "stretchd"):
        add("helper %s" % k, lambda k=k, **kw: utils_harness(k, **kw), "domain")
    return out
