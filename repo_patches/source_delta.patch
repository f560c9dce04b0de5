From d089428947f5cb1adeb47bd9a23625bdf18f242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 01/59] fix: TransactionalizedFIFO presents a stale word after
 read_discard

---
 amlib/utils/fifo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amlib/utils/fifo.py b/amlib/utils/fifo.py
index d82730f..a154703 100644
--- a/amlib/utils/fifo.py
+++ b/amlib/utils/fifo.py
@@ -179,8 +179,11 @@ class TransactionalizedFIFO(Elaboratable):
 
         # Our memory always takes a single cycle to provide its read output; so we'll update its address
         # "one cycle in advance". Accordingly, if we're about to advance the FIFO, we'll use the next read
-        # address as our input. If we're not, we'll use the current one.
-        with m.If(self.read_en & ~self.empty):
+        # address as our input. If we're rewinding the FIFO, we'll use the position we're rewinding to.
+        # If we're doing neither, we'll use the current one.
+        with m.If(self.read_discard):
+            m.d.comb += read_port.addr.eq(committed_read_pointer)
+        with m.Elif(self.read_en & ~self.empty):
             m.d.comb += read_port.addr.eq(next_read_pointer)
         with m.Else():
             m.d.comb += read_port.addr.eq(current_read_pointer)
-- 
2.43.0


From 93ed13d046017763169e472194a658e41e84b372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 02/59] fix: StreamInterface.attach cannot forward extra fields

---
 amlib/stream/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/stream/__init__.py b/amlib/stream/__init__.py
index 2df6991..b845e07 100644
--- a/amlib/stream/__init__.py
+++ b/amlib/stream/__init__.py
@@ -70,7 +70,8 @@ class StreamInterface(Record):
     def attach(self, interface, omit=None):
         # Create lists of fields to be copied -to- the interface (RHS fields),
         # and lists of fields to be copied -from- the interface (LHS fields).
-        rhs_fields = ['valid', 'first', 'last', 'payload', *self._extra_fields]
+        rhs_fields = ['valid', 'first', 'last', 'payload',
+                      *(name for name, *_ in self._extra_fields)]
         lhs_fields = ['ready']
         assignments = []
 
-- 
2.43.0


From 31d8c9311093d1a6e89f20f844422f3bd34e32f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 03/59] fix: OneHotMultiplexer passes input 0 through when no
 input is valid

---
 amlib/utils/bus.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/amlib/utils/bus.py b/amlib/utils/bus.py
index e04ff99..dbd506c 100644
--- a/amlib/utils/bus.py
+++ b/amlib/utils/bus.py
@@ -101,17 +101,19 @@ class OneHotMultiplexer(Elaboratable):
             m.d.comb += encoder.i[index].eq(valid_signal)
 
         # Create our multiplexer, and drive each of our output signals from it.
-        with m.Switch(encoder.o):
-            for index, interface in enumerate(self._inputs):
-
-                # If an interface is selected...
-                with m.Case(index):
-                    for identifier in self._mux_signals:
-
-                        # ... connect all of its muxed signals through to the output.
-                        output_signal = self._get_signal(self.output, identifier)
-                        input_signal  = self._get_signal(interface,   identifier)
-                        m.d.comb += output_signal.eq(input_signal)
+        # If no interface is valid, the encoder still outputs index zero; so we'll need to qualify it.
+        with m.If(~encoder.n):
+            with m.Switch(encoder.o):
+                for index, interface in enumerate(self._inputs):
+
+                    # If an interface is selected...
+                    with m.Case(index):
+                        for identifier in self._mux_signals:
+
+                            # ... connect all of its muxed signals through to the output.
+                            output_signal = self._get_signal(self.output, identifier)
+                            input_signal  = self._get_signal(interface,   identifier)
+                            m.d.comb += output_signal.eq(input_signal)
 
         # Create the OR'ing logic for each of or or_signals.
         for identifier in self._or_signals:
-- 
2.43.0


From a38a1c1211ffe07b79dfde21df2f93ccafdca1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 04/59] fix: FIFO/stream connection helpers ignore first/last
 in bit 0

---
 amlib/stream/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amlib/stream/__init__.py b/amlib/stream/__init__.py
index b845e07..3bf1483 100644
--- a/amlib/stream/__init__.py
+++ b/amlib/stream/__init__.py
@@ -135,9 +135,9 @@ def connect_fifo_to_stream(fifo: FIFOInterface, stream: StreamInterface, firstBi
         stream.payload.eq(fifo.r_data),
     ]
 
-    if firstBit:
+    if firstBit is not None:
         result.append(stream.first.eq(fifo.r_data[firstBit]))
-    if lastBit:
+    if lastBit is not None:
         result.append(stream.last.eq(fifo.r_data[lastBit]))
 
     return result
@@ -156,9 +156,9 @@ def connect_stream_to_fifo(stream: StreamInterface, fifo: FIFOInterface, firstBi
         fifo.w_data.eq(stream.payload),
     ]
 
-    if firstBit:
+    if firstBit is not None:
         result.append(fifo.w_data[firstBit].eq(stream.first))
-    if lastBit:
+    if lastBit is not None:
         result.append(fifo.w_data[lastBit].eq(stream.last))
 
     return result
-- 
2.43.0


From 06b8091ef8f719affe1a3f453b7cbeb6c7d0f4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 05/59] fix: ConstantStreamGenerator first flag depends on the
 live start_position

---
 amlib/stream/generator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 7fc19b6..383157d 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -161,8 +161,11 @@ class ConstantStreamGenerator(Elaboratable):
             bytes_sent     = Signal()
             bytes_per_word = 0
 
+        # Register that remembers where we started; as our start position input may since have changed.
+        first_position = Signal.like(position_in_stream)
+
         # Track when we're on the first and last packet.
-        on_first_packet = position_in_stream == self.start_position
+        on_first_packet = position_in_stream == first_position
         on_last_packet  = \
             (position_in_stream          == (data_length - 1)) | \
             (bytes_sent + bytes_per_word >= self.max_length)
@@ -198,6 +201,7 @@ class ConstantStreamGenerator(Elaboratable):
                 # Keep ourselves at the beginning of the stream, but don't yet count.
                 m.d.sync += [
                     position_in_stream  .eq(start_position),
+                    first_position      .eq(start_position),
                     bytes_sent          .eq(0)
                 ]
                 m.d.comb += [
-- 
2.43.0


From 337c351bdd0c4881052ed6d7689c5e08f7c3ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 06/59] fix: ConstantStreamGenerator truncates start_position
 for multi-byte words

---
 amlib/stream/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 383157d..96e675c 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -176,7 +176,7 @@ class ConstantStreamGenerator(Elaboratable):
         start_position = Signal.like(position_in_stream)
 
         # If our starting position is greater than our data length, use our data length.
-        with m.If(self.start_position >= self._data_length):
+        with m.If(self.start_position >= data_length):
             m.d.comb += start_position.eq(data_length - 1)
 
         # Otherwise, use our starting position.
-- 
2.43.0


From c4c7746884122c3f37e7bdb9c1e97f1a8f520e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 07/59] fix: PacketListStreamer never finishes when the total
 length is a power of two

---
 amlib/stream/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 96e675c..3b695b9 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -745,7 +745,7 @@ class PacketListStreamer(Elaboratable):
         total_no_bytes = len(packets_flattened)
 
         position           = Signal(range(total_no_bytes))
-        next_position      = Signal.like(position)
+        next_position      = Signal(range(total_no_bytes + 1))
         current_packet     = Signal(range(no_packets))
         current_packet_len = Signal(max_length_width)
 
-- 
2.43.0


From 0ae9bcf08e6c5195730c8d8816e35fa648530d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 08/59] fix: PacketListStreamer hangs when started in the first
 cycle after reset

---
 amlib/stream/generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 3b695b9..ca76e05 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -771,6 +771,10 @@ class PacketListStreamer(Elaboratable):
                 m.next = "WAIT"
 
             with m.State("WAIT"):
+                # Keep requesting, in case the generator could not start, because the
+                # packet length was not yet available; it ignores start when it is busy.
+                m.d.comb += generator.start.eq(1)
+
                 with m.If(generator.done):
                     with m.If(next_position >= total_no_bytes):
                         m.d.comb += self.done.eq(1)
-- 
2.43.0


From 525e8a54a496c2c132e1c06595d5652d03c72cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 09/59] fix: PacketListStreamer truncates the payload to 8 bits

---
 amlib/stream/generator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index ca76e05..d279959 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -733,11 +733,13 @@ class PacketListStreamer(Elaboratable):
         packet_lengths = [len(p) for p in self.packets]
         no_packets = len(packet_lengths)
 
-        max_length_width = bits_for(max(packet_lengths))
+        # The generator measures its maximum length in bytes.
+        bytes_per_word   = (self._data_width + 7) // 8
+        max_length_width = bits_for(max(packet_lengths) * bytes_per_word)
         packets_flattened = [words for packet in self.packets for words in packet]
 
         m.submodules.generator = generator = \
-            ConstantStreamGenerator(packets_flattened, max_length_width=max_length_width)
+            ConstantStreamGenerator(packets_flattened, data_width=self._data_width, max_length_width=max_length_width)
 
         rom = Memory(width=max_length_width, depth=no_packets, init=packet_lengths)
         m.submodules.packet_lengths_rom = packet_lengths_rom = rom.read_port(transparent=False)
@@ -755,7 +757,7 @@ class PacketListStreamer(Elaboratable):
             generator.start_position.eq(position),
             packet_lengths_rom.addr.eq(current_packet),
             current_packet_len.eq(packet_lengths_rom.data),
-            generator.max_length.eq(current_packet_len),
+            generator.max_length.eq(current_packet_len * bytes_per_word),
             next_position.eq(position + current_packet_len),
             self.done.eq(0)
         ]
-- 
2.43.0


From da68fcc4547681c77816729fa79e4d1d4514fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:04 +0000
Subject: [PATCH 10/59] fix: edge detectors and past_value_of truncate
 multi-bit signals to one bit

---
 amlib/utils/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amlib/utils/__init__.py b/amlib/utils/__init__.py
index 01d14d9..53c852d 100644
--- a/amlib/utils/__init__.py
+++ b/amlib/utils/__init__.py
@@ -3,7 +3,7 @@
 #
 """ Simple utility constructs  """
 
-from amaranth import Signal
+from amaranth import Signal, Value
 
 from .bits            import bits
 from .cdc             import synchronize, stretch_strobe_signal
@@ -32,7 +32,7 @@ def _single_edge_detector(m, signal, *, domain, edge='rising'):
     """ Generates and returns a signal that goes high for a cycle upon a given edge of a given signal. """
 
     # Create a one-cycle delayed version of our input signal.
-    delayed = Signal()
+    delayed = Signal(Value.cast(signal).shape())
     m.d[domain] += delayed.eq(signal)
 
     # And create a signal that detects edges on the relevant signal.
@@ -52,7 +52,7 @@ def past_value_of(m, signal, *, domain):
     """ Generates and returns a signal that represents the value of another signal a cycle ago. """
 
     # Create a one-cycle delayed version of our input signal.
-    delayed = Signal()
+    delayed = Signal(Value.cast(signal).shape())
     m.d[domain] += delayed.eq(signal)
 
     return delayed
-- 
2.43.0


From fe84d31cbb981c8392e0d34af4706c58fc9f499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:02 +0000
Subject: [PATCH 11/59] fix: Timer wraps around when load or reload is one

---
 amlib/utils/timer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/amlib/utils/timer.py b/amlib/utils/timer.py
index 8ac9f39..c870efd 100644
--- a/amlib/utils/timer.py
+++ b/amlib/utils/timer.py
@@ -31,7 +31,10 @@ class Timer(Elaboratable):
                     # done should appear exactly 'load' cycles
                     # load is one-based, but we stop at zero
                     m.d.sync += counter.eq(counter - 1)
-                    m.next = "RUNNING"
+                    with m.If(counter == 1):
+                        m.next = "DONE"
+                    with m.Else():
+                        m.next = "RUNNING"
 
             with m.State("RUNNING"):
                 m.d.sync += counter.eq(counter - 1)
@@ -43,7 +46,9 @@ class Timer(Elaboratable):
                     # we want the next done to appear
                     # exactly 'reload_in' cycles later
                     m.d.sync += counter.eq(self.reload_in - 1)
-                    m.next = "RUNNING"
+                    # with a reload of one, done stays asserted
+                    with m.If(self.reload_in > 1):
+                        m.next = "RUNNING"
                 if self._allow_restart:
                     with m.Else():
                         m.next = "IDLE"
-- 
2.43.0


From 14afbdfc8d457704fe719a08ce1f46ce524f0adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:01 +0000
Subject: [PATCH 12/59] fix: Timer cannot take a signal as load or reload value

---
 amlib/utils/timer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/utils/timer.py b/amlib/utils/timer.py
index c870efd..6606d39 100644
--- a/amlib/utils/timer.py
+++ b/amlib/utils/timer.py
@@ -6,8 +6,8 @@ class Timer(Elaboratable):
     def __init__(self, *, width=32, load=None, reload=None, allow_restart=True):
         self._width = width
         self._allow_restart = allow_restart
-        self.load_in     = Signal(width, name="load")   if load   == None else load
-        self.reload_in   = Signal(width, name="reload") if reload == None else reload
+        self.load_in     = Signal(width, name="load")   if load   is None else load
+        self.reload_in   = Signal(width, name="reload") if reload is None else reload
         self.counter_out = Signal(width)
         self.start       = Signal()
         self.done        = Signal()
-- 
2.43.0


From fddf356f42f94f9dd06f14b6682d8c583c792bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:17 +0000
Subject: [PATCH 13/59] fix: I2SReceiver samples the asynchronous serial data
 without a synchroniser

---
 amlib/io/i2s.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 4a2a230..3118edf 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -353,10 +353,12 @@ class I2SReceiver(Elaboratable):
         rx_cnt_width = math.ceil(math.log(fifo_data_width, 2))
         rx_cnt = Signal(rx_cnt_width)
 
-        bit_clock  = Signal()
-        word_clock = Signal()
+        bit_clock   = Signal()
+        word_clock  = Signal()
+        serial_data = Signal()
         m.submodules.bit_clock_synchronizer  = FFSynchronizer(self.serial_clock_in, bit_clock)
         m.submodules.word_clock_synchronizer = FFSynchronizer(self.word_select_in, word_clock)
+        m.submodules.data_synchronizer       = FFSynchronizer(self.serial_data_in, serial_data)
 
         bit_clock_rose  = Signal()
         bit_clock_fell  = Signal()
@@ -416,7 +418,7 @@ class I2SReceiver(Elaboratable):
                     m.next = "IDLE"
                 with m.Else():
                     m.d.sync += [
-                        rx_buf.eq(Cat(self.serial_data_in, rx_buf[:-1])),
+                        rx_buf.eq(Cat(serial_data, rx_buf[:-1])),
                         rx_cnt.eq(rx_cnt - 1),
                     ]
                     m.next = "LEFT_WAIT"
@@ -471,7 +473,7 @@ class I2SReceiver(Elaboratable):
                     m.next = "IDLE"
                 with m.Else():
                     m.d.sync += [
-                        rx_buf.eq(Cat(self.serial_data_in, rx_buf[:-1])),
+                        rx_buf.eq(Cat(serial_data, rx_buf[:-1])),
                         rx_cnt.eq(rx_cnt - 1),
                     ]
                     m.next = "RIGHT_WAIT"
-- 
2.43.0


From af596305c0ff7d0f76ef8686ca25b68b0ab6d69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:45 +0000
Subject: [PATCH 14/59] fix: I2CInitiator accepts a command while busy is high

---
 amlib/io/i2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amlib/io/i2c.py b/amlib/io/i2c.py
index 3061964..f907fdd 100644
--- a/amlib/io/i2c.py
+++ b/amlib/io/i2c.py
@@ -166,7 +166,10 @@ class I2CInitiator(Module):
 
         self.fsm.act("IDLE",
             NextValue(self.busy, 1),
-            If(self.start,
+            If(self.busy,
+                # strobes are ignored while busy is high
+                NextValue(self.busy, 0)
+            ).Elif(self.start,
                 If(bus.scl_i & bus.sda_i,
                     NextState("START-SDA-L")
                 ).Elif(~bus.scl_i,
-- 
2.43.0


From 9103af9c904bb57c0f88cc3d8845c4e1206e11e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:49 +0000
Subject: [PATCH 15/59] fix: I2CStreamTransmitter sends stale octets while its
 FIFO is empty

---
 amlib/stream/i2c.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/amlib/stream/i2c.py b/amlib/stream/i2c.py
index 5bf260b..fdc503f 100644
--- a/amlib/stream/i2c.py
+++ b/amlib/stream/i2c.py
@@ -53,15 +53,13 @@ class I2CStreamTransmitter(Elaboratable):
                     m.next = "STREAMING"
 
             with m.State("STREAMING"):
-                with m.If(~i2c.busy):
+                with m.If(~i2c.busy & in_fifo.r_rdy):
                     m.d.comb += [
                         i2c.data_i.eq(payload),
                         i2c.write.eq(1),
+                        in_fifo.r_en.eq(1),
                     ]
 
-                    with m.If(in_fifo.r_rdy):
-                        m.d.comb += in_fifo.r_en.eq(1)
-
                     with m.If(last):
                         m.next = "STOP"
 
-- 
2.43.0


From 50902afe45f191d53f330daf9ba40f08f3f18173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 16/59] fix: SPIDeviceInterface loses word framing when the
 word size is no power of two

The bit counter was only reset by deselecting the device, or by overflowing.
---
 amlib/io/spi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 3345ebb..8d2eecc 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -333,6 +333,7 @@ class SPIDeviceInterface(Elaboratable):
                 # If we're just completing a word, handle I/O.
                 with m.If(bit_count + 1 == self.word_size):
                     m.d.sync += [
+                        bit_count          .eq(0),
                         self.word_accepted .eq(1),
                         current_tx         .eq(self.word_out)
                     ]
-- 
2.43.0


From 7fe20e99be5c40282bd1e23efe66c0aaf8c41207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 17/59] fix: SPIControllerInterface loses the first bit with
 clock phase 0

Chip select became active after the first leading edge, so that neither side sampled
the first bit; the device then received the word shifted by one bit.
---
 amlib/io/spi.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 8d2eecc..602e512 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -133,8 +133,7 @@ class SPIControllerInterface(Elaboratable):
 
         with m.FSM() as fsm:
             m.d.comb += sck.eq(Mux(fsm.ongoing("TRANSFER"), sck_divider.clock_out, self.clock_polarity))
-            cs_domain = m.d.comb if self.clock_phase == 1 else m.d.sync
-            cs_domain += cs.eq(Mux(fsm.ongoing("TRANSFER"), cs_active, cs_inactive))
+            m.d.comb += cs.eq(Mux(fsm.ongoing("TRANSFER"), cs_active, cs_inactive))
 
             with m.State("IDLE"):
                 m.d.sync += sck_divider.clock_enable_in.eq(0)
@@ -144,7 +143,14 @@ class SPIControllerInterface(Elaboratable):
 
             with m.State("WAIT_EDGE"):
                 with m.If(clock_edge):
-                    m.next = "TRANSFER"
+                    m.next = "TRANSFER" if self.clock_phase else "WAIT_IDLE_LEVEL"
+
+            # With clock phase 0 the first leading edge already samples a bit,
+            # so chip select has to become active half a clock period before it.
+            if not self.clock_phase:
+                with m.State("WAIT_IDLE_LEVEL"):
+                    with m.If(sck_divider.clock_out == self.clock_polarity):
+                        m.next = "TRANSFER"
 
             with m.State("TRANSFER"):
                 with m.If(spi_device.word_complete):
-- 
2.43.0


From 2d789f4b798da84c6d4003cc0101ffaec9966f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 18/59] fix: SPI connect_to_resource uses a nonexistent bus and
 wrong directions

---
 amlib/io/spi.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 602e512..2b73485 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -88,10 +88,10 @@ class SPIControllerInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs if not self.cs_idles_high else ~self.spi_bus_out.cs),
+            spi_resource.copi .eq(self.spi.sdo),
+            self.spi.sdi      .eq(spi_resource.cipo),
+            spi_resource.clk  .eq(self.spi.sck),
+            spi_resource.cs   .eq(self.spi.cs if not self.cs_idles_high else ~self.spi.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
@@ -223,10 +223,10 @@ class SPIDeviceInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs if not self.cs_idles_high else ~self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs if not self.cs_idles_high else ~spi_resource.cs),
         ]
 
     def spi_edge_detectors(self, m, sck):
@@ -547,10 +547,10 @@ class SPICommandInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
@@ -903,10 +903,10 @@ class SPIRegisterInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
-- 
2.43.0


From 728e8edcc71a83a6582c1ab59e2f4a022e2c54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 19/59] fix: SPIRegisterInterface cannot be built without
 registers, accepts unreachable addresses

---
 amlib/io/spi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 2b73485..e30e904 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -818,6 +818,7 @@ class SPIRegisterInterface(Elaboratable):
                 value_signal  -- a signal that stores the register's value; which may be the value_signal arg,
                                  or may be a signal created during execution
         """
+        assert address < (2 ** self.address_size)
         self._ensure_register_is_unused(address)
 
         # Generate a name for the register, if we don't already have one.
@@ -946,8 +947,11 @@ class SPIRegisterInterface(Elaboratable):
             first_item = False
 
         # Finally, tie all non-handled register values to always respond with the default.
-        with m.Else():
+        if first_item:
             m.d.comb += self.interface.word_to_send.eq(self.default_read_value)
+        else:
+            with m.Else():
+                m.d.comb += self.interface.word_to_send.eq(self.default_read_value)
 
         return m
 
-- 
2.43.0


From 9c8cd4990d4b402dd060126ee81874f678b57605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 20/59] fix: I2S transmitter and receiver lose the left channel
 for samples of up to 16 bits

---
 amlib/io/i2s.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 3118edf..efbd112 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -105,14 +105,9 @@ class I2STransmitter(Elaboratable):
         sample_width = self._sample_width
         frame_format = self._frame_format
 
+        # each stream word is one sample of one channel, so the channels can't be glued
         fifo_data_width = sample_width
-        concatenate_channels = True
-        if concatenate_channels:
-            if sample_width <= 16:
-                fifo_data_width = sample_width * 2
-            else:
-                concatenate_channels = False
-                print("I2S warning: sample width greater than 16 bits. your channels can't be glued")
+        concatenate_channels = False
 
         tx_buf_width = fifo_data_width + 1 if frame_format == I2S_FORMAT.STANDARD else fifo_data_width
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
@@ -341,14 +336,9 @@ class I2SReceiver(Elaboratable):
         sample_width = self._sample_width
         frame_format = self._frame_format
 
+        # each stream word is one sample of one channel, so the channels can't be glued
         fifo_data_width = sample_width
-        concatenate_channels = True
-        if concatenate_channels:
-            if sample_width <= 16:
-                fifo_data_width = sample_width * 2
-            else:
-                concatenate_channels = False
-                print("I2S warning: sample width greater than 16 bits. your channels can't be glued")
+        concatenate_channels = False
 
         rx_cnt_width = math.ceil(math.log(fifo_data_width, 2))
         rx_cnt = Signal(rx_cnt_width)
-- 
2.43.0


From 234e147b5d6d560cd36ef6885f6a175c52244b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 21/59] fix: I2S bit counters overflow for some sample widths

---
 amlib/io/i2s.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index efbd112..1f7d9aa 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -6,7 +6,6 @@
 #   Copyright (c) 2021 Hans Baier <hansfbaier@gmail.com>
 # SPDX-License-Identifier: BSD-2-Clause
 
-import math
 from enum import Enum
 
 from amaranth import *
@@ -113,8 +112,7 @@ class I2STransmitter(Elaboratable):
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
         offset       = [0]                 if frame_format == I2S_FORMAT.STANDARD else []
 
-        tx_cnt_width = math.ceil(math.log(fifo_data_width,2))
-        tx_cnt = Signal(tx_cnt_width)
+        tx_cnt = Signal(range(sample_width + 1))
         tx_shifter = Signal(tx_buf_width - 1)
         sample_msb = fifo_data_width - 1
 
@@ -340,8 +338,7 @@ class I2SReceiver(Elaboratable):
         fifo_data_width = sample_width
         concatenate_channels = False
 
-        rx_cnt_width = math.ceil(math.log(fifo_data_width, 2))
-        rx_cnt = Signal(rx_cnt_width)
+        rx_cnt = Signal(range(sample_width + 1))
 
         bit_clock   = Signal()
         word_clock  = Signal()
-- 
2.43.0


From d5b4b4b848c2f2c17f9c0fb0df4a989e6e715979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 22/59] fix: I2S misframes when it is enabled inside a left
 channel slot

---
 amlib/io/i2s.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 1f7d9aa..f2f83d3 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -151,8 +151,9 @@ class I2STransmitter(Elaboratable):
 
         with m.FSM(reset="IDLE"):
             with m.State("IDLE"):
+                # wait for the other channel, to find the beginning of the left channel afterwards
                 with m.If(self.enable_in):
-                    with m.If(bit_clock_rose & left_channel):
+                    with m.If(bit_clock_rose & right_channel):
                         m.next = "WAIT_SYNC"
 
             with m.State("WAIT_SYNC"):
@@ -383,8 +384,9 @@ class I2SReceiver(Elaboratable):
         with m.FSM(reset="IDLE"):
             with m.State("IDLE"):
                 m.d.sync += rx_buf.eq(0)
+                # wait for the other channel, to find the beginning of the left channel afterwards
                 with m.If(self.enable_in):
-                    with m.If(bit_clock_rose & left_channel):
+                    with m.If(bit_clock_rose & right_channel):
                         m.d.sync += rx_delay_cnt.eq(rx_delay_val)
                         m.next = "WAIT_SYNC"
 
-- 
2.43.0


From 116e44643234144b6f62138834ef6cc5d628c1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 23/59] fix: I2S transmitter starts with stale or misplaced
 samples

---
 amlib/io/i2s.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index f2f83d3..3301e6d 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -161,9 +161,16 @@ class I2STransmitter(Elaboratable):
                     m.next = "LEFT_FALL"
                     m.d.sync += [
                         tx_cnt.eq(sample_width),
-                        tx_shifter.eq(Cat(tx_fifo.r_data, offset))
+                        tx_shifter.eq(0)
                     ]
-                    m.d.comb += tx_fifo.r_en.eq(1),
+                    with m.If(tx_fifo.r_rdy):
+                        with m.If(first_flag):
+                            m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))
+                            m.d.comb += tx_fifo.r_en.eq(1)
+                        with m.Else():
+                            m.d.comb += self.mismatch_out.eq(1)
+                    with m.Else():
+                        m.d.comb += self.underflow_out.eq(1)
 
             # sync should be sampled on rising edge, but data should change on falling edge
             with m.State("LEFT_FALL"):
-- 
2.43.0


From b79eec156a54c201be2cbad6dfbdf3380d2de0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 24/59] fix: I2S transmitter drops a sample when it is disabled
 while waiting for the left channel

---
 amlib/io/i2s.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 3301e6d..6674e77 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -157,7 +157,9 @@ class I2STransmitter(Elaboratable):
                         m.next = "WAIT_SYNC"
 
             with m.State("WAIT_SYNC"):
-                with m.If(bit_clock_rose & left_channel):
+                with m.If(~self.enable_in):
+                    m.next = "IDLE"
+                with m.Elif(bit_clock_rose & left_channel):
                     m.next = "LEFT_FALL"
                     m.d.sync += [
                         tx_cnt.eq(sample_width),
-- 
2.43.0


From 856646627dda4d502a1dbd4b930f69607e8f620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 25/59] fix: seven segment hex digit D looks like 0

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 3b133a7..30744ea 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -24,7 +24,7 @@ seven_segment_font = [
 seven_segment_hex_numbers = [
   ['0', 0b1111110], ['1', 0b0110000], ['2', 0b1101101], ['3', 0b1111001], ['4', 0b0110011],
   ['5', 0b1011011], ['6', 0b1011111], ['7', 0b1110000], ['8', 0b1111111], ['9', 0b1111011],
-  ['A', 0b1110111], ['b', 0b0011111], ['C', 0b1001110], ['D', 0b1111110], ['E', 0b1001111], ['F', 0b1000111],
+  ['A', 0b1110111], ['b', 0b0011111], ['C', 0b1001110], ['d', 0b0111101], ['E', 0b1001111], ['F', 0b1000111],
 ]
 
 class NibbleToSevenSegmentHex(Elaboratable):
-- 
2.43.0


From 54eee58afa3a35f60ab743caa11915c5449c76c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 26/59] fix: registered seven segment digits lag behind their
 dots

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 30744ea..e3628f8 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -63,8 +63,8 @@ class NumberToSevenSegmentHex(Elaboratable):
             digit_to_hex = NibbleToSevenSegmentHex()
             m.submodules += digit_to_hex
             domain = m.d.sync if self.register else m.d.comb
+            m.d.comb += digit_to_hex.nibble_in.eq(self.number_in[(i * 4):(i * 4 + 4)])
             domain += [
-                digit_to_hex.nibble_in.eq(self.number_in[(i * 4):(i * 4 + 4)]),
                 self.seven_segment_out[(i * 8):(i * 8 + 7)].eq(digit_to_hex.seven_segment_out),
                 self.seven_segment_out[(i * 8) + 7].eq(self.dots_in[i])
             ]
-- 
2.43.0


From c31d713eb5f557970ebff040c74461293f167184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 27/59] fix: NumberToBitBar cannot show a full bar if the
 maximum is a power of two

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index e3628f8..ba142ae 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -88,7 +88,7 @@ class NumberToBitBar(Elaboratable):
         self.bitbar   = [Const(int(2**n - 1), bitwidth_out) for n in range(bitwidth_out + 1)]
 
         # I/O
-        self.value_in   = Signal(range(maxvalue_in))
+        self.value_in   = Signal(range(maxvalue_in + 1))
         self.bitbar_out = Signal(bitwidth_out)
 
     def elaborate(self, platform: Platform) -> Module:
-- 
2.43.0


From 6019618d77312588ce561a7f7b327731fac264b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 28/59] fix: WS2812 never resets the LEDs: the reset pulse is
 too short and the line idles high

---
 amlib/io/ws2812.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amlib/io/ws2812.py b/amlib/io/ws2812.py
index e46fe52..65d0abb 100644
--- a/amlib/io/ws2812.py
+++ b/amlib/io/ws2812.py
@@ -23,6 +23,7 @@ class WS2812(Elaboratable):
         self.full_cycle_length = sys_clock_freq // 800e3
         self.low_cycle_length  = int(0.32 * self.full_cycle_length)
         self.high_cycle_length = int(0.64 * self.full_cycle_length)
+        self.reset_length      = int(50e-6 * sys_clock_freq)
         print(f"full cycle: {self.full_cycle_length}")
 
         self.mem = Memory(width=24, depth=no_leds, name="led_memory")
@@ -51,14 +52,14 @@ class WS2812(Elaboratable):
         bit_counter = Signal(5)
         current_bit = Signal()
 
-        cycle_counter_width  = bits_for(int(self.full_cycle_length)) + 1
+        cycle_counter_width  = bits_for(int(max(self.full_cycle_length, self.reset_length))) + 1
         cycle_counter        = Signal(cycle_counter_width)
         current_cycle_length = Signal.like(cycle_counter)
 
         print(f"cycle counter: {cycle_counter_width}")
 
         m.d.comb += [
-            self.data_out.eq(1),
+            self.data_out.eq(0),
             current_bit.eq(grb[23]),
             current_cycle_length.eq(Mux(current_bit, self.high_cycle_length, self.low_cycle_length)),
             mem_write_port.addr.eq(self.led_address_in),
@@ -77,7 +78,7 @@ class WS2812(Elaboratable):
                 m.d.comb += self.data_out.eq(0)
                 m.d.sync += cycle_counter.eq(cycle_counter + 1)
 
-                with m.If(cycle_counter >= Const(self.full_cycle_length)):
+                with m.If(cycle_counter >= self.reset_length):
                     m.d.sync += cycle_counter.eq(0)
 
                     with m.If(led_counter == 0):
-- 
2.43.0


From 237586269409e4ec49b95de55e176ae477ebb929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 29/59] fix: SerialLEDArray cannot execute init sequences of
 more than seven commands

---
 amlib/io/max7219.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/max7219.py b/amlib/io/max7219.py
index e1d4051..ff2843a 100644
--- a/amlib/io/max7219.py
+++ b/amlib/io/max7219.py
@@ -76,7 +76,7 @@ class SerialLEDArray(Elaboratable):
         with m.If(next_digit):
             m.d.sync += digit_counter.eq(digit_counter + 1)
 
-        step_counter = Signal(range(10))
+        step_counter = Signal(range(2 * len(self.init_sequence) + 2))
         next_step    = Signal()
 
         with m.If(next_step):
-- 
2.43.0


From 5aea977446be3a3d38edb36590763b83a97a3807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 30/59] fix: WishboneROM ignores its granularity parameter

---
 amlib/soc/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index 23b9d48..3225e15 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -152,7 +152,7 @@ class WishboneROM(WishboneRAM):
         super().__init__(
             addr_width=addr_width,
             data_width=data_width,
-            granularity=8,
+            granularity=granularity,
             init=data,
             read_only=True,
             name=name
-- 
2.43.0


From dde7c95edd947744e3bb6ce7f2dd2cd9763e5c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 31/59] fix: byte initializers of Wishbone memories are
 misplaced for granularities above 8, in an incomplete last big endian word,
 and for bytearrays

---
 amlib/soc/memory.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index 3225e15..8f7ec16 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -30,12 +30,15 @@ class WishboneRAM(Elaboratable):
                 value = f.read()
 
         # If we don't have bytes, read this direction.
-        if not isinstance(value, bytes):
+        if not isinstance(value, (bytes, bytearray, memoryview)):
             return value
 
-        bytes_per_chunk = data_width // granularity
+        # Each memory word holds data_width bits, independently of the bus granularity.
+        value = bytes(value)
+        bytes_per_word = data_width // 8
 
-        words = (value[pos:pos + bytes_per_chunk] for pos in range(0, len(value), bytes_per_chunk))
+        # Pad an incomplete last word, so its bytes keep their addresses in either byte order.
+        words = (value[pos:pos + bytes_per_word].ljust(bytes_per_word, b"\0") for pos in range(0, len(value), bytes_per_word))
         return [int.from_bytes(word, byteorder=byteorder) for word in words]
 
     def __init__(self, *, addr_width, data_width=32, granularity=8, init=None,
-- 
2.43.0


From d7fd93f5c813206cd4e247d531bf6f6a9752c076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 32/59] fix: UARTTransmitterPeripheral acknowledges although it
 is not addressed

---
 amlib/stream/uart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/uart.py b/amlib/stream/uart.py
index 3f23320..cecb701 100644
--- a/amlib/stream/uart.py
+++ b/amlib/stream/uart.py
@@ -245,7 +245,7 @@ class UARTTransmitterPeripheral(Elaboratable):
             tx.stream.valid    .eq(self.bus.cyc & self.bus.stb & self.bus.we),
             tx.stream.payload  .eq(self.bus.dat_w),
 
-            self.bus.ack.eq(tx.stream.ready),
+            self.bus.ack.eq(self.bus.cyc & self.bus.stb & tx.stream.ready),
             self.tx.eq(tx.tx)
         ]
         return m
-- 
2.43.0


From 8b00e07fd45b01a944102afe3720c88acea735a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 33/59] fix: SimpleSoC.resources fails when a BIOS is included

---
 amlib/soc/simplesoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/soc/simplesoc.py b/amlib/soc/simplesoc.py
index 6d1f25b..a3acc5f 100644
--- a/amlib/soc/simplesoc.py
+++ b/amlib/soc/simplesoc.py
@@ -260,7 +260,7 @@ class SimpleSoC(CPUSoC, Elaboratable):
             for resource in resources:
                 if self._build_bios and omit_bios_mem:
                     # If we're omitting bios resources, skip the BIOS ram/rom.
-                    if (self.ram._mem is resource) or (self.rom._mem is resource):
+                    if (self.scratchpad._mem is resource.resource) or (self.bootrom._mem is resource.resource):
                         continue
 
                 # ... and extract the peripheral's range/vitals...
-- 
2.43.0


From 8a487f3e53bc4669982fe73c1fe408381057919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 34/59] fix: an ILA with two pretrigger samples captures three
 of them

---
 amlib/debug/ila.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 79f6bed..b2c88c8 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -20,7 +20,7 @@ from abc             import ABCMeta, abstractmethod
 from amaranth          import Signal, Module, Cat, Elaboratable, Memory, DomainRenamer, Mux
 from amaranth.hdl.ast  import Rose
 from amaranth.lib.cdc  import FFSynchronizer
-from amaranth.lib.fifo import SyncFIFOBuffered, AsyncFIFOBuffered
+from amaranth.lib.fifo import SyncFIFO, SyncFIFOBuffered, AsyncFIFOBuffered
 from vcd             import VCDWriter
 from vcd.gtkw        import GTKWSave
 
@@ -154,8 +154,11 @@ class IntegratedLogicAnalyzer(Elaboratable):
                 with m.If(synced_enable & ~pretrigger_filled):
                     m.d.sync += pretrigger_fill_counter.eq(pretrigger_fill_counter + 1)
 
+                # A buffered FIFO delays its contents by at least two cycles,
+                # which is one sample too many for two pretrigger samples.
+                fifo_type = SyncFIFO if self.samples_pretrigger == 2 else SyncFIFOBuffered
                 m.submodules.pretrigger_fifo = pretrigger_fifo =  \
-                    DomainRenamer(self.domain)(SyncFIFOBuffered(width=capture_fifo_width, depth=self.samples_pretrigger + 1))
+                    DomainRenamer(self.domain)(fifo_type(width=capture_fifo_width, depth=self.samples_pretrigger + 1))
 
                 m.d.comb += [
                     pretrigger_fifo.w_data.eq(synced_inputs),
-- 
2.43.0


From b977c90416605dacd94ccdd4815a69880b245632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 35/59] fix: StreamILA takes the end of its readout from the
 stream of the output domain

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index b2c88c8..b59995d 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -809,7 +809,7 @@ class StreamILA(Elaboratable):
 
 
                         # If this was the last sample, we're done! Move back to idle.
-                        with m.If(self.stream.last):
+                        with m.If(in_domain_stream.last):
                             m.next = "IDLE"
 
                     with m.Else():
-- 
2.43.0


From d47e84f4c40b815560b9752e897095341d32091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 36/59] fix: StreamILA offers no sample until the receiver is
 ready

---
 amlib/debug/ila.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index b59995d..2f27a91 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -799,8 +799,8 @@ class StreamILA(Elaboratable):
                 ]
 
                 # Each time the UART accepts a valid word, move on to the next one.
-                with m.If(in_domain_stream.ready):
-                    with m.If(data_valid):
+                with m.If(data_valid):
+                    with m.If(in_domain_stream.ready):
                         m.d.sync += [
                             current_sample_number   .eq(current_sample_number + 1),
                             data_valid              .eq(0),
@@ -812,8 +812,9 @@ class StreamILA(Elaboratable):
                         with m.If(in_domain_stream.last):
                             m.next = "IDLE"
 
-                    with m.Else():
-                        m.d.sync += data_valid.eq(1)
+                # Offer the next word whether or not the receiver is ready already.
+                with m.Else():
+                    m.d.sync += data_valid.eq(1)
 
 
         # If we're not streaming out of the same domain we're capturing from,
-- 
2.43.0


From 77f715ae18570fb725271e8fde6800e98ff8bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 37/59] fix: StreamILA clocks both sides of its clock domain
 crossing in the capture domain if the output domain is sync

---
 amlib/debug/ila.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 2f27a91..0a9697f 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -836,7 +836,7 @@ class StreamILA(Elaboratable):
                 width=len(in_domain_signals),
                 depth=16,
                 w_domain="sync",
-                r_domain=self._o_domain
+                r_domain="ila_output"
             )
 
             m.d.comb += [
@@ -851,9 +851,10 @@ class StreamILA(Elaboratable):
                 fifo.r_en               .eq(self.stream.ready)
             ]
 
-        # Convert our sync domain to the domain requested by the user, if necessary.
-        if self.domain != "sync":
-            m = DomainRenamer(self.domain)(m)
+        # Convert our domains to the ones requested by the user, if necessary. Both have to be renamed
+        # at once: the output domain may be `sync`.
+        if self.domain != "sync" or self._o_domain != self.domain:
+            m = DomainRenamer({"sync": self.domain, "ila_output": self._o_domain})(m)
 
         return m
 
-- 
2.43.0


From 2cd2010f8e7a9cdac44a7813033adc9e4c27f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 38/59] fix: SyncSerialILA ignores cs_idles_high

---
 amlib/debug/ila.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 0a9697f..79a5935 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -503,6 +503,7 @@ class SyncSerialILA(Elaboratable):
 
         self.clock_phase = clock_phase
         self.clock_polarity = clock_polarity
+        self.cs_idles_high = cs_idles_high
 
         # Extract the domain from our keyword arguments, and then translate it to sync
         # before we pass it back below. We'll use a DomainRenamer at the boundary to
@@ -549,13 +550,16 @@ class SyncSerialILA(Elaboratable):
         m  = Module()
         m.submodules.ila = self.ila
 
-        transaction_start = Rose(self.spi.cs)
+        chip_selected = Signal()
+        m.d.comb += chip_selected.eq(~self.spi.cs if self.cs_idles_high else self.spi.cs)
+        transaction_start = Rose(chip_selected)
 
         # Connect up our SPI transciever to our public interface.
         interface = SPIDeviceInterface(
             word_size=self.bits_per_sample,
             clock_polarity=self.clock_polarity,
-            clock_phase=self.clock_phase
+            clock_phase=self.clock_phase,
+            cs_idles_high=self.cs_idles_high
         )
         m.submodules.spi = interface
         m.d.comb += [
@@ -570,7 +574,7 @@ class SyncSerialILA(Elaboratable):
 
         # Our first piece of data is latched in when the transaction
         # starts, so we'll move on to sample #1.
-        with m.If(self.spi.cs):
+        with m.If(chip_selected):
             with m.If(transaction_start):
                 m.d.sync += current_sample_number.eq(1)
 
-- 
2.43.0


From 041b43afe4c1f8bc183e49fcb42d2e16618aa247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 39/59] fix: SPI interfaces detect clock and chip select edges
 in the sync domain when they are moved to another one

---
 amlib/debug/ila.py |  4 ++--
 amlib/io/spi.py    | 19 +++++++++++--------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 79a5935..eebce0b 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -18,7 +18,6 @@ import subprocess
 from abc             import ABCMeta, abstractmethod
 
 from amaranth          import Signal, Module, Cat, Elaboratable, Memory, DomainRenamer, Mux
-from amaranth.hdl.ast  import Rose
 from amaranth.lib.cdc  import FFSynchronizer
 from amaranth.lib.fifo import SyncFIFO, SyncFIFOBuffered, AsyncFIFOBuffered
 from vcd             import VCDWriter
@@ -28,6 +27,7 @@ from ..stream         import StreamInterface
 from ..stream.uart    import UARTMultibyteTransmitter
 from ..io.spi         import SPIDeviceInterface, SPIDeviceBus, SPIGatewareTestCase
 from ..test.utils     import GatewareTestCase, sync_test_case
+from ..utils          import rising_edge_detected
 
 
 class IntegratedLogicAnalyzer(Elaboratable):
@@ -552,7 +552,7 @@ class SyncSerialILA(Elaboratable):
 
         chip_selected = Signal()
         m.d.comb += chip_selected.eq(~self.spi.cs if self.cs_idles_high else self.spi.cs)
-        transaction_start = Rose(chip_selected)
+        transaction_start = rising_edge_detected(m, chip_selected)
 
         # Connect up our SPI transciever to our public interface.
         interface = SPIDeviceInterface(
diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index e30e904..a0d58d8 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -10,12 +10,11 @@ import unittest
 
 from amaranth          import Signal, Module, Cat, Elaboratable, Record, Mux
 from amaranth.build    import Platform
-from amaranth.hdl.ast  import Rose, Fell
 from amaranth.hdl.rec  import DIR_FANIN, DIR_FANOUT
 from amaranth.lib.cdc  import FFSynchronizer
 
 from ..test   import GatewareTestCase, sync_test_case
-from ..utils  import SimpleClockDivider
+from ..utils  import SimpleClockDivider, rising_edge_detected, falling_edge_detected, past_value_of
 
 class SPIDeviceBus(Record):
     """ Record representing an SPI bus. """
@@ -128,8 +127,12 @@ class SPIControllerInterface(Elaboratable):
             self.word_complete.eq(spi_device.word_complete),
         ]
 
-        clock_edge = Rose(sck_divider.clock_out, clocks=self.divisor//8, domain="sync") if not self.clock_polarity else \
-                     Fell(sck_divider.clock_out, clocks=self.divisor//8, domain="sync")
+        delayed_clock = sck_divider.clock_out
+        for _ in range(self.divisor // 8):
+            delayed_clock = past_value_of(m, delayed_clock, domain="sync")
+
+        clock_edge = rising_edge_detected(m, delayed_clock) if not self.clock_polarity else \
+                     falling_edge_detected(m, delayed_clock)
 
         with m.FSM() as fsm:
             m.d.comb += sck.eq(Mux(fsm.ongoing("TRANSFER"), sck_divider.clock_out, self.clock_polarity))
@@ -247,8 +250,8 @@ class SPIDeviceInterface(Elaboratable):
         # Generate the leading and trailing edge detectors.
         # Note that we use rising and falling edge detectors, but call these leading and
         # trailing edges, as our clock here may have been inverted.
-        leading_edge  = Rose(serial_clock, domain="sync")
-        trailing_edge = Fell(serial_clock, domain="sync")
+        leading_edge  = rising_edge_detected(m, serial_clock)
+        trailing_edge = falling_edge_detected(m, serial_clock)
 
         # Determine the sample and output edges based on the SPI clock phase.
         sample_edge = trailing_edge if self.clock_phase else leading_edge
@@ -319,7 +322,7 @@ class SPIDeviceInterface(Elaboratable):
         # with clock phase 0 we need to output the first bit when chip select
         # goes active, because it will be sampled on the leading edge
         if self.clock_phase == 0:
-            with m.If(Rose(chip_selected, domain="sync")):
+            with m.If(rising_edge_detected(m, chip_selected)):
                 output_one_bit(m)
 
         with m.If(chip_selected):
@@ -558,7 +561,7 @@ class SPICommandInterface(Elaboratable):
         m = Module()
         spi = self.spi
 
-        sample_edge = Fell(spi.sck, domain="sync")
+        sample_edge = falling_edge_detected(m, spi.sck)
 
         # Bit counter: counts the number of bits received.
         max_bit_count = max(self.word_size, self.command_size)
-- 
2.43.0


From 50ef897ab801addadef94d4d8c0a69e1d19d04c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 40/59] fix: FIR filter normalises its cutoff frequency twice

---
 amlib/dsp/fixedpointfirfilter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amlib/dsp/fixedpointfirfilter.py b/amlib/dsp/fixedpointfirfilter.py
index 6cdc154..9eeeea7 100644
--- a/amlib/dsp/fixedpointfirfilter.py
+++ b/amlib/dsp/fixedpointfirfilter.py
@@ -27,8 +27,7 @@ class FixedPointFIRFilter(Elaboratable):
         self.signal_out = Signal(signed(bitwidth))
 
         if type(cutoff_freq) == int:
-            cutoff = cutoff_freq / samplerate
-            taps = signal.firwin(filter_order, cutoff, fs=samplerate, pass_zero=filter_type, window='hamming')
+            taps = signal.firwin(filter_order, cutoff_freq, fs=samplerate, pass_zero=filter_type, window='hamming')
         elif type(cutoff_freq) == list and len(cutoff_freq) == 2:
             Fs = samplerate
             Fpb = cutoff_freq[0]
@@ -49,7 +48,7 @@ class FixedPointFIRFilter(Elaboratable):
 
         if verbose:
             if type(cutoff_freq) == int:
-                print(f"{filter_order}-order windowed FIR with cutoff: {cutoff * samplerate}")
+                print(f"{filter_order}-order windowed FIR with cutoff: {cutoff_freq}")
             else:
                 print(f"{filter_order}-order FIR with start/stop band: {cutoff_freq} weight: {weight}")
             print(f"taps: {pformat(taps)}")
-- 
2.43.0


From 8994e49a5d0630af673aeca4975465b1f8ad7e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 41/59] fix: FIR filter with mac_loop uses the newest sample
 late and truncates its coefficients

---
 amlib/dsp/fixedpointfirfilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/fixedpointfirfilter.py b/amlib/dsp/fixedpointfirfilter.py
index 9eeeea7..b4a95dd 100644
--- a/amlib/dsp/fixedpointfirfilter.py
+++ b/amlib/dsp/fixedpointfirfilter.py
@@ -85,14 +85,14 @@ class FixedPointFIRFilter(Elaboratable):
             ix = Signal(range(n + 1))
             madd = Signal(signed(self.bitwidth))
             a = Signal(signed(self.bitwidth))
-            b = Signal(signed(self.bitwidth))
+            b = Signal(signed(width))
 
             with m.FSM(reset="IDLE"):
                 with m.State("IDLE"):
                     with m.If(self.enable_in):
                         m.d.sync += [
                             ix.eq(1),
-                            a.eq(x[0]),
+                            a.eq(self.signal_in),
                             b.eq(taps[0]),
                             madd.eq(0)
                         ]
-- 
2.43.0


From 1768230289c0519437154425c7d21b1eaa09d0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 42/59] fix: half band filter with mac_loop pairs the outermost
 taps with the previous samples

---
 amlib/dsp/fixedpointhbfilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/fixedpointhbfilter.py b/amlib/dsp/fixedpointhbfilter.py
index ce33b54..fc4442a 100644
--- a/amlib/dsp/fixedpointhbfilter.py
+++ b/amlib/dsp/fixedpointhbfilter.py
@@ -75,14 +75,14 @@ class FixedPointHBFilter(Elaboratable):
             ix = Signal(range(n + 2))
             madd = Signal(signed(self.bitwidth + 1))
             a = Signal(signed(self.bitwidth + 1))
-            b = Signal(signed(self.bitwidth))
+            b = Signal(signed(width))
 
             with m.FSM(reset="IDLE"):
                 with m.State("IDLE"):
                     with m.If(self.strobe_in):
                         m.d.sync += [
                             ix.eq(2),
-                            a.eq(x[0] + x[n - 1]),
+                            a.eq(self.signal_in + x[n - 2]),
                             b.eq(taps[0]),
                             madd.eq(0)
                         ]
-- 
2.43.0


From 19eaa09ce375dfe87f98669990b3c3638e5d1895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 43/59] fix: CIC filter registers cannot hold the full scale
 sum if the decimation is a power of two

---
 amlib/dsp/fixedpointcicfilter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/amlib/dsp/fixedpointcicfilter.py b/amlib/dsp/fixedpointcicfilter.py
index f4aaea3..08e7212 100644
--- a/amlib/dsp/fixedpointcicfilter.py
+++ b/amlib/dsp/fixedpointcicfilter.py
@@ -5,7 +5,6 @@
 
 from amaranth import *
 from amaranth import Signal, Module, Elaboratable
-from math import log2, ceil
 
 from ..test   import GatewareTestCase, sync_test_case
 
@@ -48,7 +47,7 @@ class FixedPointCICFilter(Elaboratable):
         self.stage = filter_stage
         self.decimation = decimation
         self.bitwidth = bitwidth
-        self.delay_width = max(1 + ceil(filter_stage*log2(decimation)), bitwidth)
+        self.delay_width = max(1 + (decimation**filter_stage).bit_length(), bitwidth)
 
         if verbose:
             print(f"{filter_stage}-stage CIC with decimation: {decimation}")
-- 
2.43.0


From 8de03c40eea53004c4dc99d6a2dff968fae2139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:16 +0000
Subject: [PATCH 44/59] fix: resampler loses samples while its output buffer is
 full

---
 amlib/dsp/resampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/resampler.py b/amlib/dsp/resampler.py
index 07c4618..3b5c2b1 100644
--- a/amlib/dsp/resampler.py
+++ b/amlib/dsp/resampler.py
@@ -84,7 +84,7 @@ class FractionalResampler(Elaboratable):
             input_ready.eq((upsample_counter == 0) & (downsamplefifo.w_rdy)),
             input_data.eq(self.signal_in.payload.as_signed()),
             antialiasingfilter.signal_in.eq(upsampled_signal),
-            antialiasingfilter.enable_in.eq(upsample_counter > 0),
+            antialiasingfilter.enable_in.eq((upsample_counter > 0) & downsamplefifo.w_rdy),
             downsamplefifo.w_en.eq(downsamplefifo.w_rdy & antialiasingfilter.enable_in),
         ]
 
@@ -94,7 +94,7 @@ class FractionalResampler(Elaboratable):
                 antialiasingfilter.enable_in.eq(1),
             ]
             m.d.sync += upsample_counter.eq(self.upsample_factor - 1)
-        with m.Elif(upsample_counter > 0):
+        with m.Elif((upsample_counter > 0) & downsamplefifo.w_rdy):
             m.d.comb += upsampled_signal.eq(0)
             m.d.sync += upsample_counter.eq(upsample_counter - 1)
 
-- 
2.43.0


From fc96a88df4494f9cf586063c1fd0975f23ba2ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:16 +0000
Subject: [PATCH 45/59] fix: resampler offers a result only while the consumer
 is ready

---
 amlib/dsp/resampler.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/amlib/dsp/resampler.py b/amlib/dsp/resampler.py
index 3b5c2b1..3f31a11 100644
--- a/amlib/dsp/resampler.py
+++ b/amlib/dsp/resampler.py
@@ -103,27 +103,17 @@ class FractionalResampler(Elaboratable):
 
         m.d.comb += [
             downsamplefifo.w_data.eq(antialiasingfilter.signal_out),
-            self.signal_out.valid.eq(downsamplefifo.r_rdy),
+            self.signal_out.payload.eq(downsamplefifo.r_data),
+            self.signal_out.valid.eq(downsamplefifo.r_rdy & (downsample_counter == 0)),
+            # samples between the decimated ones are discarded immediately
+            downsamplefifo.r_en.eq(self.signal_out.ready | (downsample_counter > 0)),
         ]
 
-        with m.If(downsamplefifo.r_rdy & self.signal_out.ready):
-            m.d.comb += downsamplefifo.r_en.eq(1)
-
+        with m.If(downsamplefifo.r_rdy & downsamplefifo.r_en):
             with m.If(downsample_counter == 0):
                 m.d.sync += downsample_counter.eq(self.downsample_factor - 1)
-                m.d.comb += [
-                    self.signal_out.payload.eq(downsamplefifo.r_data),
-                    self.signal_out.valid.eq(1),
-                ]
             with m.Else():
                 m.d.sync += downsample_counter.eq(downsample_counter - 1)
-                m.d.comb += self.signal_out.valid.eq(0)
-
-        with m.Else():
-            m.d.comb += [
-                downsamplefifo.r_en.eq(0),
-                self.signal_out.valid.eq(0),
-            ]
 
         return m
 
-- 
2.43.0


From 94c7836093886bae3d2a3e7061351b4736f87348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 46/59] fix: packed negative convolution taps decrement their
 neighbours

---
 amlib/dsp/convolution/mac.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index b20a128..79cb856 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -95,8 +95,8 @@ class StereoConvolutionMAC(Elaboratable):
             val1 = 0
             val2 = 0
             for j in range(self._slices):
-                val1 += int(taps_fp[i+j]) << (self._slices - j - 1) * self._bitwidth
-                val2 += int(taps2_fp[i+j]) << (self._slices - j - 1) * self._bitwidth
+                val1 += (int(taps_fp[i+j]) % 2**bitwidth) << (self._slices - j - 1) * self._bitwidth
+                val2 += (int(taps2_fp[i+j]) % 2**bitwidth) << (self._slices - j - 1) * self._bitwidth
             taps_fp_mod.append(val1)
             taps2_fp_mod.append(val2)
 
-- 
2.43.0


From f0eb11fbb8a69b6f5b8050f9cbabec0fe9f8b874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 47/59] fix: stereo convolution loses results the consumer does
 not take immediately

---
 amlib/dsp/convolution/mac.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index 79cb856..a813f80 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -282,9 +282,11 @@ class StereoConvolutionMAC(Elaboratable):
                     ix.eq(0),
                 ]
 
-                with m.If(output_channels == 2):
+                with m.If(self.signal_out.valid & ~self.signal_out.ready):
+                    m.d.sync += self.signal_out.valid.eq(1)
+                with m.Elif(output_channels == 2):
                     m.next = "IDLE"
-                with m.Elif(self.signal_out.ready):
+                with m.Else():
                     m.d.sync += [
                         output_channels.eq(output_channels + 1),
                         self.signal_out.payload.eq(Mux(output_channels == 0, sumSignalL >> self._bitwidth, sumSignalR >> self._bitwidth)),
-- 
2.43.0


From 5cf78be308961d8e83550b20ba6f95934869805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:46 +0000
Subject: [PATCH 48/59] fix: stereo convolution hangs with 2**k-1 samples per
 slice

---
 amlib/dsp/convolution/mac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index a813f80..3f15ab6 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -118,7 +118,7 @@ class StereoConvolutionMAC(Elaboratable):
         set1 = Signal()
         set2 = Signal()
         output_channels = Signal(2)
-        ix = Signal(range(self._samples_per_slice + 1))
+        ix = Signal(range(self._samples_per_slice + 2))
 
         previous_sample1 = Signal(self._size_of_slizes)
         previous_sample2 = Signal.like(previous_sample1)
-- 
2.43.0


From 5286103428bfbd4b5f5223e0b6331770fbdb8d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 49/59] fix: FFT outputs every value one position late and
 never the last one

---
 amlib/dsp/fixedpointfft.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 5c57ff9..bfcf608 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -422,7 +422,10 @@ class FixedPointFFT(Elaboratable):
                             xr_rd.addr.eq(idx),
                             xi_rd.addr.eq(idx),
                         ]
-                    m.next = "READOUT"
+                    m.next = "OUTPUT_LATCHED"
+
+            with m.State("OUTPUT_LATCHED"):
+                m.next = "READOUT"
 
             with m.State("READOUT"):
                 with m.If(N & 1):
-- 
2.43.0


From c532af10bbcf7e8932238865a34c00e731883fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 50/59] fix: FFT stores loaded window coefficients one position
 late

---
 amlib/dsp/fixedpointfft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index bfcf608..0049292 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -222,7 +222,6 @@ class FixedPointFFT(Elaboratable):
                     m.d.sync += wfidx.eq(0)
                     m.next = "DONE"
                 with m.Else():
-                    m.d.sync += wfidx.eq(wfidx+1)
                     m.next = "WINDOW_WR"
 
             with m.State("WINDOW_WR"):
@@ -231,6 +230,7 @@ class FixedPointFFT(Elaboratable):
                         wFr_wr.addr.eq(wfidx),
                         wFr_wr.en.eq(1),
                         wFi_wr.en.eq(1),
+                        wfidx.eq(wfidx+1),
                     ]
                     m.next = "WINDOW_WRLOOP"
 
-- 
2.43.0


From 9d37c43c890a46857955c83615c51ac1c51ad82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 51/59] fix: FFT writes every imaginary window coefficient to
 the first position

---
 amlib/dsp/fixedpointfft.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 0049292..3e0ba39 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -228,6 +228,7 @@ class FixedPointFFT(Elaboratable):
                 with m.If(self.wf_strobe):
                     m.d.sync += [
                         wFr_wr.addr.eq(wfidx),
+                        wFi_wr.addr.eq(wfidx),
                         wFr_wr.en.eq(1),
                         wFi_wr.en.eq(1),
                         wfidx.eq(wfidx+1),
-- 
2.43.0


From 91c3b53c4f642f26803ad78bb943b8f3a4b0c6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 52/59] fix: FFT samples loaded window coefficients one cycle
 after their strobe

---
 amlib/dsp/fixedpointfft.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 3e0ba39..2feaf5e 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -143,11 +143,6 @@ class FixedPointFFT(Elaboratable):
 
         # Window write
         wfidx = Signal(range(self.pts+1))
-        m.d.comb += [
-            wFr_wr.data.eq(self.wf_real),
-            wFi_wr.data.eq(self.wf_imag),
-        ]
-
         # FFT
         widx = Signal(N)
         stage = Signal(range(N+1))
@@ -227,6 +222,8 @@ class FixedPointFFT(Elaboratable):
             with m.State("WINDOW_WR"):
                 with m.If(self.wf_strobe):
                     m.d.sync += [
+                        wFr_wr.data.eq(self.wf_real),
+                        wFi_wr.data.eq(self.wf_imag),
                         wFr_wr.addr.eq(wfidx),
                         wFi_wr.addr.eq(wfidx),
                         wFr_wr.en.eq(1),
-- 
2.43.0


From 8b31a0cb943f97c42da25d387ba93bae05521159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 53/59] fix: UARTPeripheral with pins drives its receiver input
 from two places

---
 amlib/soc/uart.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amlib/soc/uart.py b/amlib/soc/uart.py
index 9a05d3e..5e18b7e 100644
--- a/amlib/soc/uart.py
+++ b/amlib/soc/uart.py
@@ -63,6 +63,7 @@ class UARTPeripheral(Peripheral, Elaboratable):
     def __init__(self, *, rx_depth=16, tx_depth=16, **kwargs):
         super().__init__()
 
+        self._has_pins  = kwargs.get("pins") is not None
         self._phy       = AsyncSerial(**kwargs)
         self._rx_fifo   = SyncFIFO(width=self._phy.rx.data.width, depth=rx_depth)
         self._tx_fifo   = SyncFIFO(width=self._phy.tx.data.width, depth=tx_depth)
@@ -128,8 +129,11 @@ class UARTPeripheral(Peripheral, Elaboratable):
             self._tx_mty_ev.stb   .eq(~self._tx_fifo.r_rdy),
 
             self.tx               .eq(self._phy.tx.o),
-            self._phy.rx.i        .eq(self.rx),
             self.driving          .eq(~self._phy.tx.rdy)
         ]
 
+        # with pins, the receiver's input is driven by the synchronizer in the PHY
+        if not self._has_pins:
+            m.d.comb += self._phy.rx.i.eq(self.rx)
+
         return m
-- 
2.43.0


From b9ade92d917f08de54ffc041b4cd64c8e64778bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 54/59] fix: bits returns the wrong bit for a negative index

---
 amlib/utils/bits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/utils/bits.py b/amlib/utils/bits.py
index feda7d8..0b01dc8 100644
--- a/amlib/utils/bits.py
+++ b/amlib/utils/bits.py
@@ -137,7 +137,7 @@ class bits:
     def __getitem__(self, key):
         if isinstance(key, int):
             if key < 0:
-                return (self._int_ >> (self._len_ - key)) & 1
+                return (self._int_ >> (self._len_ + key)) & 1
             else:
                 return (self._int_ >> key) & 1
         if isinstance(key, slice):
-- 
2.43.0


From 9e3f225db0400fe3564d9248dde75dbd65a172be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 55/59] fix: comparing bits with something that is no bit
 sequence raises ValueError

---
 amlib/utils/bits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/utils/bits.py b/amlib/utils/bits.py
index 0b01dc8..149e0ad 100644
--- a/amlib/utils/bits.py
+++ b/amlib/utils/bits.py
@@ -157,7 +157,7 @@ class bits:
     def __eq__(self, other):
         try:
             other = self.__class__(other)
-        except TypeError:
+        except (TypeError, ValueError):
             return False
         return self._len_ == other._len_ and self._int_ == other._int_
 
-- 
2.43.0


From 68b5b72c278f40a7a1991e05ffea2734c2eed203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 56/59] fix: AsyncSerialILAFrontend takes the bytes of a sample
 in the wrong order

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index eebce0b..72d6f62 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1264,7 +1264,7 @@ class AsyncSerialILAFrontend(ILAFrontend):
             raw_sample    = all_samples[i:i + sample_width_bytes]
             sample_length = len(Cat(self.ila.signals))
 
-            yield bits.from_bytes(raw_sample, length=sample_length, byteorder='big')
+            yield bits.from_bytes(raw_sample, length=sample_length, byteorder='little')
 
 
     def _read_samples(self):
-- 
2.43.0


From 49e33d4b0a22112ad33844ef623cf6a7c7ed30c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 57/59] fix: GTKWave save traces the clock of the ILA even if
 it was not added

---
 amlib/debug/ila.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 72d6f62..32d17fa 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1201,7 +1201,8 @@ class ILAFrontend(metaclass=ABCMeta):
             gtkw.dumpfile(dump_filename)
 
             # If we're adding a clock, add it to the top of the view.
-            gtkw.trace('ila.ila_clock')
+            if add_clock:
+                gtkw.trace('ila.ila_clock')
 
             # Gain more screen space by collapsing the signal tree
             gtkw.sst_expanded(False)
-- 
2.43.0


From a732eca99880185057a50f652391449923c43ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 58/59] fix: interactive_display of the ILA ignores add_clock

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 32d17fa..d80ccb5 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1227,7 +1227,7 @@ class ILAFrontend(metaclass=ABCMeta):
             vcd_filename = os.path.join(tempfile.gettempdir(), os.urandom(24).hex() + '.vcd')
             gtkw_filename = os.path.join(tempfile.gettempdir(), os.urandom(24).hex() + '.gtkw')
 
-            self.emit_vcd(vcd_filename, gtkw_filename=gtkw_filename)
+            self.emit_vcd(vcd_filename, gtkw_filename=gtkw_filename, add_clock=add_clock)
             subprocess.run(["gtkwave", "-f", vcd_filename, "-a", gtkw_filename])
         finally:
             os.remove(vcd_filename)
-- 
2.43.0


From cc47b879063ef0d3b5c364b4716a02917102f0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 59/59] fix: SPI devices come out of reset deselected with an
 idle clock

The synchronisers of an idle-high chip select and clock started low, i.e. selected
and with an active clock edge; one-bit words were received without any transfer.
---
 amlib/io/spi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index a0d58d8..7330fdb 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -274,8 +274,8 @@ class SPIDeviceInterface(Elaboratable):
                 sdi.eq(self.spi.sdi),
             ]
         else:
-            m.submodules.cs_cdc  = FFSynchronizer(self.spi.cs,  cs)
-            m.submodules.sck_cdc = FFSynchronizer(self.spi.sck, sck)
+            m.submodules.cs_cdc  = FFSynchronizer(self.spi.cs,  cs,  reset=int(self.cs_idles_high))
+            m.submodules.sck_cdc = FFSynchronizer(self.spi.sck, sck, reset=self.clock_polarity)
             m.submodules.sdi_cdc = FFSynchronizer(self.spi.sdi, sdi)
 
         # Grab signals that detect when we should shift in and out.
-- 
2.43.0

