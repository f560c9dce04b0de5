"""single source for properties.jsonl and MANIFEST.json (run tools/gen.py)"""
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state))


def na(id, title, statement, over, text, why, files, mech, observe, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=None, note=None, state=None, reason=reason))


TS = "static typestate/data-flow analysis of the hardware IR (abstract interpretation, provenance domain, fixpoint)"
NOTE = ("Sound for the analysed configurations: obligations are discharged in every control location reachable from "
        "reset, for all inputs and unbounded time. Trusts Amaranth's elaboration to IR, the IR transfer functions and "
        "the typestate automaton; parameter values outside the configuration table are not covered.")

prop("C01", "Transactional FIFO is a queue with exact commit and rewind",
     "The transactional FIFO delivers committed words exactly once per committed read, in write order and unchanged; discarding writes removes exactly the words written since the last write commit, and discarding reads makes exactly the words read since the last read commit readable again, starting with the very next cycle. "
     "A write while full and a read while empty change nothing, empty is set exactly when no committed unread word exists, full exactly when every place holds a live word, and the reported space always equals the depth minus the live words. "
     "This holds for every depth (also one and non-powers of two) and every sequence of simultaneous read, write, commit and discard strobes in which one side does not commit and discard in the same cycle.",
     ["histories", "inputs", "configurations"], "all strobe/data histories; depths 1..8; larger depths with one side (or both) committing every word",
     "The test drives one scripted history with depth 16; wrap-around, non-power-of-two depth, and simultaneous strobes on both sides are not reached.",
     ["amlib/utils/fifo.py"], [("pointer update, address lookahead and flag logic", "amlib/utils/fifo.py TransactionalizedFIFO.elaborate")],
     ["read_data", "empty", "full", "space_available"], TS, NOTE)

prop("C02", "Stream arbiter and multiplexers never mix or interrupt streams",
     "The stream arbiter passes valid, payload, first, last and extra fields of exactly one input to its output and returns ready to that input only; the active input changes only after a cycle in which it was not valid, then to the valid input that was added first, and idle is set exactly when no input is valid. "
     "The stream multiplexer and the one-hot multiplexer pass the fields of the valid input (and nothing when none is valid), the multiplexer returns ready to it, the one-hot multiplexer ORs its or-signals over all inputs and hands its pass-back signals to every input.",
     ["schedules", "inputs", "configurations"], "all interleavings of valid/ready on 1..6 and 9 inputs, with and without extra fields, any domain",
     "No test instantiates the arbiter or the multiplexers.",
     ["amlib/stream/arbiter.py", "amlib/utils/bus.py"],
     [("owner register and priority selection", "amlib/stream/arbiter.py StreamArbiter.elaborate"),
      ("priority chain", "amlib/stream/arbiter.py StreamMultiplexer.elaborate"), ("encoder multiplexer", "amlib/utils/bus.py OneHotMultiplexer.elaborate")],
     ["source.*", "idle", "sink ready", "output.*"], TS, NOTE)

prop("C03", "Stream wiring helpers forward every field in the right direction",
     "Attaching, connecting or equating two streams makes valid, first, last, payload and every extra field of the originator appear unchanged at the receiver and the receiver's ready appear at the originator, omitting exactly the named fields; a tap copies all of these and never drives the tapped stream. "
     "Connecting a FIFO to a stream (or a stream to a FIFO) transfers a word on one side exactly when it is transferred on the other, with the payload in the low bits and first/last at the given bit numbers, whichever they are.",
     ["inputs", "configurations"], "all field values; payload and valid widths, extra fields, omit sets, bit numbers",
     "The helpers are only used indirectly in one simulated component; extra fields, omit, tap and bit numbers are never exercised.",
     ["amlib/stream/__init__.py"], [("field lists", "amlib/stream/__init__.py StreamInterface.attach"), ("bit mapping", "amlib/stream/__init__.py connect_fifo_to_stream, connect_stream_to_fifo")],
     ["stream fields", "FIFO ports"], TS, NOTE)

prop("C04", "Stream generators emit exactly the requested words under any backpressure",
     "Each start accepted while idle makes the constant stream generator and the stream serializer emit exactly one packet: the words from the (clamped) start position to the end of the data or the maximum length, whichever comes first, in order and correctly packed for multi-byte words, with first on exactly the first word, last on exactly the last, and the byte-valid mask covering exactly the bytes that remain. "
     "An offered word stays unchanged until it is accepted, nothing is offered outside a transmission or for a maximum length of zero, done is signalled exactly once after the last word was accepted, and the generator is then ready for the next start.",
     ["schedules", "inputs", "configurations"], "all ready/start schedules, all start positions and maximum lengths; data lengths, widths, endianness",
     "The tests use one string and two ready patterns; the wide-word tests are skipped.",
     ["amlib/stream/generator.py"], [("position/byte counters and last-word logic", "amlib/stream/generator.py ConstantStreamGenerator.elaborate"), ("serializer FSM", "amlib/stream/generator.py StreamSerializer.elaborate")],
     ["stream.*", "done", "output_length"], TS, NOTE)

prop("C05", "Packet list streamer sends every packet exactly once per start",
     "Each start makes the packet list streamer emit all packets of its list in order and unchanged, at the full payload width, with first and last on exactly the first and last word of every packet, however the receiver stalls. "
     "After the last word it signals done exactly once, offers nothing more, and accepts the next start; no start time, packet count or total length makes it hang or repeat.",
     ["schedules", "configurations"], "all start/ready schedules; packet lists incl. single words, power-of-two totals, wide payloads",
     "The one test uses a 22-byte list, 8-bit words and one start time.",
     ["amlib/stream/generator.py"], [("packet sequencing FSM and length ROM", "amlib/stream/generator.py PacketListStreamer.elaborate")],
     ["stream.*", "done"], TS, NOTE)

prop("C06", "Edge detectors, delays, stretchers and line encoders are cycle exact",
     "The rising, falling and any-edge detectors are high in exactly the cycles in which the signal differs from the previous cycle in the named way (any-edge: any bit of a multi-bit signal), and the past-value helper returns the full-width value of one cycle ago. "
     "A stretched strobe is high for exactly the requested number of cycles starting with (or, if delay is allowed, after) each strobe, overlapping strobes extending it; the edge-to-pulse converter pulses once per rising edge; the NRZI encoder toggles once for every one bit and holds for every zero bit. All of them run in exactly the clock domain they are given.",
     ["histories", "inputs", "configurations"], "all input histories; signal widths 1..33, stretch lengths 1..33, domains",
     "The tests check one-bit signals in the default domain with a few transitions.",
     ["amlib/utils/__init__.py", "amlib/utils/edgetopulse.py", "amlib/utils/nrziencoder.py"],
     [("edge and delay helpers", "amlib/utils/__init__.py rising_edge_detected, falling_edge_detected, any_edge_detected, past_value_of"),
      ("strobe stretcher", "amlib/utils/cdc.py stretch_strobe_signal")],
     ["returned signal", "pulse_out", "nrzi_out"], TS, NOTE)

prop("C07", "Shift registers and LFSR step by their definition from every state",
     "The input shift register holds the bits shifted in since the last clear with the newest in bit 0, the output shift register emits a loaded value least significant bit first (filling with zeros, or rotating if requested), and clear/load take precedence over enable. "
     "The linear feedback shift register starts at its reset value, and from every state the next value is the value shifted left by one with the parity of all tap bits in bit 0.",
     ["histories", "inputs", "configurations"], "all control histories and data; depths 1..33, LFSR degrees 1..33, from every state",
     "The LFSR tests compare one sequence of one configuration; no test covers the shift registers' simultaneous strobes.",
     ["amlib/utils/shiftregister.py", "amlib/utils/lfsr.py"],
     [("register update", "amlib/utils/shiftregister.py"), ("feedback", "amlib/utils/lfsr.py LinearFeedbackShiftRegister.elaborate")],
     ["value_out", "bit_out", "value"], TS, NOTE)

prop("C08", "Timer, dividing counter and clock divider count exactly",
     "Started with a non-zero load value, the timer raises done exactly load cycles after the start and then every reload cycles, for one cycle each; with reload zero it fires once and can be started again when restart is allowed; while idle, done is low and the counter shows the load value (or the reload value when load is zero). "
     "The dividing counter counts the active cycles since its reset, its divided output counts how often a multiple of the divisor was reached, and the dividable flag marks exactly the multiples. "
     "The clock divider toggles every half divisor while enabled, rests at its polarity otherwise, and never produces a shortened phase.",
     ["histories", "inputs", "configurations"], "all start/enable/reload histories; timer widths with all load and reload values, divisors 1..254",
     "Tests cover one load value and no reload; the divided count and clock polarity are sampled once.",
     ["amlib/utils/timer.py", "amlib/utils/dividingcounter.py", "amlib/utils/clockdivider.py"],
     [("timer counter", "amlib/utils/timer.py Timer.elaborate"), ("divided counter", "amlib/utils/dividingcounter.py"), ("clock divider", "amlib/utils/clockdivider.py")],
     ["done", "counter_out", "divided_counter_out", "dividable_out", "clock_out"], TS, NOTE)

prop("C09", "Asynchronous inputs pass a two-stage synchroniser before any use",
     "No output, condition or arithmetic depends on the serial receiver's pin, the I2C bus lines, the SPI device interface's bus inputs, the I2S bit clock, word select and serial data, or the debouncer's button before the value has passed two registers of the using clock domain. "
     "The synchronise helper delays every input field by exactly the requested number of registers in the requested domain, drives output fields towards the pin without delay, returns the given output, and delegates to objects that synchronise themselves.",
     ["schedules", "configurations"], "all paths from the listed pins through the elaborated netlist; stages 2..5, signals and records",
     "Simulation has no metastability: a missing synchroniser stage passes every functional test.",
     ["amlib/utils/cdc.py", "amlib/io/serial.py", "amlib/io/i2c.py", "amlib/io/spi.py", "amlib/io/i2s.py", "amlib/io/debouncer.py"],
     [("helper", "amlib/utils/cdc.py synchronize"), ("pins", "amlib/io/*")], ["all uses of the pins"],
     "static use/copy-graph (def-use) analysis of the hardware IR, plus data-flow analysis of the helper", NOTE)

prop("C10", "Serial transmitter sends well-formed frames for every word and schedule",
     "After every accepted word the asynchronous serial transmitter's line carries exactly a start bit, the data bits least significant first, the parity bit of the configured kind (none, mark, space, even, odd) and a stop bit, each for exactly divisor cycles (the stop bit at least as long), and is high otherwise. "
     "Each word with ready and acknowledge high is sent exactly once, no word is accepted while bits of the previous one are outstanding, and ready always returns. Zero or too small divisors and unknown parities are rejected.",
     ["schedules", "inputs", "configurations"], "all words and acknowledge schedules; divisors 1..16, 257, 300, 434, 1..16 data bits, all parities",
     "Tests send a couple of words at one divisor, always acknowledging at the same time.",
     ["amlib/io/serial.py"], [("transmit FSM, shift register and bit timer", "amlib/io/serial.py AsyncSerialTX.elaborate")],
     ["o", "rdy", "pins.tx.o"], TS, NOTE)

prop("C11", "Serial receiver delivers each frame exactly once with exact error flags",
     "For every sequence of frames with arbitrary gaps and arbitrary levels at the edges of the bit cells, the asynchronous serial receiver delivers each word exactly once through ready/acknowledge, composed of the mid-cell bits least significant first; its frame flag is set exactly when the start or stop bit was wrong and its parity flag exactly when the parity does not fit. "
     "A frame that completes while the receiver is not acknowledged is reported as overflow and never corrupts a delivered word, and a word sent by the transmitter of the same configuration arrives unchanged.",
     ["inputs", "schedules", "histories", "configurations"], "all words, gaps, edge noise and acknowledge schedules; divisors 5.., data bits, parities",
     "Tests send a few clean frames; noise at bit boundaries, back-to-back frames and late acknowledgement are not covered.",
     ["amlib/io/serial.py"], [("receive FSM and sampling timer", "amlib/io/serial.py AsyncSerialRX.elaborate")],
     ["data", "rdy", "err.*"], TS, NOTE)

prop("C13", "I2C initiator obeys the bus protocol for every command sequence",
     "For every legal command sequence, data, acknowledge and clock-stretch pattern, the I2C initiator never drives SCL or SDA high, changes SDA while SCL is high only for the commanded start or stop condition, and produces exactly nine SCL pulses per octet, no SCL phase being shorter than half the period nor, unless a device stretches it, more than eight system cycles longer. "
     "Written octets appear on SDA most significant bit first and SDA is released for the acknowledge bit, which is reported in ack_o; read octets are the levels sampled while SCL is high, followed by the requested acknowledge bit. Commands are accepted only while busy is low; busy stays low without a command and always returns low after one unless the clock is held.",
     ["histories", "inputs", "schedules", "configurations"], "all command/stretch/device schedules and data; periods 4..100, with and without stretching",
     "The tests run each command once or twice, without stretching, for two octet values.",
     ["amlib/io/i2c.py"], [("command FSM, SCL timer", "amlib/io/i2c.py I2CInitiator")], ["pads", "busy", "ack_o", "data_o"], TS, NOTE)

prop("C14", "I2C target answers exactly its address and drives SDA only in its slots",
     "For every sequence of start, repeated start, stop, address and octet transfers by a bus master, the I2C target acknowledges exactly its own seven-bit address, signals start and restart exactly for transactions addressed to it, signals stop at their end, and never drives SCL high, SDA high or SDA in a bit slot that belongs to the master. "
     "For every octet written to it, it strobes write once with exactly that octet and acknowledges exactly if the core asked for it; for every octet read from it, it strobes read once and sends exactly the core's octet most significant bit first, stopping after a not-acknowledge. SDA never changes while SCL is high.",
     ["histories", "inputs", "schedules", "configurations"], "all transaction sequences incl. restarts inside octets, all octets and bus phase lengths; several addresses",
     "The tests use one address and single-octet transactions with fixed timing.",
     ["amlib/io/i2c.py"], [("target FSM", "amlib/io/i2c.py I2CTarget")], ["start", "stop", "restart", "write", "read", "data_i", "sda/scl outputs"], TS, NOTE)

prop("C16", "I2C stream transmitter sends every packet as one complete transaction",
     "Every packet accepted by the I2C stream transmitter appears on the bus exactly once, in order: a start condition, each octet in order and unchanged with SDA released in the acknowledge slot, and a stop condition after the octet marked last. "
     "Nothing else appears on the bus however the producer pauses inside or between packets, whatever the device acknowledges, or how long it stretches the clock. Ready is withheld only while the FIFO is full, and always returns.",
     ["schedules", "inputs", "configurations"], "all packet lengths, pauses, acknowledge and stretch patterns; FIFO depths 1.., periods 4..",
     "The only test sends one packet with all words available immediately.",
     ["amlib/stream/i2c.py"], [("stream FSM", "amlib/stream/i2c.py I2CStreamTransmitter.elaborate")], ["pads", "stream_in.ready"], TS, NOTE)

prop("C17", "SPI device exchanges words bit exactly in all modes and survives aborts",
     "In every combination of clock polarity, clock phase, bit order and chip-select polarity, for every word size, the SPI device interface puts the bits of the current output word on its data output before each sampling edge of the clock, and reports each completely received word exactly once, with all its bits in order, through word_in and word_complete. "
     "word_accepted precedes each completion exactly once, several words may follow each other in one selection, and a transfer aborted by deselection at any bit neither reports a word nor disturbs the following one. A deselected device's data output stays low.",
     ["inputs", "histories", "schedules", "configurations"], "all words, clock timings and abort points; 4 modes, bit orders, word sizes 1..24",
     "The tests use 16-bit words in mode 0 and single words; aborts and the other modes are not reached.",
     ["amlib/io/spi.py"], [("bit counter and shift registers", "amlib/io/spi.py SPIDeviceInterface.elaborate")], ["sdo", "word_in", "word_accepted", "word_complete"], TS, NOTE)

prop("C18", "SPI controller transfers exactly one word per start with clean bus signals",
     "For every start while idle, the SPI controller selects the device, produces exactly word_size sampling clock edges of the configured polarity and phase with bit i of word_out on its data output around edge i, deselects, reports exactly one word_accepted, after which word_out may change, and exactly one word_complete with the levels the device supplied at these edges composed in word_in. "
     "Outside transfers chip select and clock are idle in the configured polarity. The SPI multiplexer connects exactly the selected bus and keeps all others deselected, and connect_to_resource connects every bus signal to its platform pin in the right direction.",
     ["inputs", "histories", "configurations"], "all words, device data and start times; modes, bit orders, polarities, divisors >=12, word sizes",
     "The tests run two transfers at one divisor against a device of the same library.",
     ["amlib/io/spi.py"], [("clock generator and FSM", "amlib/io/spi.py SPIControllerInterface.elaborate"), ("multiplexer", "amlib/io/spi.py SPIMultiplexer"), ("pin connection", "amlib/io/spi.py connect_to_resource")],
     ["spi bus", "word_in", "word_accepted", "word_complete"], TS, NOTE)

prop("C19", "SPI command and register interfaces execute each transaction exactly once",
     "The SPI command interface reports each complete command exactly once with its exact value, shifts out the word to send given in response most significant bit first, and reports the received word exactly once with its exact value; a transaction aborted at any bit reports nothing that was not completely received, and the next transaction is unaffected; stalled is high only from the end of a complete transaction until its deselection, idle only while no transaction is under way. "
     "The SPI register interface writes exactly the addressed writable register with exactly the received value and strobes only its write and read strobes, returns the addressed register (or the default value for unknown addresses), never changes a register for a read, an unknown address or an aborted transaction, and rejects duplicate or unreachable addresses.",
     ["inputs", "histories", "schedules", "configurations"], "all commands, values, abort points and clock timings; register maps of all register kinds",
     "The tests perform one or two complete transactions on a fixed map; aborts and multi-transaction histories are not covered.",
     ["amlib/io/spi.py"], [("command FSM", "amlib/io/spi.py SPICommandInterface.elaborate"), ("register multiplexing", "amlib/io/spi.py SPIRegisterInterface")],
     ["command", "word_received", "word_complete", "sdo", "register signals and strobes"], TS, NOTE)

prop("C21", "I2S transmitter puts every sample bit exactly into its channel slot",
     "While enabled, the I2S transmitter sends in every left slot the next queued sample if it is marked first, and in every right slot the next queued sample if it is not: most significant bit first, delayed by one bit clock as the standard requires, each bit stable around the rising bit clock edge. "
     "If no sample is queued it sends zeros and strobes underflow once; if the next sample belongs to the other channel it sends zeros, strobes mismatch once and keeps the sample. No accepted sample is lost, duplicated, or swapped between channels whenever transmission is enabled, disabled or re-enabled, for any sample width and any slot length of at least sample_width+1 bit clocks, and the reported FIFO level is the number of waiting samples.",
     ["histories", "inputs", "schedules", "configurations"], "all samples, flags, arrival times, enable times, bit-clock and slot lengths; sample widths 1..39",
     "The tests use 24-bit samples in 256-cycle slots with a full FIFO, always enabled.",
     ["amlib/io/i2s.py"], [("transmit FSM and bit counter", "amlib/io/i2s.py I2STransmitter.elaborate")],
     ["serial_data_out", "underflow_out", "mismatch_out", "fifo_level_out", "stream_in.ready"], TS, NOTE)

prop("C22", "I2S receiver delivers every sample with its channel flag",
     "While enabled, the I2S receiver composes the sample of every slot from the data bits at the rising bit clock edges, most significant first (after a delay of one bit clock in the standard format, none in the left justified format), and delivers the samples in order through its stream with first on exactly the left and last on exactly the right samples. "
     "Reception begins with a left sample whenever it is enabled; if the FIFO is full exactly the newest sample is dropped; and the reported FIFO level is the number of waiting samples.",
     ["histories", "inputs", "schedules", "configurations"], "all data, enable times, stalls, bit-clock and slot lengths; sample widths 1..39, both formats",
     "The loopback test uses 24-bit samples, one slot length, the standard format and an always ready receiver.",
     ["amlib/io/i2s.py"], [("receive FSM and bit counter", "amlib/io/i2s.py I2SReceiver.elaborate")], ["stream_out", "fifo_level_out"], TS, NOTE)

prop("C23", "Seven-segment and bar displays show every number correctly",
     "The seven-segment encoders show for every nibble the pattern of its hexadecimal digit (segments a to g in bits 6 to 0), a different one for each digit, with digit i and its dot in byte i of the output; the registered variant delays digits and dots equally by one cycle. "
     "The bar display is always a contiguous bar from bit 0: empty exactly up to the minimum, full exactly from the maximum on, and in between growing by one bit for every (maximum-minimum)//(bits-2) steps of the value, from one to all but one bit.",
     ["inputs", "configurations"], "all numbers; widths 4..64, bar ranges incl. powers of two",
     "No test covers the seven-segment encoders; the bar test covers one range.",
     ["amlib/io/led.py"], [("segment tables", "amlib/io/led.py NibbleToSevenSegmentHex"), ("thresholds", "amlib/io/led.py NumberToBitBar.elaborate")],
     ["seven_segment_out", "bitbar_out"], "static data-flow analysis of the hardware IR (Boolean functions of provenance tokens)", NOTE)

prop("C24", "WS2812 driver transmits every LED's colour with legal pulse timing",
     "After each start the LED driver holds the line low for at least 50 microseconds, sends for every LED in address order the 24 bits of its memory entry (green, red, blue, most significant bit first), then holds the line low for at least 50 microseconds again and signals done exactly once; otherwise the line is low and done inactive. "
     "Every bit starts with a high pulse of 0.2 to 0.5 us for a zero and 0.55 to 1.0 us for a one, and has a period of 1.0 to 1.7 us. Colours written at any time, even during a transmission, are sent completely from the next transmission of their LED on.",
     ["inputs", "histories", "schedules", "configurations"], "all colours and write/start times; 1..5 LEDs, clocks 4..48 MHz",
     "The test writes three colours and checks nothing.",
     ["amlib/io/ws2812.py"], [("bit timing and LED sequencing", "amlib/io/ws2812.py WS2812.elaborate")], ["data_out", "done_out"], TS, NOTE)

prop("C25", "MAX7219 array sends its init commands once and then every digit in turn",
     "After the initial delay the LED array driver sends each command of its init sequence exactly once, in order and to all modules, and then for ever the digits 1 to 8 in turn, each frame carrying for every module the digit's address and current contents, in frames of exactly 16 bits per module while chip select is active. "
     "A digit update given with valid is shown completely from the next frame of that digit on, and the refresh never stops.",
     ["inputs", "histories", "configurations"], "all digit contents and update times; 1..3 modules, init sequences of 1..20 commands",
     "The test runs one configuration and checks nothing.",
     ["amlib/io/max7219.py"], [("step and digit counters", "amlib/io/max7219.py SerialLEDArray.elaborate")], ["spi_bus_out"], TS, NOTE)

prop("C26", "Debouncer changes state only after a stable input and strobes exactly once",
     "The debouncer's state follows the active-low button, and changes exactly when the synchronised button has been at the other level for 32768 cycles without interruption; every shorter pulse or bounce is ignored and restarts the time. "
     "Each change to pressed is announced by exactly one down strobe in the cycle before it, each change to released by exactly one up strobe, and there are no other strobes.",
     ["inputs", "histories"], "all input histories (all 2^15 counter states)",
     "There is no test.",
     ["amlib/io/debouncer.py"], [("debounce counter", "amlib/io/debouncer.py Debouncer.elaborate")], ["btn_state_out", "btn_down_out", "btn_up_out"], TS, NOTE)

prop("C33", "Interrupt source latches every configured event and never loses one",
     "For every event the pending bit becomes set in the cycle after its strobe is high (mode level), rises (rise) or falls (fall), and stays set until a one is written to its bit of the pending register; a write and an event in the same cycle leave it set. "
     "Status shows the level of every event in the previous cycle, enable holds the word written last, and the interrupt line is high exactly while an enabled event is pending. Unknown modes and objects that are no event source are rejected.",
     ["inputs", "histories", "configurations"], "all strobe and register access histories; up to three events in all modes",
     "The tests cannot run without amaranth_soc and would sample one history per mode.",
     ["amlib/soc/event.py"], [("trigger selection and pending/enable registers", "amlib/soc/event.py InterruptSource.elaborate")],
     ["status", "pending", "enable", "irq"], TS, NOTE + " amaranth_soc is not installed here: its CSR elements are interface models (hwsa/stubs.py).")

prop("C34", "Wishbone memories acknowledge each access once, return the bytes written last",
     "Each request (cyc and stb) is acknowledged exactly once, in the cycle after it, and nothing else is acknowledged. A read returns for every byte lane the value written last by a write whose select covered that lane, or the initial contents; read-only memories and ROMs never change. "
     "Integer initialisers are the words in order; byte strings (bytes, bytearray, memoryview) of any length are packed in the chosen byte order, padded with zeros. "
     "The bus and memory map have exactly 2**addr_width locations of granularity bits.",
     ["inputs", "histories", "configurations"], "all access sequences and data; memories of 2..16 words, widths 8..64, all granularities",
     "The tests cannot run without amaranth_soc; they check a few addresses of one memory.",
     ["amlib/soc/memory.py"], [("ack generation, write enables and read port", "amlib/soc/memory.py WishboneRAM.elaborate"), ("packing of initialisers", "amlib/soc/memory.py WishboneRAM._initialize")],
     ["bus.ack", "bus.dat_r", "bus.memory_map"], TS, NOTE + " amaranth_soc.wishbone is an interface model (hwsa/stubs.py).")

prop("C35", "Stream and bus UART transmitters send every accepted word exactly once",
     "Each word accepted from the stream (or acknowledged on the bus) appears on the line as one frame: start bit, 8 data bits least significant first, stop bit, every bit for exactly divisor cycles; words of several bytes are sent least significant byte first, without gaps. The line is high otherwise. "
     "A word is accepted only when the transmitter is free (idle or in the last cycle of a stop bit), so none is lost or sent twice, a transmitter with nothing to send is ready, driving is high exactly during frames and idle exactly when nothing is left to send. "
     "On the bus every access is acknowledged exactly once and no access that is not addressed (cyc and stb) is.",
     ["inputs", "schedules", "configurations"], "all words and producer timings; divisors 2..33, 1..8 bytes per word",
     "The tests send one or two words with one divisor.",
     ["amlib/stream/uart.py"], [("baud and bit counters, ready in the last stop bit cycle", "amlib/stream/uart.py UARTTransmitter.elaborate"),
                              ("byte shifter", "amlib/stream/uart.py UARTMultibyteTransmitter.elaborate"), ("bus handshake", "amlib/stream/uart.py UARTTransmitterPeripheral.elaborate")],
     ["tx", "stream.ready", "idle", "driving", "bus.ack"], TS, NOTE + " amaranth_soc.wishbone is an interface model (hwsa/stubs.py).")

prop("C36", "UART peripheral moves words between registers and line without loss",
     "Words written to tx_data while tx_rdy is set are sent on the line once each, in order and unchanged; words received while the receive FIFO has space are read from rx_data once each, in order, rx_rdy being set exactly while one waits; tx_rdy is set exactly while the transmit FIFO has space; writes while full and reads while empty change nothing. "
     "The transceiver uses the divisor written last and the register reads it back; driving is high exactly while the transmitter is busy. "
     "The events are rx_rdy (level), rx_err and tx_mty (rising), in this order, and the interrupt line is high exactly while an enabled one is pending. Every register is mapped once, at a word address of its own, with the right width and access.",
     ["inputs", "histories", "configurations"], "all register accesses and transceiver handshakes; FIFO depths 1..4; divisors and data widths as listed",
     "There is no test.",
     ["amlib/soc/uart.py"], [("FIFO and register glue", "amlib/soc/uart.py UARTPeripheral.elaborate"), ("register map", "amlib/soc/uart.py UARTPeripheral.__init__")],
     ["tx_data", "tx_rdy", "rx_data", "rx_rdy", "divisor", "tx", "driving", "irq"], TS, NOTE + " amaranth_soc is an interface model (hwsa/stubs.py); the transceiver itself is decided by C10/C11 and enters as its interface, except in the transmit line task.")

prop("C37", "SoC and peripheral construction maps every requested part exactly once",
     "A peripheral's bridge maps every register, bank, window and event register it was asked for exactly once, without overlaps, with the requested width, access, address and alignment; status, pending and enable registers and an interrupt line exist exactly if there are events; all parts are part of the elaborated design once, and invalid arguments are rejected. "
     "The simple SoC maps each added memory and peripheral once, without overlaps and at the requested address, gives the interrupt lines in order of addition the numbers 0, 1, 2, ..., lists every mapped resource with address and size, and its design connects both CPU buses through an arbiter to the decoder, and the interrupt controller to the CPU.",
     ["configurations"], "banks, registers, windows, events and SoC compositions of the configuration table",
     "There is no test for the SoC; the peripheral has none either.",
     ["amlib/soc/peripheral.py", "amlib/soc/simplesoc.py"], [("bank, window and event layout", "amlib/soc/peripheral.py PeripheralBridge.__init__"), ("composition", "amlib/soc/simplesoc.py SimpleSoC")],
     ["bus.memory_map", "irq", "resources()", "elaborated hierarchy"], "structural analysis of the constructed design graph, plus data-flow analysis of the connecting IR",
     "The design graph of the analysed compositions is inspected completely; amaranth_soc, lambdasoc and minerva are interface models (hwsa/stubs.py). Other compositions are not covered.")

prop("C38", "Logic analyser stores exactly the samples around the trigger",
     "After a trigger the analyser stores sample_depth samples of all signals taken in the same cycle, one per cycle (with enable: exactly those with enable high), beginning with the configured number of cycles before the trigger, in order and unaltered. "
     "capturing is high from the cycle after the trigger until the buffer is full, sampling in exactly the cycles that store a sample, complete from the end of the capture to the next trigger; triggers during a capture are ignored, and every sample of a complete capture can be read back by its number any number of times. All of it happens in the configured clock domain.",
     ["inputs", "histories", "configurations"], "all signal values, trigger and enable times; depths 2..8, 0..5 pre-trigger samples",
     "The tests cannot run without amaranth_soc; they capture one ramp.",
     ["amlib/debug/ila.py"], [("pre-trigger delay, write position and FSM", "amlib/debug/ila.py IntegratedLogicAnalyzer.elaborate")],
     ["captured_sample", "capturing", "sampling", "complete"], TS, NOTE)

prop("C39", "Logic analyser readouts deliver every captured sample once and in order",
     "The SPI analyser sends in each transaction the samples 0, 1, ... of the last capture, each as one word of bits_per_sample bits, most significant bit first and zero extended, for all clock polarities, phases and both chip select levels. "
     "The stream analyser sends after each capture exactly sample_depth words in order, with first on the first and last on the last, keeps each word until it is accepted, offers words without waiting for ready, and ignores triggers until the readout is over; with another output domain the stream belongs to that domain completely. "
     "The serial analyser sends the same words on its line, least significant byte first. Each analyser works in the domain it was given.",
     ["inputs", "histories", "schedules", "configurations"], "all captured data, trigger times, stalls, SPI clock timings and aborts; depths 2..18, widths 1..33",
     "The tests cannot run without amaranth_soc; the stream test reads with ready high only.",
     ["amlib/debug/ila.py"], [("sample counter", "amlib/debug/ila.py SyncSerialILA.elaborate"), ("readout FSM and clock domain crossing", "amlib/debug/ila.py StreamILA.elaborate"),
                            ("transmitter", "amlib/debug/ila.py AsyncSerialILA.elaborate")],
     ["spi.sdo", "stream.*", "tx"], TS, NOTE + " Both domains of a crossing are analysed with coinciding clock edges; a trigger while a word may still be on its way through the crossing is not analysed.")

LIN = ("static word-level abstract interpretation of the hardware IR (polynomial forms over input tokens with rounding error intervals and "
       "a modulus, control followed exactly, fixpoint up to renaming of tokens)")
LNOTE = ("Sound for the analysed configurations: in every reachable control location the required relation holds between the forms, hence for all "
         "data and unbounded time. Trusts Amaranth's elaboration to IR, the transfer functions and the automaton; coefficient tables enter as the "
         "constants the constructor computed. Other parameter values are not covered.")

prop("C12", "Stereo convolution returns the convolution of every frame exactly once",
     "For every frame (a left word marked first, then a right word marked last) the stereo convolution returns exactly one frame, left word marked first, then right word marked last: the sum over all taps of tap times sample, newest sample with the first tap, divided by 2^bitwidth and rounded down, modulo 2^bitwidth. "
     "In mode MONO both channels use the first response, in STEREO each channel its own, in CROSSFEED the first response on the own channel plus the second one on the other channel. Results are offered without waiting for ready, in bounded time, and kept until accepted; no frame is lost or counted twice under any stalls, for every tap count and number of slices.",
     ["inputs", "schedules", "histories", "configurations"], "all sample values and handshake schedules; 1..32 taps with extreme and negative values, 1..8 slices, all modes, 12..24 bit",
     "The test compares one impulse response with a tolerance of one and a consumer that is always ready.",
     ["amlib/dsp/convolution/mac.py"], [("tap packing", "amlib/dsp/convolution/mac.py StereoConvolutionMAC.__init__"),
                                       ("shift, accumulate and output FSM", "amlib/dsp/convolution/mac.py StereoConvolutionMAC.elaborate")],
     ["signal_in.ready", "signal_out.*"], LIN, LNOTE)

prop("C15", "FFT outputs are the DFT of the windowed samples, in order, once each",
     "After start, the FFT takes one complex sample per strobe_in and then outputs exactly N results, each with one strobe_out, in the order of their frequency: the discrete Fourier transform of the samples times the window, divided by N, up to the quantisation of the coefficients and the bits discarded per stage. "
     "The window is the 4-term Blackman-Harris window until another one is loaded: after wf_start the complex coefficients are taken one per wf_strobe, the k-th one belonging to the k-th sample. done is low from the start of an operation until all results were output or all coefficients loaded; start wins over wf_start, and every operation leaves the component ready for the next one.",
     ["inputs", "histories", "configurations"], "all samples up to a quarter of full scale, all windows up to 1, all strobe times; 4..64 points, 12..24 bit",
     "The test runs one transform and compares nothing.",
     ["amlib/dsp/fixedpointfft.py"], [("butterfly, addressing and output FSM", "amlib/dsp/fixedpointfft.py FixedPointFFT.elaborate"), ("coefficient tables", "amlib/dsp/fixedpointfft.py FixedPointFFT.__init__")],
     ["out_real", "out_imag", "strobe_out", "done"], LIN, LNOTE + " The error bound assumes that no intermediate value overflows, hence the bound on the samples.")

prop("C28", "FIR filter output is the convolution of the last samples with the design",
     "The output is the sum over the N coefficients of coefficient times sample, the newest enabled sample with the first one, up to one unit per product and modulo 2^bitwidth; samples without enable are ignored. The coefficients are those of the requested design in fixed point: a Hamming windowed low or high pass with the cutoff frequency in Hz, or the equiripple design for the given band edges and weights. "
     "Without mac_loop the output changes with the sample, with mac_loop it holds the previous result until the new one appears at most N+3 cycles later.",
     ["inputs", "histories", "configurations"], "all sample values and enable times; 3..48 coefficients, 8..24 bit, both structures, low pass, high pass, equiripple",
     "The test compares nothing.",
     ["amlib/dsp/fixedpointfirfilter.py"], [("coefficients", "amlib/dsp/fixedpointfirfilter.py FixedPointFIRFilter.__init__"), ("delay line and products", "amlib/dsp/fixedpointfirfilter.py FixedPointFIRFilter.elaborate")],
     ["signal_out"], LIN, LNOTE + " With mac_loop samples are at least N+4 cycles apart.")

prop("C29", "Half band filter filters and strobes every second sample",
     "The output is the half band convolution of the last N strobed samples (even coefficients of the equiripple design with band edges 0.22 and 0.28, middle coefficient one half), up to one unit per product and modulo 2^bitwidth; with mac_loop it holds the previous result until the new one appears at most N/4+5 cycles later. "
     "The output strobe is high for exactly the one cycle after every second input strobe; input without strobe is ignored.",
     ["inputs", "histories", "configurations"], "all sample values and strobe times; 3..47 coefficients, 12..24 bit, both structures",
     "The test compares nothing.",
     ["amlib/dsp/fixedpointhbfilter.py"], [("coefficients", "amlib/dsp/fixedpointhbfilter.py FixedPointHBFilter.__init__"), ("folded products and decimation", "amlib/dsp/fixedpointhbfilter.py FixedPointHBFilter.elaborate")],
     ["signal_out", "strobe_out"], LIN, LNOTE + " With mac_loop samples are at least N/4+6 cycles apart.")

prop("C30", "IIR filters and filter banks satisfy the recurrence of their design",
     "The output of the IIR filter is the sum of the feed forward coefficients times the last enabled samples minus the feedback coefficients times the last outputs, newest first, up to one unit per product and modulo 2^bitwidth; the coefficients are those of the Chebyshev design (1 dB ripple) of the requested order, cutoff and type in fixed point. Nothing changes without enable. "
     "A filter bank has the requested number of such (or FIR) filters in series: the first one gets the input, each other one the output of its predecessor, all of them the same enable, and the output is that of the last one.",
     ["inputs", "histories", "configurations"], "all sample values, enable times and past outputs; orders 1..8, 12..20 bit, banks of 1..5 filters",
     "The tests compare nothing; the filter bank has no test of its own.",
     ["amlib/dsp/fixedpointiirfilter.py", "amlib/dsp/filterbank.py"], [("recurrence", "amlib/dsp/fixedpointiirfilter.py FixedPointIIRFilter.elaborate"), ("series connection", "amlib/dsp/filterbank.py Filterbank.elaborate")],
     ["signal_out"], LIN, LNOTE)

prop("C31", "CIC filter outputs the N-fold boxcar sum of each decimation window",
     "After every R strobed samples the CIC filter outputs one value, announced by a single strobe_out, and holds it until the next one: the samples filtered N times by a boxcar of R samples, with a constant delay, divided by the smallest power of two with which full scale fits the output, rounded down. "
     "The result depends on the samples in the window only (what integrators accumulated before cancels exactly), and no register overflow changes it. Input without strobe is ignored.",
     ["inputs", "histories", "configurations"], "all samples of -1, 0, +1, all earlier histories (arbitrary register contents), all strobe times; 1..6 stages, decimation 2..64",
     "The test compares nothing.",
     ["amlib/dsp/fixedpointcicfilter.py"], [("register width", "amlib/dsp/fixedpointcicfilter.py FixedPointCICFilter.__init__"), ("integrators and combs", "amlib/dsp/fixedpointcicfilter.py FixedPointCICFilter.elaborate")],
     ["signal_out", "strobe_out"], LIN, LNOTE + " Registers that hold data are widened to arbitrary contents after every period.")

prop("C32", "Resampler delivers every N-th sample of the M-fold interpolated signal",
     "The k-th word the resampler delivers is sample k*N of the filtered signal: each accepted word times the prescale factor followed by M-1 zeros, filtered by the FIR bank of the requested design for M times the input rate, up to one unit per product and modulo 2^bitwidth. "
     "Nothing is lost, repeated or reordered under any stalls on either side; results are offered in bounded time and without waiting for ready, are kept until accepted, and words are accepted in bounded time as long as results are taken.",
     ["inputs", "schedules", "histories", "configurations"], "all sample values and handshake schedules; factors 1..7, orders 3..24, banks of 1..3 filters, 8..16 bit",
     "The tests compare nothing and always take results.",
     ["amlib/dsp/resampler.py"], [("zero stuffing, buffer and decimation", "amlib/dsp/resampler.py FractionalResampler.elaborate")],
     ["signal_in.ready", "signal_out.*"], LIN, LNOTE + " FIR structure only.")

ST = "static netlist analysis of the hardware IR (clock-domain labels, drivers, bit-level dependency graph: strongly connected components, reachability)"
SNOTE = ("Decided on the elaborated netlist of every component in the table hwsa/catalog.py; the dependency graph over-approximates data flow, so "
         "absence of loops and dependencies is sound. Trusts Amaranth's elaboration to IR and its primitives (FIFO, memory, synchroniser).")

prop("C20", "Every component is synchronous, loop-free and belongs to one clock domain",
     "Every hardware component works entirely in its clock domain: given another domain (through its domain parameter, or renamed as a whole) all of its registers and memory ports, and those of the components inside it, are clocked by that domain, except the far side of a requested clock domain crossing. "
     "No signal is driven from two places or two domains, no combinational signal depends on itself, and a reset of the domain returns every register to its initial value (memory contents and plain synchroniser stages excepted).",
     ["configurations", "schedules"], "every component of the library in the configurations of the table",
     "Tests run everything in the domain sync with a simulator that has no notion of a wrong clock, and never reset a running component.",
     ["amlib/stream/generator.py", "amlib/stream/arbiter.py", "amlib/utils/fifo.py", "amlib/utils/cdc.py", "amlib/utils/__init__.py", "amlib/debug/ila.py", "amlib/io/spi.py", "amlib/soc/uart.py"],
     [("domain parameters", "elaborate() of every component: m.d[domain], DomainRenamer"), ("helpers", "amlib/utils/__init__.py rising_edge_detected, past_value_of; amlib/utils/cdc.py synchronize")],
     ["clock domain of every register", "drivers of every signal"], ST, SNOTE)

prop("C40", "Stream offers never depend on ready",
     "No component waits combinationally for its receiver: valid, first, last, payload and extra fields of every stream a component originates are independent of the ready of this and every other stream in the same cycle. "
     "The ready a component returns does not depend on what is offered to it in that cycle, except that the stream multiplexer returns ready to the stream selected by valid. Hence components can be chained in any order without combinational loops or mutual waiting.",
     ["configurations", "schedules"], "every component with stream ports and the FIFO connection helpers",
     "Each test drives one component alone, so a dependency of valid on ready only shows in combinations no test builds.",
     ["amlib/stream/__init__.py", "amlib/stream/arbiter.py", "amlib/stream/generator.py", "amlib/stream/i2c.py", "amlib/stream/uart.py", "amlib/io/i2s.py", "amlib/debug/ila.py", "amlib/dsp/resampler.py", "amlib/dsp/convolution/mac.py"],
     [("stream handshakes", "elaborate() of every component with a StreamInterface"), ("FIFO connections", "amlib/stream/__init__.py connect_fifo_to_stream, connect_stream_to_fifo")],
     ["valid, first, last, payload, ready of every stream"], ST, SNOTE)

PY = "static abstract interpretation of the Python syntax tree (provenance domain: one canonical Boolean function of input tokens per bit; never imported or executed)"
PNOTE = ("Sound for the analysed lengths: every value of that length is covered by one pass, because the contents are tokens. Trusts the "
         "interpreter's model of Python's built-in types (hwsa/pyabs.py); constructs outside it give no verdict.")

prop("C27", "Bit sequence type keeps every bit in place in all operations",
     "A bit sequence built from an integer (any sign when a length is given), a string (most significant bit first), bytes in either byte order, an iterable or another bit sequence has exactly the specified length and bits, and inputs without meaning are rejected with TypeError or ValueError. "
     "Conversion to int, str and bytes, iteration, indexing (also negative), slicing, concatenation, repetition, AND, OR, XOR (shorter operands are zero extended) and reversal give exactly the specified bits, in both operand orders and with strings and iterables as the other operand; no operation changes an operand. "
     "Comparison is equal exactly for the same length and bits, and always gives an answer, whatever it is compared with.",
     ["inputs", "configurations"], "all values of all lengths 0..13 (thorough ..33), all indices and slice bounds",
     "The tests check one or two values per operation; no negative index, no length above 11 bits and no uncomparable operand other than None.",
     ["amlib/utils/bits.py"], [("conversions, operators and indexing", "amlib/utils/bits.py bits")], ["length and bits of results", "exceptions"], PY, PNOTE)

prop("C41", "Logic analyser frontend returns and dumps exactly the captured samples",
     "For every capture the serial analyser sends, the host frontend returns exactly one record per sample, in capture order, that maps each signal's name to exactly its captured bits, with timestamps that are multiples of the sample period; a refresh replaces them by the next capture. "
     "The VCD dump shows every signal, with its width, at exactly its captured value from each sample's time to the next, and the clock replica, exactly if requested, rises at each sample and falls half a period later. "
     "The GTKWave save names the dump and traces the clock, exactly if requested, and all signals in order; the interactive display shows these files and removes them. Parameters stored and loaded in another program give the same results.",
     ["inputs", "configurations"], "all captured data; 1..16 signals of 1..64 bits, signed and unsigned, depths 3..256, several sample periods",
     "There is no test of the frontends.",
     ["amlib/debug/ila.py"], [("splitting and parsing", "amlib/debug/ila.py AsyncSerialILAFrontend, ILAFrontend"), ("dumps", "amlib/debug/ila.py ILAFrontend.emit_vcd, _emit_gtkw, interactive_display"),
                            ("parameters", "amlib/debug/ila.py ILACoreParameters")], ["enumerate_samples", "VCD", "GTKWave save"], PY, PNOTE + " pyvcd and pyserial are models that record what they are given.")
