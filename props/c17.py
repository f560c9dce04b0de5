"""C17: SPI device interface."""
from hwsa.util import *

EXPLANATION = """
Typestate analysis of the SPI device IR together with an arbitrary SPI controller: any clock timing above the minimum
phase length, any number of bits and words per selection, deselection at any point (also in the middle of a bit).
Sent and received words are provenance tokens, so the result holds for all data.
"""
ASSUMPTIONS = ["clock phases and chip-select gaps last at least the configured number of cycles",
               "word_out changes only after word_complete or while the device is deselected"]
MUST = ["sdo", "word-in", "complete", "accepted", "idle-sdo"]


class Master:
    """(phase, cycles in it, sck active?, sdi, bits received, word being sent, word_out, pending word, last word, accepted pulse seen)"""

    def __init__(self, d, cfg, h, s):
        self.d, self.c, self.h, self.s = d, cfg, h, s

    def init(self, flow):
        w = self.c["word_size"]
        self.wo = K(0, w)
        return ("off", 0, False, K(0, 1), (), None, K(0, w), None, K(0, w))

    def step(self, o, t):
        ph, cnt, act, sdi, rx, tx, wout, pend, last = o
        d, c, h, s = self.d, self.c, self.h, self.s
        w, cpha, pol = c["word_size"], c["clock_phase"], c["clock_polarity"]
        t.set(d.spi.sck, int(act) ^ pol)
        t.set(d.spi.cs, int(ph != "off") ^ int(c["cs_idles_high"]))
        t.set(d.spi.sdi, sdi)
        t.set(d.word_out, wout)
        # ------------------------------------------------------------------ strobes
        if t.bit(d.word_accepted):
            t.require(pend is not None and not pend[2], "accepted", "word_accepted without a complete word", d.word_accepted)
            if pend is not None:
                pend = (pend[0], pend[1], True)
        done = t.bit(d.word_complete)
        if done:
            t.require(pend is not None and pend[2], "complete", "word_complete without (or twice for) a complete word", d.word_complete)
            if pend is not None:
                last, pend = pend[0], None
        t.same(d.word_in, last, "word-in", "word_in must hold the most recent complete word (%s first)" % ("MSB" if c["msb_first"] else "LSB"), d.word_in)
        if pend is not None:
            t.require(pend[1] > 0, "complete", "the complete word is not reported", d.word_complete)
            pend = (pend[0], pend[1] - 1, pend[2])
        # ------------------------------------------------------------------ the controller
        top = h if ph != "off" else h + 6
        if ph == "off" and cnt >= h:
            t.same(d.spi.sdo, 0, "idle-sdo", "a deselected device must not send", d.spi.sdo)
        go = cnt >= top and t.bit(s["go"])
        cnt = min(cnt + 1, top)
        order = (lambda n: w - 1 - n) if c["msb_first"] else (lambda n: n)
        if ph == "off" and cnt == h and not act:
            wout = t.fresh(w)
        if ph == "off" and act and cnt >= h:
            act, cnt = False, 0                # the clock returns to its idle level
        elif go and ph == "off":
            ph, cnt, rx, tx = "on", 0, (), wout
            if not cpha:
                sdi = t.fresh(1)
        elif go and t.bit(s["off"]):
            ph, cnt, rx, tx = "off", 0, (), None
        elif go:
            act = not act
            cnt = 0
            if act == (not cpha):
                # sampling edge
                t.same(d.spi.sdo, tx[order(len(rx))], "sdo", "bit %d of word_out must be on sdo at the sampling edge" % order(len(rx)), d.spi.sdo)
                rx = rx + (sdi,)
                if len(rx) == w:
                    t.require(pend is None, "complete", "the previous word was not reported", d.word_complete)
                    pend = (cat(*(reversed(rx) if c["msb_first"] else rx)), h, False)
                    rx, tx = (), wout
            else:
                sdi = t.fresh(1)
        if done:
            wout = t.fresh(w) if ph != "off" else wout
        return (ph, cnt, act, sdi, rx, tx, wout, pend, last)


def device(h, name, **kw):
    def task(r):
        from amlib.io.spi import SPIDeviceInterface
        cfg = dict(word_size=8, clock_polarity=0, clock_phase=0, msb_first=True, cs_idles_high=False)
        cfg.update({k: v for k, v in kw.items() if k in cfg})

        def mk():
            d = SPIDeviceInterface(**kw)
            d.v_s = {n: Signal(name=n) for n in ("go", "off")}
            return d

        def spec(d):
            ins = [(n, x, "c") for n, x in d.v_s.items()]
            ins += ports(("x", "sck", d.spi.sck), ("x", "cs", d.spi.cs), ("x", "sdi", d.spi.sdi), ("x", "word_out", d.word_out))
            return ins, Master(d, cfg, h, d.v_s), dict(must=["sdo", "word-in", "complete", "accepted", "idle-sdo"])
        flow_task(r, mk, spec, config=name)
    return name, task


def tasks(tier):
    cfg = []
    for pol in (0, 1):
        for pha in (0, 1):
            cfg.append((5, dict(word_size=4, clock_polarity=pol, clock_phase=pha, msb_first=bool(pol ^ pha ^ 1), cs_idles_high=bool(pol))))
            cfg.append((5, dict(word_size=3, clock_polarity=pol, clock_phase=pha, cs_idles_high=bool(pha))))
    cfg += [(5, {}), (3, dict(skip_input_cdc=True)), (6, dict(word_size=5, msb_first=False)), (7, dict(word_size=2))]
    cfg += [(5, dict(word_size=1, clock_polarity=pol, clock_phase=pha, cs_idles_high=idle)) for pol in (0, 1) for pha in (0, 1) for idle in (False, True)]
    cfg += [(5, dict(word_size=16)), (5, dict(word_size=9, clock_phase=1, clock_polarity=1, cs_idles_high=True)), (4, dict(word_size=1, clock_polarity=1, cs_idles_high=True, skip_input_cdc=True))]
    if True:
        cfg += [(h, dict(word_size=w, clock_polarity=pol, clock_phase=pha, msb_first=m)) for h, w in ((5, 6), (8, 7), (6, 12)) for pol in (0, 1) for pha in (0, 1) for m in (True, False)]
        cfg += [(6, dict(word_size=16)), (5, dict(word_size=24, clock_phase=1))]
    if tier == "thorough":
        cfg += [(h, dict(word_size=w, clock_polarity=pol, clock_phase=pha, msb_first=m, cs_idles_high=idle)) for h, w in ((5, 8), (9, 17), (5, 32), (6, 33)) for pol in (0, 1) for pha in (0, 1) for m in (True, False) for idle in (False, True)]
    return [device(h, "phases of %d, %s" % (h, ", ".join("%s=%s" % x for x in k.items()) or "defaults"), **k) for h, k in cfg]
