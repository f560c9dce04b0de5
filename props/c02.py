"""C02: stream arbiter and multiplexers."""
from hwsa.util import *

EXPLANATION = """
Typestate analysis of the arbiter / multiplexer IR for several numbers of inputs and stream types. The automaton's
state is the index of the stream that owns the output; every field of the output and every `ready` is required to be
*identical* (same provenance token) to the owner's field in every reachable location, for all inputs.
"""
ASSUMPTIONS = ["multiplexers are used as documented: at most one input valid at a time"]
MUST = ["output-field", "ready-owner", "ready-other", "idle", "mux-field", "mux-ready", "onehot-field", "onehot-or",
        "onehot-pass", "onehot-none"]


def arbiter(n, extra, domain, name):
    def task(r):
        from amlib.stream.arbiter import StreamArbiter
        from amlib.stream import StreamInterface

        def mk():
            class ST(StreamInterface):
                def __init__(self, name=None):
                    super().__init__(name=name, payload_width=5, extra_fields=extra)
            a = StreamArbiter(stream_type=ST, domain=domain)
            a._v_sinks = [ST(name="sink%d" % i) for i in range(n)]
            for s in a._v_sinks:
                a.add_stream(s)
            return a

        def spec(a):
            src, sinks = a.source, a._v_sinks
            fields = ["valid", "first", "last", "payload"] + [e[0] for e in extra]
            ins = [("source.ready", src.ready, "c")]
            for i, s in enumerate(sinks):
                ins += stream_inputs("sink%d" % i, s, [e[0] for e in extra])

            def step(o, t):
                own = o[0]
                for f in fields:
                    t.same(src[f], t.val(sinks[own][f]), "output-field",
                           "output %s must be the active stream's (stream %d)" % (f, own), src[f])
                for i, s in enumerate(sinks):
                    if i == own:
                        t.same(s.ready, t.val(src.ready), "ready-owner", "active stream must see the output's ready", s.ready)
                    else:
                        t.same(s.ready, 0, "ready-other", "stream %d is not active and must not be acknowledged" % i, s.ready)
                valids = [t.bit(s.valid) for s in sinks]
                t.same(a.idle, int(not any(valids)), "idle", "idle must mean that no stream is valid", a.idle)
                if valids[own]:
                    return (own,)
                for i, v in enumerate(valids):
                    if v:
                        return (i,)
                return (own,)
            return ins, Auto((0,), step), dict(must=["output-field", "ready-owner", "idle"] + (["ready-other"] if n > 1 else []))
        flow_task(r, mk, spec, config=name)
    return name, task


def mux(n, name):
    def task(r):
        from amlib.stream.arbiter import StreamMultiplexer
        from amlib.stream import StreamInterface

        def mk():
            class ST(StreamInterface):
                def __init__(self, name=None):
                    super().__init__(name=name, payload_width=5, extra_fields=[("tag", 3)])
            a = StreamMultiplexer(stream_type=ST)
            a._v_in = [ST(name="in%d" % i) for i in range(n)]
            for s in a._v_in:
                a.add_input(s)
            return a

        def spec(a):
            ins = [("output.ready", a.output.ready, "c")]
            for i, s in enumerate(a._v_in):
                ins += stream_inputs("in%d" % i, s, ["tag"])

            def chk(t):
                valids = [t.bit(s.valid) for s in a._v_in]
                t.assume(sum(valids) <= 1)
                for f in ("first", "last", "payload", "tag"):
                    for i, s in enumerate(a._v_in):
                        if valids[i]:
                            t.same(a.output[f], t.val(s[f]), "mux-field", "output %s must be that of the valid input %d" % (f, i), a.output[f])
                t.same(a.output.valid, int(any(valids)), "mux-field", "output valid iff some input is valid", a.output.valid)
                for i, s in enumerate(a._v_in):
                    if valids[i]:
                        t.same(s.ready, t.val(a.output.ready), "mux-ready", "the valid input must see the output's ready", s.ready)
            return ins, Stateless(chk), dict(must=["mux-field", "mux-ready"])
        flow_task(r, mk, spec, config=name)
    return name, task


def onehot(n, name):
    def task(r):
        from amlib.utils.bus import OneHotMultiplexer
        from amaranth import Record

        def mk():
            class IF(Record):
                def __init__(self, name=None):
                    super().__init__([("go", 1), ("a", 4), ("b", 2), ("s", 3), ("back", 2)], name=name)
            mx = OneHotMultiplexer(interface_type=IF, valid_field="go", mux_signals=("a", lambda i: i.b),
                                   or_signals=("go", lambda i: i.s), pass_signals=("back",))
            mx._v_in = [IF(name="in%d" % i) for i in range(n)]
            mx.add_interface(mx._v_in[0])
            if n > 1:
                mx.add_input(mx._v_in[1])
                mx.add_interfaces(mx._v_in[2:])
            return mx

        def spec(a):
            ins = [("output.back", a.output.back, "d")]
            for i, s in enumerate(a._v_in):
                ins += ports(("c", "in%d.go" % i, s.go), ("d", "in%d.a" % i, s.a), ("d", "in%d.b" % i, s.b),
                             ("d", "in%d.s" % i, s.s))

            def chk(t):
                valids = [t.bit(s.go) for s in a._v_in]
                t.assume(sum(valids) <= 1)
                o = t.f.comp.ops
                for f in ("a", "b"):
                    if any(valids):
                        s = a._v_in[valids.index(True)]
                        t.same(a.output[f], t.val(s[f]), "onehot-field", "multiplexed signal must come from the valid interface", a.output[f])
                    else:
                        t.same(a.output[f], 0, "onehot-none", "no interface is valid: nothing may be passed through", a.output[f])
                acc = 0
                for s in a._v_in:
                    acc = o.bitwise("|", acc, t.val(s.s).raw, 3)
                t.same(a.output.s, V(acc, 3), "onehot-or", "or-signals must be the OR over all interfaces", a.output.s)
                t.same(a.output.go, int(any(valids)), "onehot-or", "or-signals must be the OR over all interfaces", a.output.go)
                for s in a._v_in:
                    t.same(s.back, t.val(a.output.back), "onehot-pass", "pass-back signals must reach every interface", s.back)
            return ins, Stateless(chk), dict(must=["onehot-field", "onehot-or", "onehot-pass"])
        flow_task(r, mk, spec, config=name)
    return name, task


def tasks(tier):
    ns = (1, 2, 3, 4, 5, 6, 9) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13)
    out = [arbiter(n, [], "sync", "StreamArbiter n=%d" % n) for n in ns]
    out.append(arbiter(3, [("tag", 3)], "usb", "StreamArbiter n=3 extra field, domain usb"))
    out += [mux(n, "StreamMultiplexer n=%d" % n) for n in ns]
    out += [onehot(n, "OneHotMultiplexer n=%d" % n) for n in ns]
    return out
