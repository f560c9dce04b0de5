"""C20: every component is synchronous hardware in its own clock domain."""
import contextlib
import io
import os

from hwsa.util import *
from hwsa import catalog, depth, ir, netlist

EXPLANATION = """
Netlist analysis of the elaborated IR of every hardware component of the library (table hwsa/catalog.py, public
constructors only): each component is elaborated for a clock domain other than sync (through its domain parameter, or
renamed as a whole) and the clock of every register and memory port is read off the lowered IR; the bit-level dependency
graph of all combinational assignments is searched for cycles (strongly connected components); drivers are counted per
signal; registers exempt from reset must be plain delay stages.
"""
ASSUMPTIONS = ["memories, FIFOs, synchronisers of Amaranth itself are taken from the installed version",
               "third-party SoC packages as documented (hwsa/stubs.py)"]
MUST = ["domain", "loop-free", "driver", "reset"]


def resettable(r, flat, name):
    for s, domain, _, path in flat.sync.values():
        loc = s.src_loc and os.path.realpath(s.src_loc[0])
        if not s.reset_less or not loc or "/amlib/" not in loc:
            continue
        plain = True
        for d, sigs, stmts, p in flat.groups:
            for st in ir.slice_stmts(stmts, {id(s)}) if not any(isinstance(x, tuple) for x in stmts) else stmts:
                if isinstance(st, tuple):
                    if any(assigns(b, s) for _, body in st[2] for b in body):
                        plain = False
                elif assigns(st, s) and None in depth.copy_bits(st.rhs):
                    plain = False
        if plain:
            r.ok("reset")
        else:
            r.bad("reset", "%s: register `%s` keeps its value through a reset of its domain" % (name, s.name), ir.loc_str(s.src_loc))
    r.ok("reset", len(flat.sync))


def assigns(st, s):
    if isinstance(st, tuple):
        return any(assigns(b, s) for _, body in st[2] for b in body)
    return id(s) in {id(x) for x in st._lhs_signals()}


def component(i, name, fn, dom, extra):
    def task(r):
        from amaranth import DomainRenamer
        want = "other"
        quiet = io.StringIO()
        with contextlib.redirect_stdout(quiet):
            d = build(lambda: fn(**{dom: want}) if dom else fn())
            flat = ir.Flat(d if dom else DomainRenamer(want)(d))
        cls = type(d).__name__
        ok = {want} | set(extra)
        for domain, sigs, stmts, path in flat.groups:
            for s in sigs:
                r.require(domain in ok, "domain", "%s: register `%s` is clocked by domain `%s` although the component belongs to `%s`"
                          % (name, s.name, domain, want), ir.loc_str(s.src_loc))
        for n in flat.domains:
            r.require(n in ok, "domain", "%s: uses clock domain `%s` although the component belongs to `%s`" % (name, n, want), cls)
        r.ok("domain")
        for c in flat.conflicts:
            r.bad("driver", "%s: %s" % (name, c), cls)
        for s in flat.multi:
            r.bad("driver", "%s: signal `%s` is driven from several places" % (name, s.name), ir.loc_str(s.src_loc))
        for s, domain, _, path in flat.sync.values():
            if id(s) in flat.comb:
                r.bad("driver", "%s: signal `%s` is driven combinationally and by domain `%s`" % (name, s.name, domain), ir.loc_str(s.src_loc))
        r.ok("driver", len(flat.comb) + len(flat.sync))
        nl = netlist.Netlist(flat)
        for comp in nl.loops():
            r.bad("loop-free", "%s: combinational loop through %s" % (name, ", ".join(sorted(nl.name(b) for b in comp)[:8])),
                  ir.loc_str(nl.where.get(comp[0])))
        r.ok("loop-free", nl.n_bits or 1)
        resettable(r, flat, name)
        r.stats["registers"] = r.stats.get("registers", 0) + len(flat.sync)
        r.stats["combinational_bits"] = r.stats.get("combinational_bits", 0) + nl.n_bits
        r.units.append(name)
    return name, task


def tasks(tier):
    return [component(i, *e) for i, e in enumerate(catalog.entries())]
