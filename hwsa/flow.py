"""Typestate data-flow analysis over the recovered control-flow automaton of a component.

* A *location* is a valuation of the registers (plus the state of the property's typestate automaton) in the
  abstract domain: a bit is 0, 1, or a provenance token (canonical function of tokens); tokens are renamed
  canonically, so a location stands for every data content with the same equality structure.
* Edges are computed by the transfer functions of ir.py.  Inputs are tokens; whenever a control register or the
  automaton needs a bit that is not constant, the trace is partitioned on one token (0 / 1) and the edge is
  recomputed (conditional constant propagation).
* The work-list runs to the fixpoint; every location is processed once per partition, so each obligation holds for
  every input sequence of any length in that configuration.
"""
import time
from . import ir
from .ir import AnalysisError, Broken, bits_of, norm, loc_str
from amaranth.hdl import ast as A

CI, CT, DI, DT = 0, 10_000, 1_000_000, 2_000_000      # level bands: control inputs, control tokens, data ...


class NeedSplit(Exception):
    def __init__(self, var):
        self.var = var


class Prune(Exception):
    pass


class V:
    """abstract value: raw (int | tuple of nodes) + width"""
    __slots__ = ("raw", "w")

    def __init__(self, raw, w):
        self.raw = raw
        self.w = w

    @property
    def const(self):
        return self.raw if type(self.raw) is int else None

    def bits(self):
        return bits_of(self.raw, self.w)

    def __getitem__(self, k):
        b = self.bits()
        if isinstance(k, slice):
            b = b[k]
            return V(norm(b), len(b))
        if not -len(b) <= k < len(b):
            raise ir.Broken("bit %d of a value that is only %d bits wide" % (k, len(b)), None)
        return V(norm((b[k],)), 1)

    def __len__(self):
        return self.w

    def __eq__(self, o):
        return isinstance(o, V) and o.raw == self.raw and o.w == self.w

    def __hash__(self):
        return hash((self.raw, self.w))

    def __repr__(self):
        return "V(%r,%d)" % (self.raw, self.w)


def K(value, w):
    return V(value & ((1 << w) - 1), w)


def cat(*vs):
    b = []
    for v in vs:
        b.extend(v.bits())
    return V(norm(tuple(b)), len(b))


class Violation:
    def __init__(self, rule, msg, where, trace, config):
        self.rule, self.msg, self.where, self.trace, self.config = rule, msg, where, trace, config

    def text(self):
        return "[%s] %s\n    at: %s\n    config: %s\n    path:\n%s" % (
            self.rule, self.msg, self.where, self.config,
            "\n".join("      " + x for x in self.trace))


class Tick:
    """one abstract clock cycle, as seen by a typestate automaton"""

    def __init__(self, flow, env):
        self.f = flow
        self.env = env
        self.m = flow.mgr
        self.notes = []
        self.domains = None
        self.done = []
        self.bad = []
        self.marks = set()

    # values
    def val(self, value):
        v = A.Value.cast(value)
        return V(self.f.comp.expr(v)(self.env), len(v))

    def set(self, sig, v):
        """an environment automaton drives an input declared with kind 'x' (before anything reads it)"""
        f = self.f
        i = f.comp.index[id(sig)]
        if i not in f.driven:
            raise AnalysisError("input %s is not declared as automaton-driven" % sig.name)
        if i in self.env.v:
            raise AnalysisError("input %s is driven after it was read" % sig.name)
        w = len(f.comp.sig[i])
        self.env.v[i] = v & ((1 << w) - 1) if isinstance(v, int) else ir.ext(v.raw, v.w, False, w)

    def bit(self, value):
        """decided python bool of a 1-bit expression (value != 0)"""
        return self.decide(self.val(value))

    def int(self, value):
        """decided integer"""
        v = value if isinstance(value, V) else self.val(value)
        if type(v.raw) is int:
            return v.raw
        for b in v.raw:
            if b > 1:
                raise NeedSplit(self.m.var_of[b])

    def decide(self, x):
        if x is True or x is False:
            return x
        n = self.node(x)
        if n < 2:
            return bool(n)
        raise NeedSplit(self.m.var_of[n])

    def node(self, x):
        if isinstance(x, V):
            if type(x.raw) is int:
                return int(x.raw != 0)
            return self.f.comp.ops.any(x.raw)
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x                     # a node
        return self.node(self.val(x))

    def eq(self, a, b):
        """node: a == b (V, int)"""
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            b = V(b, a.w) if b < (1 << a.w) else None
            if b is None:
                return 0
        if a.raw == b.raw and a.w == b.w:
            return 1
        w = max(a.w, b.w)
        return self.f.comp.ops.eq(ir.ext(a.raw, a.w, False, w), ir.ext(b.raw, b.w, False, w), w)

    def add(self, a, b, w):
        a = a if isinstance(a, V) else K(a, w)
        b = b if isinstance(b, V) else K(b, w)
        return V(self.f.comp.ops.add(ir.ext(a.raw, a.w, False, w), ir.ext(b.raw, b.w, False, w), w), w)

    def xor(self, a, b):
        return V(self.f.comp.ops.bitwise("^", a.raw, b.raw, a.w), a.w)

    def parity(self, a):
        return V(norm((self.f.comp.ops.parity(a.raw),)), 1)

    def inv(self, a):
        return V(self.f.comp.ops.inv(a.raw, a.w), a.w)

    def fresh(self, w, data=True):
        return self.f.fresh(w, data)

    # obligations
    def assume(self, x):
        if not self.decide(x):
            raise Prune()

    def require(self, cond, rule, msg, at=None):
        n = int(cond) if isinstance(cond, bool) else (self.node(cond) if isinstance(cond, V) else cond)
        self.done.append(rule)
        if n != 1:
            self.bad.append((rule, msg, at, n))
            return False
        return True

    def commit(self):
        f = self.f
        for rule in self.done:
            f.obl[rule] = f.obl.get(rule, 0) + 1
        for rule, msg, at, n in self.bad:
            f.violate(rule, msg, at, self, n)

    def same(self, a, b, rule, msg, at=None):
        """a == b for every data content"""
        a = a if isinstance(a, V) else self.val(a)
        b = b if isinstance(b, V) else b
        n = self.first_difference(a, b)
        return self.require(n, rule, "%s (observed %s, required %s)" % (msg, self.show(a), self.show(b)), at)

    def first_difference(self, a, b):
        """1 if equal, otherwise the equality of the first bit that may differ (the conjunction over all bits of
        unrelated tokens would be huge)"""
        if isinstance(b, int):
            if b >> a.w:
                return 0
            b = V(b, a.w)
        if a.raw == b.raw and a.w == b.w:
            return 1
        p, q = a.bits(), b.bits()
        w = max(len(p), len(q))
        m = self.f.mgr
        for x, y in zip(tuple(p) + (0,) * (w - len(p)), tuple(q) + (0,) * (w - len(q))):
            n = m.NOT(m.XOR(x, y))
            if n != 1:
                return n
        return 1

    def show(self, v):
        if isinstance(v, int):
            return hex(v)
        if type(v.raw) is int:
            return hex(v.raw)
        return "<" + " ".join(self.f.bit_name(b) for b in reversed(v.bits())) + ">"

    def note(self, s):
        self.notes.append(s)

    def mark(self, name):
        self.marks.add(name)


class Flow:
    def __init__(self, dut, inputs, automaton, config="", keep=(), havoc=(), domains=None, reset_unknown=(),
                 max_locations=400_000, time_limit=None, fixed=None, flat=None, opaque=None, name=None, lossy=None,
                 max_violations=6):
        """inputs: [(name, value, 'c'|'d'|'k:<int>')]"""
        self.flat = flat or ir.Flat(dut)
        self.comp = ir.Compiled(self.flat, inputs=[v for _, v, _ in inputs], opaque=opaque)
        self.mgr = self.comp.mgr
        self.aut = automaton
        self.config = config
        self.obl = {}
        self.violations = {}
        self.t_bad = None
        self.reached = {}
        self.max_locations = max_locations
        self.time_limit = time_limit or 800
        self.max_violations = max_violations
        c = self.comp
        self.regs = []                      # tracked registers: the cone of influence of what the automaton reads
        self.widths = {i: len(c.sig[i]) for i in set(c.reg_idx)}
        self.inputs = []
        self.level_names = {}
        self.driven = set()
        nc = nd = 0
        for name_, value, kind in inputs:
            for s, b in ir.expand(value):
                i = c.index[id(s)]
                if i in c._comb_src or i in self.widths:
                    raise Broken("interface input `%s` (%s) is driven by the component itself" % (name_, s.name),
                                 s.src_loc)
                if kind == "x":
                    self.driven.add(i)
                    continue
                nm = "%s[%d]" % (name_, b) if len(ir.expand(value)) > 1 else name_
                if kind == "c":
                    lv = CI + nc
                    nc += 1
                elif kind == "d":
                    lv = DI + nd
                    nd += 1
                elif kind.startswith("k:"):
                    self.inputs.append((i, b, None, (int(kind[2:], 0) >> [x for x in ir.expand(value)].index((s, b))) & 1))
                    continue
                else:
                    raise AnalysisError("input kind %r" % kind)
                self.inputs.append((i, b, lv, None))
                self.level_names[lv] = nm
        self.in_sigs = sorted({i for i, _, _, _ in self.inputs})
        idx = lambda v: {c.index[id(s)] for s, _ in ir.expand(v) if id(s) in c.index}   # a port nothing mentions keeps its reset value
        self.keep = set().union(*[idx(v) for v in keep]) if keep else set()
        self.havoc = set().union(*[idx(v) for v in havoc]) if havoc else set()
        self.domains = domains
        self.reset_unknown = reset_unknown
        self.quiescent = getattr(automaton, "quiescent", None)
        self.n_edges = 0
        self.n_splits = 0
        self.xmemo = {}
        self.keep_graph = False
        self.graph = {}

    def trapped(self, mark):
        """locations from which no edge carrying `mark` is reachable any more"""
        rev = {}
        good = []
        for k, (succ, marks) in self.graph.items():
            for s in succ:
                rev.setdefault(s, []).append(k)
            if mark in marks:
                good.append(k)
        ok = set(good)
        while good:
            k = good.pop()
            for p in rev.get(k, ()):
                if p not in ok:
                    ok.add(p)
                    good.append(p)
        for k in self.graph:
            if k not in ok:
                self.cur_key, self.cur_assume = k, {}
                tr = self.trace(None)
                yield "trap: after this path `%s` can never happen again, whatever the environment does" % mark, tr

    # ---------------------------------------------------------------------------------------------- helpers
    def fresh(self, w, data=True):
        self._fresh += 1
        base = (DI if data else CI) + 500_0 + self._fresh * 64
        for k in range(w):
            self.level_names[base + k] = "?"
        a = self.cur_assume
        return V(norm(tuple(a[base + k] if base + k in a else self.mgr.var(base + k) for k in range(w))), w)

    def bit_name(self, n):
        if n < 2:
            return str(n)
        m = self.mgr
        v = m.var_of[n]
        nm = self.level_names.get(v)
        if nm is None:
            nm = ("t%d" % (v - CT)) if v < DI else ("d%d" % (v - DT))
        if m.lo_of[n] == 0 and m.hi_of[n] == 1:
            return nm
        if m.lo_of[n] == 1 and m.hi_of[n] == 0:
            return "~" + nm
        return "f(%s..)" % nm

    def is_linear(self, n):
        if n < 2:
            return True
        r = self.xmemo.get(n)
        if r is None:
            m = self.mgr
            lo, hi = m.lo_of[n], m.hi_of[n]
            r = m.NOT(lo) == hi and self.is_linear(lo)
            self.xmemo[n] = r
        return r

    def violate(self, rule, msg, at, tick, node):
        key = rule
        self.bad_edge = True
        self.t_bad = self.t_bad or time.time()
        if key in self.violations:
            self.violations[key].count += 1
            return
        where = self.describe(at)
        v = Violation(rule, msg, where, self.trace(tick), self.config)
        v.count = 1
        self.violations[key] = v

    def describe(self, at):
        if at is None:
            return "-"
        if isinstance(at, str):
            return at
        out = []
        for s in {id(s): s for s, _ in ir.expand(at)}.values():
            i = self.comp.index.get(id(s))
            locs = []
            if i is not None:
                ent = self.flat.comb.get(id(s))
                if ent:
                    locs = stmt_locs(ent[1], id(s))
                else:
                    for d, sigs, stmts, path in self.flat.groups:
                        if any(x is s for x in sigs):
                            locs = stmt_locs(stmts, id(s))
            locs = list(dict.fromkeys(loc_str(l) for l in locs))
            out.append("`%s` (declared %s; assigned at %s)" % (s.name, loc_str(s.src_loc),
                                                               ", ".join(locs[:6]) or "nowhere"))
        return "; ".join(out)

    def trace(self, tick):
        steps = []
        key = self.cur_key
        while key is not None:
            par, lab = self.parent[key]
            if lab is not None:
                steps.append(lab)
            key = par
        steps.reverse()
        if len(steps) > 60:
            steps = steps[:10] + ["... %d more edges ..." % (len(steps) - 40)] + steps[-30:]
        steps.append(self.label(self.cur_assume, tick) + "   <== violated here")
        return steps

    def label(self, assume, tick=None):
        s = ", ".join("%s=%d" % (self.level_names.get(v, "tok%d" % v), b) for v, b in sorted(assume.items()))
        if tick and tick.notes:
            s += "  {" + "; ".join(tick.notes) + "}"
        return s or "(any input)"

    # ---------------------------------------------------------------------------------------------- fixpoint
    def initial(self):
        regs = {}
        for i in self.regs:
            s = self.comp.sig[i]
            regs[i] = s.reset & ((1 << len(s)) - 1)
        return regs

    def run(self):
        t0 = time.time()
        roots = set()
        while True:
            self.comp.track(self.regs)
            try:
                return self.fixpoint(t0)
            except ir.Untracked as u:       # the automaton reads one more register: track its cone, start again
                roots.add(u.args[0])
                self.regs = sorted(self.comp.cone(roots))
                self.obl, self.violations, self.t_bad, self.reached, self.graph = {}, {}, None, {}, {}
                self.n_edges = self.n_splits = 0

    def fixpoint(self, t0):
        m = self.mgr
        self._fresh = 0
        self.cur_assume = {}
        regs = self.initial()
        obs = self.aut.init(self)
        for sv in self.reset_unknown:
            for i in {self.comp.index[id(s)] for s, _ in ir.expand(sv) if id(s) in self.comp.index}:
                if i in regs:
                    regs[i] = self.fresh(self.widths[i]).raw
        key = self.canon(regs, obs)
        self.parent = {key: (None, None)}
        work = [key]
        wi = 0
        while wi < len(work):
            key = work[wi]
            wi += 1
            if self.violations and (len(work) > self.max_locations or time.time() - self.t_bad > 20):
                break
            if len(work) > self.max_locations:
                raise AnalysisError("location limit %d exceeded (%s)" % (self.max_locations, self.config))
            if self.time_limit and time.time() - t0 > self.time_limit:
                raise AnalysisError("time limit exceeded after %d locations (%s)" % (wi, self.config))
            es = self.edges(key)
            if self.keep_graph:
                self.graph[key] = ([nk for nk, _, _ in es], {mk for _, _, ms in es for mk in ms})
            for nk, lab, _ in es:
                if nk not in self.parent:
                    self.parent[nk] = (key, lab)
                    work.append(nk)
            if len(self.violations) >= self.max_violations:
                break
        self.n_loc = len(work)
        self.wall = time.time() - t0
        return self

    def edges(self, key):
        out = []
        self.cur_key = key
        pend = [{}]
        while pend:
            assume = pend.pop()
            self.cur_assume = assume
            self.bad_edge = False
            if self.t_bad and time.time() - self.t_bad > 20:
                break
            try:
                nk, lab, marks = self.edge(key, assume)
            except NeedSplit as s:
                if s.var in assume:
                    raise AnalysisError("split loop")
                self.n_splits += 1
                pend.append({**assume, s.var: 1})
                pend.append({**assume, s.var: 0})
                continue
            except Prune:
                continue
            self.n_edges += 1
            if not self.bad_edge:           # what follows a violation means nothing
                out.append((nk, lab, marks))
        return out

    def subst(self, raw, assume):
        if type(raw) is int or not assume:
            return raw
        m = self.mgr
        bits = list(raw)
        for v, b in assume.items():
            memo = {}
            bits = [x if x < 2 else m.restrict(x, v, b, memo) for x in bits]
        return norm(tuple(bits))

    def map_obs(self, o, fn):
        if isinstance(o, V):
            return V(fn(o.raw), o.w)
        if isinstance(o, tuple):
            return tuple([self.map_obs(x, fn) for x in o])
        return o

    def edge(self, key, assume):
        regvals, obs = key
        m = self.mgr
        env = ir.Env(self.comp)
        self._fresh = 0
        tok = {v: b for v, b in assume.items() if not self.is_input_level(v)}
        if tok:
            for i, r in zip(self.regs, regvals):
                env.v[i] = self.subst(r, tok)
            obs = self.map_obs(obs, lambda r: self.subst(r, tok))
        else:
            for i, r in zip(self.regs, regvals):
                env.v[i] = r
        ib = {}
        for i, b, lv, k in self.inputs:
            n = k if lv is None else (assume[lv] if lv in assume else m.var(lv))
            ib.setdefault(i, {})[b] = n
        for i, d in ib.items():
            w = len(self.comp.sig[i])
            env.v[i] = norm(tuple(d.get(b, (self.comp.sig[i].reset >> b) & 1) for b in range(w)))
        tick = Tick(self, env)
        if self.domains is not None:
            tick.domains = self.domains(tick)
        nobs = self.aut.step(obs, tick)
        nx = env.next(tick.domains)
        for i in self.regs:
            r = nx[i]
            if type(r) is not int:
                if i in self.havoc:
                    nx[i] = self.fresh(self.widths[i]).raw
                    continue
                for b in r:
                    if b > 1 and not self.is_linear(b):
                        v = m.var_of[b]
                        if i in self.keep and v >= DI:
                            continue
                        raise NeedSplit(v)
        tick.commit()
        if tick.bad:
            raise Prune()
        if self.quiescent and self.quiescent(nobs):
            # widening: the property no longer relates anything to the contents of data registers, so every register
            # that holds data tokens is forgotten (over-approximated by unrelated tokens)
            for i in self.regs:
                if self.widths[i] >= 8 and type(nx[i]) is not int:
                    nx[i] = self.fresh(self.widths[i]).raw
        return (self.canon(nx, nobs),
                self.label({v: b for v, b in assume.items() if self.is_input_level(v)}, tick), tick.marks)

    def is_input_level(self, v):
        return v < CT or DI <= v < DT

    def canon(self, regs, obs):
        m = self.mgr
        mapping = {}
        cnt = [0, 0]
        SN = m.support

        def seen(raw):
            if type(raw) is int:
                return
            for b in raw:
                if b > 1:
                    if m.lo_of[b] < 2 and m.hi_of[b] < 2:
                        vs = (m.var_of[b],)
                    else:
                        vs = sorted(SN(b))
                    for v in vs:
                        if v not in mapping:
                            if v < DI:
                                mapping[v] = m.var(CT + cnt[0])
                                cnt[0] += 1
                            else:
                                mapping[v] = m.var(DT + cnt[1])
                                cnt[1] += 1

        vals = [regs[i] for i in self.regs]
        for r in vals:
            seen(r)

        def walk(o):
            if isinstance(o, V):
                seen(o.raw)
            elif isinstance(o, tuple):
                for x in o:
                    walk(x)
        walk(obs)
        if cnt[0] + cnt[1] > 6000:
            raise AnalysisError("more than 6000 distinct data tokens are live (%s)" % self.config)
        memo = {}

        def ren(raw):
            if type(raw) is int:
                return raw
            return tuple([b if b < 2 else m.rename(b, mapping.__getitem__, memo) for b in raw])
        if mapping:
            vals = [ren(r) for r in vals]
            obs = self.map_obs(obs, ren)
        return (tuple(vals), obs)


def stmt_locs(stmts, sid):
    out = []
    for s in stmts:
        if isinstance(s, A.Assign):
            if any(id(x) == sid for x in s._lhs_signals()):
                out.append(s.src_loc)
        elif isinstance(s, tuple):
            for p, b in s[2]:
                out.extend(stmt_locs(b, sid))
    return out
