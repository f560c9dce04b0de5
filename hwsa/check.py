"""Driver: python -m hwsa.check <property id>

exit 0: every obligation discharged (listed known findings are printed); exit 1: VIOLATION line; exit 2: the
analysis itself could not be carried out.
"""
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HWSA_REPO", "/repo")      # development only: analyse a scratch copy
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Result:
    """what one analysis task reports"""

    def __init__(self, name):
        self.name = name
        self.obl = {}           # rule -> discharged instances
        self.viol = []          # dicts: rule, msg, where, config, trace
        self.stats = {}
        self.units = []         # analysed constructs
        self.error = None

    def ok(self, rule, n=1):
        self.obl[rule] = self.obl.get(rule, 0) + n

    def bad(self, rule, msg, where="-", trace=(), config=""):
        self.viol.append(dict(rule=rule, msg=msg, where=where, trace=list(trace), config=config or self.name))

    def require(self, cond, rule, msg, where="-", trace=()):
        if cond:
            self.ok(rule)
        else:
            self.bad(rule, msg, where, trace)
        return cond


class Anchor(Exception):
    """a public anchor of the property vanished: the analysis is broken, no verdict"""


def anchor(obj, name):
    if not hasattr(obj, name):
        raise Anchor("anchor vanished: %s has no attribute `%s`" % (obj, name))
    return getattr(obj, name)


def flow_task(r, dut_fn, spec_fn, must=(), config="", **kw):
    """build the component, run the typestate analysis, fold the outcome into result r

    dut_fn() -> component;  spec_fn(dut) -> (inputs, automaton, extra kwargs)"""
    from . import flow as F, ir
    dut = build(dut_fn)
    inputs, aut, extra = spec_fn(dut)
    extra = {**extra, **kw}
    must = list(must) + list(extra.pop("must", []))
    lossy = extra.pop("no_trap", None)
    clock = extra.pop("clock", None)
    fl = F.Flow(dut, inputs, aut, config=config or r.name, **extra)
    if lossy:
        fl.keep_graph = True
    fl.run()
    if clock is not None:
        clock = {clock} if isinstance(clock, str) else set(clock)
        for i, d in fl.comp.reg_domain.items():
            r.require(d in clock, "clock", "register `%s` is clocked by domain `%s`, required: %s"
                      % (fl.comp.sig[i].name, d, "/".join(sorted(clock))), ir.loc_str(fl.comp.sig[i].src_loc))
    for k, n in fl.obl.items():
        r.ok(k, n)
    for v in fl.violations.values():
        r.viol.append(dict(rule=v.rule, msg=v.msg, where=v.where, trace=v.trace, config=v.config))
    if not fl.violations:
        for rule in must:
            if not fl.obl.get(rule):
                r.bad("reach:" + rule, "no reachable control location ever instantiates rule `%s`: the component "
                      "can no longer do what the property demands" % rule, type(dut).__name__, config=fl.config)
        if lossy:
            for m in lossy:
                for msg, tr in fl.trapped(m):
                    r.bad("trap:" + m, msg, type(dut).__name__, tr, fl.config)
                    break
                else:
                    r.ok("trap:" + m, fl.n_loc)
    st = r.stats
    st["locations"] = st.get("locations", 0) + fl.n_loc
    st["edges"] = st.get("edges", 0) + fl.n_edges
    st["partition_splits"] = st.get("partition_splits", 0) + fl.n_splits
    st["registers"] = st.get("registers", 0) + len(fl.regs)
    st["statement_groups"] = st.get("statement_groups", 0) + len(fl.flat.comb) + len(fl.flat.groups)
    st["configurations"] = st.get("configurations", 0) + 1
    for g in fl.flat.groups:
        r.units.append("%s/%s" % (type(dut).__name__, ".".join(g[3])))
    return fl


def build(fn):
    """construct a component; a crash inside the library is a verdict, not an analysis error"""
    try:
        return fn()
    except (Anchor, ImportError):
        raise
    except Exception as e:
        raise lib_error(e)


def lib_error(e):
    from .ir import Broken
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if f.filename.startswith(REPO + "/amlib/")]
    if fr:
        b = Broken("%s: %s" % (type(e).__name__, e), (fr[-1].filename, fr[-1].lineno))
        return b
    return e


def run_task(args):
    mod, name, tier = args
    r = Result(name)
    t0 = time.time()
    from .ir import Broken, loc_str
    try:
        m = importlib.import_module("props." + mod)
        fn = dict(m.tasks(tier))[name]
        try:
            fn(r)
        except Broken as e:
            r.bad("elaborates", "the component can no longer be elaborated / analysed as synchronous hardware: %s" % e,
                  loc_str(e.loc))
        except (Anchor, MemoryError):
            raise
        except Exception as e:
            if type(e).__name__ in ("AnalysisError", "ImportError", "ModuleNotFoundError"):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            deep = [f for f in tb if f.filename.startswith(REPO + "/amlib/")]
            if deep:
                r.bad("elaborates", "the library raises while the component is constructed or elaborated: %s: %s"
                      % (type(e).__name__, e), "%s:%d" % (os.path.relpath(deep[-1].filename, REPO), deep[-1].lineno))
            else:
                raise
    except BaseException as e:
        r.error = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())
    r.stats["wall_s"] = round(time.time() - t0, 2)
    return r


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                d = {}
                head, _, text = line[len("finding:"):].partition("::")
                for tok in head.split():
                    k, _, v = tok.partition("=")
                    d[k] = v
                d["text"] = text.strip()
                out.append(d)
    return out


def child(job, conn):
    import resource
    lim = int(os.environ.get("HWSA_MEM_MB", "6000")) << 20
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    r = run_task(job)
    try:
        conn.send(r)
    except Exception as e:
        r2 = Result(job[1])
        r2.error = "result could not be sent: %s" % e
        conn.send(r2)
    conn.close()


def run_all(jobs, nproc):
    """one process per task; a task that dies is an analysis error, never a hang"""
    ctx = multiprocessing.get_context("fork")
    todo = list(enumerate(jobs))
    todo.reverse()
    run, out = {}, {}
    while todo or run:
        while todo and len(run) < nproc:
            i, j = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(j, b), daemon=True)
            p.start()
            b.close()
            run[a] = (i, j, p)
        for a in multiprocessing.connection.wait(list(run), 1.0):
            i, j, p = run.pop(a)
            try:
                out[i] = a.recv()
            except EOFError:
                p.join()
                out[i] = Result(j[1])
                out[i].error = "the analysis process died (exit code %s)" % p.exitcode
            a.close()
            p.join()
    return [out[i] for i in range(len(jobs))]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, VERIF)
    os.chdir("/tmp")
    mod = pid.lower()
    m = importlib.import_module("props." + mod)
    names = [n for n, _ in m.tasks(tier)]
    jobs = [(mod, n, tier) for n in names]
    nproc = min(8, len(jobs), int(os.environ.get("HWSA_JOBS", "8")))
    if nproc <= 1:
        results = [run_task(j) for j in jobs]
    else:
        results = run_all(jobs, nproc)
    rc = finish(pid, tier, seed, m, results, time.time() - t0)
    sys.exit(rc)


def finish(pid, tier, seed, m, results, wall):
    errs = [r for r in results if r.error]
    obl = {}
    stats = {}
    units = []
    viol = []
    for r in results:
        for k, n in r.obl.items():
            obl[k] = obl.get(k, 0) + n
        for k, n in r.stats.items():
            if isinstance(n, (int, float)):
                stats[k] = stats.get(k, 0) + n
        units += r.units
        for v in r.viol:
            viol.append((r.name, v))
    known = [k for k in load_known() if k.get("property") == pid]
    new, hit = [], {}
    for name, v in viol:
        for k in known:
            if k.get("rule") == v["rule"] and (k.get("task", "*") in ("*", name)):
                hit.setdefault(id(k), (k, v))
                break
        else:
            new.append((name, v))
    missing = [r for r in getattr(m, "MUST", []) if not obl.get(r) and not any(v["rule"] == r for _, v in viol)]
    print("property %s [%s]: %d analysis tasks, %d rules, %d obligations, %d violations (%d known) in %.1fs"
          % (pid, tier, len(results), len(obl), sum(obl.values()), len(viol), len(viol) - len(new), wall))
    for r in results:
        print("  %-46s %s  obligations=%d%s" % (
            r.name, " ".join("%s=%s" % kv for kv in sorted(r.stats.items())), sum(r.obl.values()),
            "  ERROR" if r.error else "  VIOLATIONS=%d" % len(r.viol) if r.viol else ""))
    for k, v in hit.values():
        print("KNOWN-FINDING: property=%s %s [rule %s]" % (pid, k["text"], k["rule"]))
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(m, "LEVEL", "other"),
              coverage=dict(explanation=m.EXPLANATION.strip(),
                            obligations_by_rule=dict(sorted(obl.items())),
                            obligations=sum(obl.values()) + len(viol), discharged=sum(obl.values()),
                            tasks=[dict(task=r.name, **r.stats, obligations=sum(r.obl.values())) for r in results],
                            analysed=sorted(set(units))[:400],
                            totals={k: (round(v, 2) if isinstance(v, float) else v) for k, v in stats.items()},
                            known_findings=[k["text"] for k, _ in hit.values()]),
              assumptions=list(getattr(m, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(os.environ.get("HWSA_OUT", VERIF), "evidence"), exist_ok=True)
    with open(os.path.join(os.environ.get("HWSA_OUT", VERIF), "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    old = os.path.join(os.environ.get("HWSA_OUT", VERIF), "evidence", pid + ".violations.txt")
    if os.path.exists(old):
        os.remove(old)
    if new:
        rep = os.path.join(os.environ.get("HWSA_OUT", VERIF), "evidence", pid + ".violations.txt")
        with open(rep, "w") as f:
            for name, v in new:
                f.write("[%s] rule %s: %s\n  at: %s\n  config: %s\n" % (name, v["rule"], v["msg"], v["where"], v["config"]))
                if v["trace"]:
                    f.write("  path from reset:\n" + "".join("    %s\n" % x for x in v["trace"]))
        for name, v in new[:12]:
            print("  - [%s] rule %s: %s\n      at: %s" % (name, v["rule"], v["msg"], v["where"]))
            for x in v["trace"][-8:]:
                print("        %s" % x)
        for r in errs:
            print("  (task %s also failed: %s)" % (r.name, r.error.splitlines()[0]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if errs:
        for k, r in enumerate(errs):
            print("ANALYSIS ERROR in %s\n%s" % (r.name, r.error if k == 0 else r.error.splitlines()[0]))
        return 2
    if missing:
        print("ANALYSIS ERROR: rules never instantiated: %s" % ", ".join(missing))
        return 2
    print("OK property=%s" % pid)
    return 0


if __name__ == "__main__":
    main()
