"""Shared machinery of the checks: running the drivers in parallel, findings, known findings, evidence, exit codes."""
import json, os, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor
from .project import Project, AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Finding:
    """One violation. key identifies it independently of line numbers and of which helper holds the construct."""

    def __init__(self, rule, key, where, text, path=""):
        self.rule = rule; self.key = key; self.where = where; self.text = text; self.path = path

    def ident(self): return f"{self.rule}|{self.key}"

    def d(self): return dict(rule=self.rule, key=self.key, where=self.where, text=self.text, path=self.path)


class Result:
    """what one unit of analysis (a driver, a file, a function) produced; picklable"""

    def __init__(self, unit):
        self.unit = unit
        self.findings = {}
        self.counts = {}        # obligation class -> number of distinct obligations
        self._seen = {}
        self.functions = set()
        self.samples = []
        self.error = None

    def find(self, rule, key, where, text, path=""):
        f = Finding(rule, key, where, text, path)
        self.findings.setdefault(f.ident() + "|" + where, f)

    def oblige(self, cls, what, ok=True):
        """record one obligation (deduplicated by `what`)"""
        s = self._seen.setdefault(cls, {})
        s[what] = s.get(what, True) and ok

    def done(self):
        self.counts = {k: len(v) for k, v in self._seen.items()}
        return self


class Report:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.t0 = time.time()
        self.results = []
        self.floors = {}
        self.assumptions = []
        self.rules = []
        self.selftests = []; self.drivertests = []
        self.errors = []
        self.unexplored = []    # units the engine could not analyse

    def add(self, r):
        r.done(); self.results.append(r)
        if r.error: self.errors.append(f"{r.unit}: {r.error}")

    def new(self, unit):
        r = Result(unit); self.results.append(r); return r

    def floor(self, cls, n):
        """fewer than n obligations of this class means the analysis no longer sees what it is about"""
        self.floors[cls] = n

    def selftest(self, name, fires):
        """a rule must fire on its own minimal positive example"""
        self.selftests.append((name, bool(fires)))
        if not fires: self.errors.append(f"self-test: rule {name} does not fire on its positive example")

    def drivertest(self, name, fires):
        """a self-test whose driver runs through the analysed code itself: one may be inconclusive after that code is rewritten, all must not"""
        self.selftests.append((name, bool(fires))); self.drivertests.append(bool(fires))

    def finish(self):
        if self.drivertests and not any(self.drivertests): self.errors.append("none of the self-tests that run through the analysed code fires")
        obl = {}; bad = set()
        fns = set(); findings = {}
        for r in self.results:
            r.done()
            for cls, s in r._seen.items():
                for w, ok in s.items():
                    obl.setdefault(cls, {}); obl[cls][w] = obl[cls].get(w, True) and ok
            fns |= r.functions
            for k, f in r.findings.items(): findings.setdefault(k, f)
        counts = {k: len(v) for k, v in obl.items()}
        for cls, n in self.floors.items():
            if counts.get(cls, 0) < n:
                self.errors.append(f"only {counts.get(cls, 0)} obligations of class '{cls}' (floor {n})")
        if len(self.unexplored) * 4 > len(self.results): self.errors += self.unexplored
        known = load_known(self.pid)
        viol = []; kn = {}
        for f in findings.values():
            if f.ident() in known: kn.setdefault(f.ident(), f)
            else: viol.append(f)
        total = sum(counts.values())
        samples = []
        for cls, s in sorted(obl.items()):
            for w in list(sorted(map(str, s)))[:4]: samples.append(f"{cls}: {w}")
        expl = (f"Static analysis of the current source, nothing executed. {len(self.results)} units analysed, "
                f"{len(fns)} functions reached, {total} distinct obligations in {len(counts)} classes; rules: "
                + "; ".join(self.rules))
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
                  coverage=dict(explanation=expl, units=sorted(r.unit for r in self.results),
                                functions=sorted(f"{a}:{b}" for a, b in fns), obligations_by_class=counts,
                                obligations=total, discharged=total - sum(1 for s in obl.values() for v in s.values() if not v),
                                samples=samples[:60],
                                selftests=[dict(rule=n, fires=b) for n, b in self.selftests],
                                known_findings=sorted(kn), not_explored=self.unexplored, findings=[f.d() for f in viol]),
                  wall_s=round(time.time() - self.t0, 2), violations=len({f.ident() for f in viol}),
                  assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        evp = os.path.join("evidence", f"{self.pid}.json")
        with open(os.path.join(VERIF, evp), "w") as fh: json.dump(ev, fh, indent=1, sort_keys=True, default=str)
        for u in self.unexplored: print(f"NOT-EXPLORED property={self.pid} {u}")
        for ident, f in sorted(kn.items()):
            print(f"KNOWN-FINDING: property={self.pid} {f.rule} {f.key} at {f.where}: {f.text}")
        print(f"{self.pid}: {len(self.results)} units, {len(fns)} functions, obligations {counts}, "
              f"{len(viol)} violation(s), {ev['wall_s']} s")
        if viol:
            rp = os.path.join("evidence", f"{self.pid}.violations.json")
            with open(os.path.join(VERIF, rp), "w") as fh: json.dump([f.d() for f in viol], fh, indent=1)
            for f in sorted(viol, key=lambda f: (f.rule, f.where)):
                print(f"  {f.where}: [{f.rule}] {f.text}" + (f"\n      reached through {f.path}" if f.path else ""))
            for e in self.errors: print("  (also) analysis error:", e)
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if self.errors:
            for e in self.errors: print(f"ANALYSIS-BROKEN property={self.pid}: {e}")
            return 2
        return 0


def load_known(pid):
    if not os.path.exists(KNOWN): return {}
    d = json.load(open(KNOWN))
    return {f"{x['rule']}|{x['key']}": x for x in d.get("findings", []) if x["property"] == pid}


_job = {}


def _run_unit(name):
    fn, extra = _job["fn"], _job["extra"]
    r = Result(name)
    try:
        fn(name, r, *extra)
    except AnalysisBroken as e:
        r.error = f"{e}"
    except RecursionError:
        r.error = "recursion limit"
    except Exception as e:
        r.error = f"{type(e).__name__}: {e} :: " + traceback.format_exc(limit=-4).replace("\n", " | ")
    return r.done()


def run_units(rep, names, fn, *extra):
    """run fn(name, result, *extra) for every name, in parallel (fork)"""
    import multiprocessing as mp
    _job["fn"] = fn; _job["extra"] = extra
    ctx = mp.get_context("fork")
    n = min(8, os.cpu_count() or 1, len(names))
    if n <= 1 or os.environ.get("SA_SERIAL"):
        for x in names: rep.add(_run_unit(x))
        return
    with ProcessPoolExecutor(max_workers=n, mp_context=ctx) as ex:
        for r in ex.map(_run_unit, names): rep.add(r)


def run_entry(project, en, setup, drive=None):
    """abstractly run one driver with the handlers installed by setup(interp)"""
    from .interp import Interp
    ip = Interp(project)
    setup(ip)
    r, st, dead = ip.run_driver(en.name.replace(":", "_"), en.source, en.roots, en.specs)
    if dead: raise AnalysisBroken(f"driver {en.name} has no normal return on any path")
    return ip, r, st


def functions_of(ip):
    return {(a, b) for a, b in ip.visited if not a.startswith("<")}
