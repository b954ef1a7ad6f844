"""P07: parallel workers get what the serial computation reads, and results return under the same names."""
import ast
from sa import entries
from sa.project import Project
from sa.runner import run_units, run_entry, functions_of, Result
from sa.values import const, NONE, E
from sa import axes as A

ENT = dict(entries.ENTRIES)
for _n, _e in list(ENT.items()):        # the same with every optional input present
    if _n in ("ramp:OLS_C", "ramp:OLS_C_opt"):
        _sp = {k: {a: b for a, b in v.items() if a != "optional"} if isinstance(v, dict) else v for k, v in _e.specs.items()}
        ENT[_n + ":full"] = entries.Entry(_n + ":full", _e.source, _e.roots, _sp, step=_e.step)
UNITS = [n for n in ENT if n.startswith(("jump:", "ramp:OLS", "ramp:records"))]
# whole-array reductions that only count, or only skip work when there is nothing to do
COUNTING = {"sum", "count_nonzero", "any", "size", "mean"}
STRUCT = ("hasattr",)


def labels(s): return {str(x) for x in s if not str(x).endswith(STRUCT)}


def atoms(ip, st, v, path, out, depth=0, seen=None):
    """path -> (labels, constants, is-array) of everything reachable from a value"""
    seen = seen if seen is not None else set()
    c = ip.content(st, v)
    dep, cs = set(v.deps), {x for t, x in v.consts} if not v.refs else set()
    done = False
    for o in ip.objs(st, v):
        if o.id in seen or depth > 3: continue
        if o.kind == "inst":
            done = True
            for a, x in (o.get("attrs") or {}).items(): atoms(ip, st, x, f"{path}.{a}", out, depth + 1, seen | {o.id})
        elif o.kind == "dict" and o.get("items") is not None and not o.get("root"):
            done = True
            for a, x in o.get("items").items(): atoms(ip, st, x, f"{path}[{a}]", out, depth + 1, seen | {o.id})
        elif o.kind in ("list", "tuple") and o.get("items") is not None:
            done = True
            for i, x in enumerate(o.get("items")): atoms(ip, st, x, f"{path}[{i}]", out, depth + 1, seen | {o.id})
    if not done:
        d, k, t = out.get(path, (set(), set(), set()))
        unk = v.unk or bool(v.refs)
        out[path] = (d | labels(ip.content(st, v.w(deps=E, ctl=E)).deps if v.refs and not v.unk else dep | c.deps), k | ({x for t, x in v.consts if x is None} if v.refs else cs) | ({"<computed>"} if unk else set()) | ({"<array>"} if v.refs else set()), t | {x for x in c.tags if x.startswith("cres:")})
    return out


def compare(ser, par):
    """-> [(path, what)] for everything the serial computation has and the parallel one lacks"""
    bad = []
    for p, (d, k, t) in sorted(ser.items()):
        if p not in par and any(q.startswith((p + "[", p + ".")) for q in par): continue
        if p not in par: bad.append((p, "absent", "is missing")); continue
        d2, k2, t2 = par[p]
        gone = d - d2
        if gone: bad.append((p, "input", f"does not depend on {', '.join(sorted(gone)[:3])}")); continue
        if None in k2 and "<array>" in k and None not in k: bad.append((p, "absent", "may be missing")); continue
        if k2 - k - {"<computed>", "<array>"} and "<computed>" not in k:
            new = sorted(map(repr, k2 - k - {'<computed>', '<array>'}))[:2]
            bad.append((p, "constant", f"has the value {', '.join(new)} instead of {', '.join(sorted(map(repr, k))[:2])}")); continue
        if k - k2 and "<computed>" in k - k2: bad.append((p, "constant", f"is always {', '.join(sorted(map(repr, k2))[:2])}")); continue
        if t2 and t2 != t: bad.append((p, "name", f"is assembled from the worker result {', '.join(sorted(t2))[:60]} instead of {', '.join(sorted(t))[:60] or 'none'}"))
    return bad


def funcname(fo): return f"{fo.get("module")}:{fo.get("qual")}"


def go(en, project, cores, r, names=()):
    seen = {"attrs": set(), "calls": {}, "reads": {}, "workers": set(names), "where": {}, "red": [], "results": {}}
    depth = []
    def setup(ip):
        ip.intercept = {"stcal.multiprocessing.compute_num_cores": lambda ip, node, bound, st: const(cores)}
        def enter(ev):
            n = funcname(ev.func)
            for a, v in ev.bound.items():
                atoms(ip, ev.st, v, a, seen["calls"].setdefault(n, {}))
            seen["where"].setdefault(n, (ev.where(), ev.path()))
            depth.append(n)
        def leave(ev):
            if depth: depth.pop()
        def worker(ev):
            for o in ip.objs(ev.st, ev.func):
                if o.kind == "func": seen["workers"].add(funcname(o))
        def read(ev):
            atoms(ip, ev.st, ev.value, ev.name, seen["reads"])
            seen["where"]["<c>"] = (ev.where(), ev.path())
        def reduce(ev):
            if not any(n in seen["workers"] for n in depth): return
            if ev.removed is None: return
            if any(A.known(l) and A.base(l) == "Y" for l in ev.removed) and ev.fn not in COUNTING:
                fl = sorted({t[5:].split("|")[0] for t in ev.content.tags if t.startswith("test:")})
                seen["red"].append((ev.fn + ("/" + "+".join(fl) if fl else ""), ev.where(), ev.path()))
        def got(ev):
            if any(n in seen["workers"] for n in depth):
                for o in ip.objs(ev.st, ev.base):
                    if o.kind == "inst": seen["attrs"].add(ev.name)
        ip.on("getattr", got)
        ip.on("enter", enter); ip.on("exit", leave); ip.on("worker", worker); ip.on("c_read", read); ip.on("reduce", reduce)
    ip, res, st = run_entry(project, en, setup)
    r.functions |= functions_of(ip)
    seen["out"] = atoms(ip, st, res, "result", {})
    return seen


def analyse(en, r, project):
    par = go(en, project, 3, r)
    if not par["workers"]: return
    ser = go(en, project, 1, r, par["workers"])
    used = ser["attrs"] | set(ser["reads"])
    for w in par["workers"]:
        a, b = ser["calls"].get(w), par["calls"].get(w)
        if a is None or b is None: continue
        where, path = par["where"][w]
        a = {p: x for p, x in a.items() if "." not in p or p.split(".")[-1].split("[")[0] in used}
        bad = compare(a, b)
        for p in a: r.oblige("value handed to a worker", f"{en.name} {w} {p}", p not in {x[0] for x in bad})
        for p, rule, text in bad:
            r.find("worker-" + rule, f"{en.step}:{p}", where, f"step '{en.step}': in a worker process, {p} {text}, unlike in serial execution", path)
    if ser["reads"] and par["reads"]:
        where, path = par["where"].get("<c>", ("", ""))
        bad = compare(ser["reads"], par["reads"])
        for p in ser["reads"]: r.oblige("attribute the compiled fitter reads", f"{en.name} {p}", p not in {x[0] for x in bad})
        for p, rule, text in bad:
            r.find("worker-" + rule, f"{en.step}:{p}", where, f"step '{en.step}': in a worker process, attribute {p} of the ramp data {text}, unlike in serial execution", path)
    bad = [x for x in compare(ser["out"], par["out"])]
    for p in ser["out"]: r.oblige("result of parallel execution", f"{en.name} {p}", p not in {x[0] for x in bad})
    for p, rule, text in bad:
        r.find("result-" + rule, f"{en.step}:{p}", en.name, f"step '{en.step}': with several processes, {p} {text}, unlike in serial execution", ())
    for fn, where, path in par["red"]:
        r.oblige("statistic over the rows of one section", f"{en.step} {where}", False)
        r.find("section-wide-statistic", f"{en.step}:{fn}", where,
               f"step '{en.step}': {fn} over all rows of the worker's section decides something that serial execution decides over the whole image", path)


def unit(name, r, project): analyse(ENT[name], r, project)


EXAMPLE = '''
import multiprocessing
import numpy as np
from stcal.multiprocessing import compute_num_cores
class Par:
    def __init__(self, a=None, b=4):
        self.a = a
        self.b = b
def work(img, par, flag):
    m = np.max(img)
    return {"u": img * par.a, "v": img * par.b + m if flag else img}
def drive(img, o):
    n = compute_num_cores(o.cores, img.shape[0], 8)
    par = Par(o.a, o.b)
    if n == 1:
        return work(img, par, o.flag)
    sl = Par(par.a)
    ny = img.shape[0] // n
    ctx = multiprocessing.get_context("spawn")
    with ctx.Pool(processes=n) as pool:
        res = pool.starmap(work, [(img[k * ny:(k + 1) * ny], sl, False) for k in range(n)])
    out = {"u": np.zeros(img.shape), "v": np.zeros(img.shape)}
    for k in range(n):
        out["u"][k * ny:(k + 1) * ny] = res[k]["u"]
        out["v"][k * ny:(k + 1) * ny] = res[k]["v"]
    return out
'''


def run(rep):
    p = Project()
    rep.rules.append("each configuration is interpreted once with one process and once with several; every value handed to the worker function, every attribute "
                     "the compiled fitter reads and every returned plane must depend on the same inputs, hold the same constants and come back under the same name; "
                     "statistics over all rows of one section are reported")
    run_units(rep, UNITS, unit, p)
    for c, n in (("value handed to a worker", 40), ("attribute the compiled fitter reads", 30), ("result of parallel execution", 15)): rep.floor(c, n)
    r = Result("selftest")
    analyse(entries.Entry("selftest", EXAMPLE, ["img", "o"], {"img": dict(kind="array", axes=("Y", "X"), dep=True), "o": entries.ENTRIES["median:disk"].specs.get("o", dict(kind="obj"))}, step="selftest"), r, p)
    got = {f"{f.rule}|{f.key}" for f in r.findings.values()}
    rep.selftest("forgotten option, constant instead of option and section-wide maximum reported",
                 {"worker-input|selftest:par.b", "worker-input|selftest:flag", "section-wide-statistic|selftest:max"} <= got and not any("par.a" in g or "result" in g and "[u]" in g for g in got))
    rep.assumptions += ["counting reductions (sum, any, count_nonzero, mean of a mask) over a section are combined or only skip work", "row bounds themselves are judged by P06"]
