"""P02: every store into DQ memory preserves the bits already there; returned DQ planes contain the bits they started from."""
from sa import entries
from sa.project import Project
from sa.runner import run_units, run_entry, functions_of, Result
from sa.values import mustkeep
from sa.cmodel import CRun
from checks import cpixel

ENT = entries.ENTRIES
E = frozenset()
# flags a step may take back (a jump flag in a group that turned out to be unusable)
MAYCLEAR = {"jump": {"JUMP_DET"}, "ramp": {"JUMP_DET"}, "likely": {"JUMP_DET"}}
# entry prefix -> [(path to the returned plane, DQ words every returned version contains, words some version contains,
#                   flags that may have been recomputed rather than accumulated)]
RAMP = [((0, "dq"), {"model.pixeldq"}, E, {"DO_NOT_USE", "JUMP_DET"}), ((1, "dq"), {"model.pixeldq"}, E, {"JUMP_DET"})]
OUT = {
    "jump:uniform": [((0,), {"model.groupdq"}, E, {"JUMP_DET"}), ((1,), {"model.pixeldq"}, E, E)],
    "jump:pattern": [((0,), {"model.groupdq"}, E, {"JUMP_DET"}), ((1,), {"model.pixeldq"}, E, E)],
    "jump:defaults": [((0,), {"model.groupdq"}, E, {"JUMP_DET"}), ((1,), {"model.pixeldq"}, E, E)],
    "dark:3d": [((0, "groupdq"), {"sci.groupdq"}, E, E), ((0, "pixeldq"), {"sci.pixeldq"}, {"dark.dq"}, E)],
    "dark:4d": [((0, "groupdq"), {"sci.groupdq"}, E, E), ((0, "pixeldq"), {"sci.pixeldq"}, {"dark.dq"}, E)],
    "saturation:": [((0,), {"gdq"}, E, E), ((1,), {"pdq", "sat_dq"}, E, E)],
    "linearity:": [((1,), {"pdq", "lin_dq"}, E, E)],
    "ramp:LIKELY": RAMP, "ramp:OLS_C": RAMP, "likely:jumpdata": RAMP,
}


def planes(ip, st, v, path):
    """array objects found at `path` in a result value, each with its content"""
    if not path:
        return [o for o in ip.objs(st, v) if o.kind == "array"]
    k, rest = path[0], path[1:]
    r = []
    for o in ip.objs(st, v):
        x = None
        if o.kind in ("tuple", "list"):
            it = o.get("items")
            if isinstance(k, int): x = it[k] if it is not None and k < len(it) else o.get("rest")
        elif o.kind == "dict": x = (o.get("items") or {}).get(k)
        elif isinstance(k, str): x = (o.get("attrs") or {}).get(k)
        if x is not None: r += planes(ip, st, x, rest)
    return r


def setup(ip, en, r, step=None):
    step = step or en.step
    may = MAYCLEAR.get(step, E)
    judged = set()
    def h(ev):
        ok = (ev.old.keep or E) - {"*"}
        if not ok: return
        root = ev.owner.get("root") if ev.owner is not None else None
        name = root or "copy of " + "+".join(sorted(ok))
        vk = mustkeep(ev.vcontent)
        lost = E if vk is None else ok - vk
        w = ev.where()
        r.oblige("store into DQ memory", f"{step} {name} at {w}", not lost)
        if lost:
            r.find("dq-bits-lost", f"{step}:{name}:{'+'.join(sorted(lost))}", w,
                   f"step '{step}' stores a value into {name} that does not contain the data-quality bits already there "
                   f"({', '.join(sorted(lost))})", ev.path())
            return
        for t in sorted(ev.vcontent.tags - ev.old.tags):
            if not t.startswith("clear:"): continue
            f, _, kind = t[6:].partition("@")
            # adopting a working copy: judged where the copy was edited
            if t in judged and kind.rpartition(":")[2] != str(ev.line): continue
            judged.add(t)
            f = f[2:] if f.startswith("F:") else f
            idx = ev.idx if isinstance(ev.idx, list) else []
            itags = E
            for k, x in idx:
                if k in ("val", "int"): itags = itags | ip.content(ev.st, x).tags
            tested = any(t.startswith(("test:" + f, "only:F:" + f)) for t in itags)
            # toggling needs the flag to be known set; masking it out only has to be selective; a subtraction
            # counts as a removal only where the flag was tested
            cond = tested or kind.startswith("sub") or (
                kind.startswith("and") and (any(k in ("val", "int") for k, x in idx) or ev.obj.id != ev.owner.id))
            good = f in may and cond
            r.oblige("removal of a flag", f"{step} {f} in {name} at {w}", good)
            if f not in may:
                r.find("dq-flag-cleared", f"{step}:{name}:{f}", w, f"step '{step}' removes {f} from {name}; it may only remove "
                       + (", ".join(sorted(may)) or "nothing"), ev.path())
            elif not cond:
                r.find("dq-flag-cleared", f"{step}:{name}:{f}:everywhere", w,
                       f"step '{step}' removes {f} from {name} without restricting it to groups it was found to be wrong in", ev.path())
    ip.on("store", h)


def outputs(ip, st, res, spec, r, step):
    for path, must, some, rec in spec:
        got = E; n = 0
        for o in planes(ip, st, res, path):
            c = ip.obj_content(st, o)
            if "bool" in c.tags: continue
            k = mustkeep(c)
            k = (k or E) - {"*"}
            n += 1; got = got | k
            lost = must - k
            p = "".join(f"[{x!r}]" if not (isinstance(x, str) and step == "dark") else "." + x for x in path)
            r.oblige("returned DQ plane", f"{step} {p} of {o.id[-30:]}", not lost)
            if lost:
                r.find("dq-bits-lost", f"{step}:returned{p}:{'+'.join(sorted(lost))}", o.id.split("@")[0][-60:],
                       f"the DQ plane {p} returned by step '{step}' does not contain the bits of {', '.join(sorted(lost))}")
            for t in sorted(c.tags):
                f = t[6:].partition("@")[0].removeprefix("F:")
                if t.startswith("clear:") and f not in rec:
                    r.find("dq-flag-cleared", f"{step}:returned{p}:{f}", o.id.split("@")[0][-60:],
                           f"{f} has been removed from the DQ plane {p} returned by step '{step}'")
        if n and some - got:
            r.find("dq-bits-lost", f"{step}:returned{path!r}:{'+'.join(sorted(some - got))}", step,
                   f"no version of the DQ plane {path!r} returned by step '{step}' contains the bits of {', '.join(sorted(some - got))}")


def c_side(run, r):
    cpixel.lost(run, r)
    r.functions |= {("src/stcal/ramp_fitting/src/slope_fitter.c", f) for f in run.funcs if f in run.u.funcs}


def unit(name, r, project):
    if name == "c": return c_side(CRun(), r)
    en = ENT[name]
    ip, res, st = run_entry(project, en, lambda ip: setup(ip, en, r))
    r.functions |= functions_of(ip)
    for pre, spec in OUT.items():
        if name.startswith(pre): outputs(ip, st, res, spec, r, en.step)


EXAMPLE = '''
import numpy as np
def drive(dq, ok, other, flags):
    JUMP = flags["JUMP_DET"]
    dq[np.bitwise_and(other, JUMP) != 0] = JUMP
    ok[np.bitwise_and(other, JUMP) != 0] |= JUMP
    c = ok.copy()
    c[3] = c[3] & ~np.uint32(flags["SATURATED"])
    out = np.zeros_like(other)
    for i in range(other.shape[0]):
        out[i] = np.bitwise_or(other[i], JUMP)
    return ok, out + JUMP
'''


def run(rep):
    p = Project()
    rep.rules.append("each abstract DQ word records the DQ inputs whose bits it must still contain; a store into DQ memory whose new "
                     "value may lack bits already there, a removed flag other than a tested jump flag, or a returned DQ plane "
                     "lacking the bits of its inputs is a violation")
    names = [n for n, e in ENT.items() if e.dq] + ["c"]
    run_units(rep, names, unit, p)
    rep.floor("store into DQ memory", 20)
    rep.floor("returned DQ plane", 20)
    r = Result("selftest")
    en = entries.Entry("selftest", EXAMPLE, ["dq", "ok", "other", "flags"],
                       {k: entries.dqa(("Y", "X")) for k in ("dq", "ok", "other")} | {"flags": dict(kind="dict", items=entries.flagspec)},
                       dq=("dq", "ok", "other"), step="jump")
    ip, res, st = run_entry(p, en, lambda ip: setup(ip, en, r))
    outputs(ip, st, res, [((0,), {"ok"}, E, {"JUMP_DET"}), ((1,), {"other"}, E, E)], r, "jump")
    keys = {f.ident() for f in r.findings.values()}
    rep.selftest("dq-bits-lost (overwrite)", "dq-bits-lost|jump:dq:dq" in keys)
    rep.selftest("dq-bits-lost (addition in a returned plane)", any("returned[1]:other" in k for k in keys))
    rep.selftest("dq-flag-cleared", any(k.startswith("dq-flag-cleared") and k.endswith(":SATURATED") for k in keys))
    rep.selftest("OR is exempt", not any(":ok:" in k or "returned[0]" in k for k in keys))
    rep.assumptions += ["DQ planes handed to the C slope fitter come back as the interpretation of its source decides (unit c)"]
