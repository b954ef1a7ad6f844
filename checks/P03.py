"""P03: each step raises only its own flags, by name, in the right plane, and on every configuration."""
import copy
from sa import entries
from sa.project import Project
from sa.runner import run_units, run_entry, functions_of, Result
from sa.values import const
from sa.cmodel import CRun
from checks import cpixel
from checks.P02 import planes

ENT = entries.ENTRIES
E = frozenset()
T, F = True, False
GROUP = {"model.groupdq", "sci.groupdq", "gdq", "dq"}
# flags a step may raise, per plane
OWN = {
    ("jump", "group"): {"JUMP_DET", "SATURATED"}, ("jump", "pixel"): {"NO_GAIN_VALUE", "DO_NOT_USE"},
    ("saturation", "group"): {"SATURATED", "AD_FLOOR", "DO_NOT_USE"}, ("saturation", "pixel"): {"NO_SAT_CHECK"},
    ("linearity", "group"): E, ("linearity", "pixel"): {"NO_LIN_CORR"},
    ("dark", "group"): E, ("dark", "pixel"): E,
    ("ramp", "group"): {"DO_NOT_USE", "JUMP_DET", "SATURATED"},
    ("ramp", "pixel"): {"DO_NOT_USE", "SATURATED", "JUMP_DET", "UNRELIABLE_SLOPE"},
}
# what the attribute of a parameter record must hold (the C code reads these by name)
RECORD = {"sat": "SATURATED", "saturated": "SATURATED", "jump": "JUMP_DET", "jump_det": "JUMP_DET", "dnu": "DO_NOT_USE",
          "do_not_use": "DO_NOT_USE", "ngv": "NO_GAIN_VALUE", "no_gain_val": "NO_GAIN_VALUE", "no_gain_value": "NO_GAIN_VALUE",
          "ref": "REFERENCE_PIXEL", "good": "GOOD", "persistence": "PERSISTENCE", "chargeloss": "CHARGELOSS",
          "unreliable_slope": "UNRELIABLE_SLOPE"}
# (step, flag) -> inputs on which the condition of the flag depends; inputs that must be tested for NaN
COND = {("jump", "JUMP_DET"): ({"model.data"}, E), ("jump", "NO_GAIN_VALUE"): ({"gain"}, {"gain"}),
        ("saturation", "SATURATED"): ({"data", "sat_thresh"}, E), ("saturation", "AD_FLOOR"): ({"data"}, E),
        ("saturation", "NO_SAT_CHECK"): ({"sat_thresh", "sat_dq"}, {"sat_thresh"}),
        ("linearity", "NO_LIN_CORR"): ({"lin_coeffs"}, {"lin_coeffs"})}


def need(name):
    """[(path, flags that must be raisable in that returned plane)] of a driver"""
    if name.startswith("jump:"): return [((0,), {"JUMP_DET"}), ((1,), {"NO_GAIN_VALUE", "DO_NOT_USE"})]
    if name.startswith("saturation:"): return [((0,), {"SATURATED", "AD_FLOOR", "DO_NOT_USE"}), ((1,), {"NO_SAT_CHECK"})]
    if name.startswith("linearity:"): return [((1,), {"NO_LIN_CORR"})]
    if name.startswith("ramp:LIKELY"):
        return [((0, "dq"), {"DO_NOT_USE", "SATURATED", "JUMP_DET"}), ((1, "dq"), {"DO_NOT_USE", "SATURATED", "JUMP_DET"})]
    if name.startswith("dark:"): return [((0, "groupdq"), E), ((0, "pixeldq"), E)]
    return []


def configs():
    out = [(n, "all", {}, None, E) for n, e in ENT.items() if e.dq]
    for n in ("jump:uniform", "jump:pattern"):
        for cores in (1, 3):
            for ex in (T, F):
                for sh in (T, F):
                    out.append((n, f"cores={cores},snowballs={ex},showers={sh}", {"o.expand_large_events": ex, "o.find_showers": sh},
                                cores, {"SATURATED"} if ex else E))
        for k in ("only_use_ints", "flag_4_neighbors"):
            for v in (T, F): out.append((n, f"{k}={v}", {"o." + k: v, "o.expand_large_events": F, "o.find_showers": F}, None, E))
    for n in ENT:
        if n.startswith("saturation:"):
            for k, vs in (("n_pix_grow_sat", (0, 1)), ("zframe", (None,)), ("bias", (None,))):
                for v in vs: out.append((n, f"{k}={v}", {k: v}, None, E))
        if n.startswith("linearity:"):
            out.append((n, "zframe=None", {"zframe": None}, None, E))
        if n.startswith("ramp:"):
            for v in (T, F): out.append((n, f"suppress_one_group={v}", {"o.suppress_one_group": v}, None, E))
    return out


def plane_of(roots):
    r = set()
    for x in roots: r.add("group" if x in GROUP else "pixel")
    return r


def flags(bits): return {b for b in (bits or E) if not b.startswith("O:")}


def setup(ip, en, r, raised=None, tested=None, group=None):
    step = en.step
    raised = {} if raised is None else raised
    tested = set() if tested is None else tested
    def h(ev):
        ok = (ev.old.keep or E) - {"*"}
        root = ev.owner.get("root") if ev.owner is not None else None
        if not ok or step is None: return
        new = flags(ev.vcontent.bits) - flags(ev.old.bits)
        w = ev.where()
        for b in sorted(new):
            if b.startswith("F:"):
                f = b[2:]
                deps = ev.idxdeps | ev.vcontent.deps | ev.vcontent.ctl | ip.pcdeps()
                raised.setdefault(f, set()).update(deps)
                if root is None: continue        # working copies: judged when they are returned
                allowed = set()
                for p in plane_of(ok & {root} or ok): allowed |= OWN.get((step, p), E)
                good = f in allowed
                r.oblige("flag raised", f"{step} {f} in {root}", good)
                if not good:
                    r.find("foreign-flag", f"{step}:{root}:{f}", w, f"step '{step}' raises {f} in {root}, which is not one of its flags there", ev.path())
            elif b.startswith("L:") and b not in ("L:0", "L:0.0", "L:False") and root is not None:
                r.oblige("flag value comes from the caller's definitions", f"{step} {root} {b}", False)
                r.find("hard-coded-flag", f"{step}:{root}:{b}", w, f"step '{step}' stores the literal {b[2:]} into {root} instead of a flag "
                       "looked up in the caller's definitions", ev.path())
    ip.on("store", h)
    def ha(ev):
        b = ev.value.bits
        if not b or not all(x.startswith("F:") for x in b): return
        n = ev.name
        for pre in ("flags_", "flag_", "fl_"):
            if n.startswith(pre) and n[len(pre):] in RECORD:
                want = "F:" + RECORD[n[len(pre):]]
                good = b == {want}
                r.oblige("record attribute holds the flag it names", f"{n}", good)
                if not good:
                    r.find("misnamed-flag", f"{n}", ev.where(), f"the record attribute '{n}' is given {', '.join(x[2:] for x in sorted(b))}", ev.path())
    ip.on("setattr", ha)
    def hn(ev):
        """inputs whose NaN test selects where a flag is stored (also into a scratch plane)"""
        fl = [x[2:] for x in (ev.vcontent.bits or E) if x.startswith("F:")]
        if not fl: return
        tags = set(ev.vcontent.tags); deps = ev.idxdeps | ev.vcontent.deps | ev.vcontent.ctl
        for k, x in (ev.idx if isinstance(ev.idx, list) else []):
            if k in ("val", "int"): tags |= ip.content(ev.st, x).tags
        if any(t.startswith(("isnan:", "isfinite:")) for t in tags):
            for f in fl: tested.update((f, d) for d in deps)
    ip.on("store", hn)
    def hs(ev):
        if any(t.startswith(("isnan:", "isfinite:")) for t in ev.ccond.tags):
            for c in (ev.cx, ev.cy):
                for x in (c.bits or E):
                    if x.startswith("F:"): tested.update((x[2:], d) for d in ev.ccond.deps)
    ip.on("select", hs)
    # a data-quality word of an image does not fit in a byte
    NARROW = {"uint8", "int8", "bool", "uint16", "int16"}
    PIXELDQ = {"model.pixeldq", "sci.pixeldq", "pdq", "sat_dq", "lin_dq", "dark.dq"}
    WIDE = {"NO_GAIN_VALUE", "NO_LIN_CORR", "NO_SAT_CHECK", "UNRELIABLE_SLOPE"}
    def narrow(ev, bits, dtype, what):
        if dtype is None or dtype == "bool": return
        b = {x[2:] for x in (bits or E) if x.startswith(("O:", "F:"))}
        wide = {x for x in b if x in PIXELDQ or x in WIDE}
        if not wide: return
        bad = dtype in NARROW
        r.oblige("image DQ words keep their width", f"{step} {what} {'+'.join(sorted(wide))} as {dtype}", not bad)
        if bad:
            r.find("dq-truncated", f"{step}:{'+'.join(sorted(wide))}:{dtype}", ev.where(),
                   f"step '{step}' {what} data-quality words of {', '.join(sorted(wide))} as {dtype}: higher bits are lost", ev.path())
    ip.on("astype", lambda ev: narrow(ev, ev.content.bits if "bool" not in ev.content.tags else E, ev.dtype, "converts"))
    ip.on("store", lambda ev: narrow(ev, ev.vcontent.bits, ev.owner.get("dtype") if ev.owner is not None else None, "stores"))


def outputs(ip, st, res, en, spec, r, label, extra=E):
    step = en.step
    for path, want in spec:
        got = set(); n = 0
        p = "".join(f"[{x!r}]" if not (isinstance(x, str) and step == "dark") else "." + x for x in path)
        kind = "group" if path in ((0,), (0, "groupdq")) else "pixel"
        if step == "ramp": kind = "pixel"
        if step == "linearity": kind = "pixel"
        for o in planes(ip, st, res, path):
            c = ip.obj_content(st, o)
            if "bool" in c.tags: continue
            n += 1
            fl = flags(c.bits)
            got |= {b[2:] for b in fl if b.startswith("F:")}
            for b in sorted(fl):
                if b in ("L:0", "L:0.0", "L:False"): continue
                good = b.startswith("F:") and b[2:] in OWN[(step, kind)]
                r.oblige("flag in a returned plane", f"{step} {p} {b}", good)
                if not good:
                    if b.startswith("F:"):
                        r.find("foreign-flag", f"{step}:returned{p}:{b[2:]}", f"{en.name} [{label}]",
                               f"the plane {p} returned by step '{step}' can carry {b[2:]}, which is not one of the step's flags there")
                    elif b.startswith("L:"):
                        r.find("hard-coded-flag", f"{step}:returned{p}:{b}", f"{en.name} [{label}]",
                               f"the plane {p} returned by step '{step}' is given the literal {b[2:]}")
        w = set(want) | (set(extra) if path == (0,) else set())
        if not n: continue
        for f in sorted(w):
            r.oblige("specified flag can be raised", f"{en.name} [{label}] {p} {f}", f in got)
            if f not in got:
                r.find("flag-never-raised", f"{step}:returned{p}:{f}", f"{en.name} [{label}]",
                       f"step '{step}' never raises {f} in the returned plane {p}" + (f" when {label}" if label != "all" else ""))


def analyse(en, label, r, project, consts, cores, extra):
    e = copy.copy(en); e.specs = dict(en.specs)
    for k, v in consts.items(): e.specs[k] = dict(kind="const", value=v, dep=False) if v is not None else dict(kind="none")
    raised, tested = {}, set()
    def go(ip):
        if cores is not None:
            ip.intercept = {"stcal.multiprocessing.compute_num_cores": lambda ip, node, bound, st: const(cores)}
        setup(ip, e, r, raised, tested)
    ip, res, st = run_entry(project, e, go)
    r.functions |= functions_of(ip)
    outputs(ip, st, res, e, need(e.name), r, label, extra)
    for (step, f), (roots, nan) in COND.items():
        if step != e.step or not need(e.name): continue
        for x in sorted(roots):
            if f not in raised: continue
            ok = any(d == x or d.startswith(x + ".") for d in raised[f])
            r.oblige("condition of a flag depends on its input", f"{e.name} [{label}] {f} on {x}", ok)
            if not ok:
                r.find("flag-condition", f"{step}:{f}:{x}", f"{e.name} [{label}]", f"step '{step}' raises {f} without looking at {x}")
        for x in sorted(nan):
            ok = (f, x) in tested
            r.oblige("condition of a flag depends on its input", f"{e.name} [{label}] {f} on NaN in {x}", ok)
            if not ok:
                r.find("flag-condition", f"{step}:{f}:{x}:nan", f"{e.name} [{label}]", f"step '{step}' must raise {f} where {x} is NaN, but that never depends on a NaN test of {x}")


def unit(name, r, project):
    if name == "c":
        run = CRun(); cpixel.foreign(run, r); cpixel.own_condition(run.u, r)
        r.functions |= {("src/stcal/ramp_fitting/src/slope_fitter.c", f) for f in run.funcs if f in run.u.funcs}
        return
    n, label = name.split("|")
    for c in configs():
        if c[0] == n and c[1] == label: return analyse(ENT[n], label, r, project, c[2], c[3], c[4])


EXAMPLE = '''
import numpy as np
class Rec: pass
def drive(gdq, pdq, sat_dq, dqflags):
    r = Rec()
    r.fl_sat = dqflags["JUMP_DET"]
    gdq[0] |= dqflags["NO_GAIN_VALUE"]
    gdq[1] |= 4
    gdq[2] |= dqflags["SATURATED"]
    return gdq, np.bitwise_or(pdq, sat_dq).astype(np.uint8)
'''


def run(rep):
    p = Project()
    rep.rules.append("each data-quality word records which named flags (or literals) were ORed into it; compared with the flags the step "
                     "is specified to raise in that plane, in every configuration, with the inputs their condition must depend on; "
                     "record attributes must hold the flag they name; image DQ words keep their width")
    run_units(rep, [f"{c[0]}|{c[1]}" for c in configs()] + ["c"], unit, p)
    for c, n in (("flag raised", 5), ("flag in a returned plane", 8), ("specified flag can be raised", 60),
                 ("record attribute holds the flag it names", 8), ("condition of a flag depends on its input", 30)): rep.floor(c, n)
    r = Result("selftest")
    en = entries.Entry("saturation:selftest", EXAMPLE, ["gdq", "pdq", "sat_dq", "dqflags"],
                       {k: entries.dqa(("Y", "X")) for k in ("gdq", "pdq", "sat_dq")} | {"dqflags": dict(kind="dict", items=entries.flagspec)},
                       dq=("gdq",), step="saturation")
    ip, res, st = run_entry(p, en, lambda ip: setup(ip, en, r))
    outputs(ip, st, res, en, need(en.name), r, "selftest")
    keys = {f.ident() for f in r.findings.values()}
    for k in ("misnamed-flag|fl_sat", "foreign-flag|saturation:gdq:NO_GAIN_VALUE", "hard-coded-flag|saturation:gdq:L:4",
              "flag-never-raised|saturation:returned[0]:AD_FLOOR", "dq-truncated|saturation:pdq+sat_dq:uint8"):
        rep.selftest(k, k in keys)
    rep.selftest("own flag is exempt", not any(":SATURATED" in k for k in keys))
    rep.assumptions += ["the flags each step is specified to raise are those of its documentation (table OWN in checks/P03.py)"]
