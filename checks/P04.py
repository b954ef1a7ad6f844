"""P04: samples flagged saturated or do-not-use stay out of every estimate and carry no jump flag of the two-point detection."""
import copy
from sa import entries
from sa.project import Project
from sa.cfront import CUnit
from checks import cpixel
from sa.runner import run_units, run_entry, functions_of, Result
from sa.values import const
from checks.P02 import planes

ENT = entries.ENTRIES
T, F = True, False
FLAGS = ("SATURATED", "DO_NOT_USE")
RAW = frozenset("raw:" + f for f in FLAGS)
COUNTING = {"any", "all", "count_nonzero"}


def configs():
    out = []
    for n in ENT:
        if n.startswith("jump:"):
            for cores in (1, 3):
                for only in (T, F):
                    for sh in (T, F):
                        out.append((n, f"cores={cores},only_use_ints={only},showers={sh}", {"o.only_use_ints": only, "o.find_showers": sh, "o.expand_large_events": F}, cores))
            out.append((n, "all", {}, None))
        if n.startswith(("ramp:LIKELY", "likely:")): out.append((n, "all", {}, None))
        if n.startswith("linearity:"): out.append((n, "all", {}, None))
    return out


def setup(ip, en, r):
    step = en.step
    if step in ("jump", "ramp"):
        ip.root_tags = {"model.data": RAW, "data": RAW}
    elif step == "linearity":
        ip.root_tags = {"lin_coeffs": frozenset(("coef:SATURATED",)), "ilin_coeffs": frozenset(("coef:SATURATED",))}
    def bad(ev, what, tags):
        left = sorted(t[4:] for t in tags if t in RAW)
        r.oblige("estimate over group samples", f"{ev.where()} {what}", not left)
        for f in left:
            r.find("flagged-sample-in-estimate", f"{step}:{what}:{f}", ev.where(),
                   f"step '{step}': {what} is taken over group samples from which those flagged {f} have not been removed", ev.path())
    if step in ("jump", "ramp"):
        def hr(ev):
            if ev.fn in COUNTING: return
            if "model.data" in ev.content.deps or "data" in ev.content.deps: bad(ev, ev.fn, ev.content.tags)
        ip.on("reduce", hr)
        def he(ev):
            if not ev.name.startswith(("astropy.stats", "astropy.convolution", "scipy.", "skimage.", "cv2.")): return
            for a in list(ev.args) + list((ev.kw or {}).values()):
                c = ip.content(ev.st, a)
                if "model.data" in c.deps: bad(ev, ev.name, c.tags)
        ip.on("extcall", he)
    if step == "linearity":
        def hs(ev):
            own = ev.owner
            if own is None or own.get("root") != "data": return
            left = "coef:SATURATED" in ev.vcontent.tags
            r.oblige("linearity result stored", ev.where(), not left)
            if left:
                r.find("saturated-sample-corrected", "linearity:data:SATURATED", ev.where(),
                       "the corrected value is stored into the data without leaving the groups flagged SATURATED as they were", ev.path())
        ip.on("store", hs)


def analyse(en, label, r, project, consts, cores):
    e = copy.copy(en); e.specs = dict(en.specs)
    for k, v in consts.items(): e.specs[k] = dict(kind="const", value=v, dep=False)
    def go(ip):
        if cores is not None:
            ip.intercept = {"stcal.multiprocessing.compute_num_cores": lambda ip, node, bound, st: const(cores)}
        setup(ip, e, r)
    ip, res, st = run_entry(project, e, go)
    r.functions |= functions_of(ip)
    if e.step == "jump" and not label.endswith(("all", "showers=True")):
        for o in planes(ip, st, res, (0,)):
            c = ip.obj_content(st, o)
            left = sorted(t[8:] for t in c.tags if t.startswith("rawjump:"))
            r.oblige("returned group flags", f"{e.name} [{label}]", not left)
            for f in left:
                r.find("jump-on-flagged-sample", f"jump:{f}", f"{e.name} [{label}]",
                       f"a group flagged {f} can be returned with a jump flag of the two-point-difference detection: no test of {f} stands between")


def unit(name, r, project):
    if name == "c": return cpixel.excluded(CUnit(), r)
    n, label = name.split("|")
    for c in configs():
        if c[0] == n and c[1] == label: return analyse(ENT[n], label, r, project, c[2], c[3])


EXAMPLE = '''
import numpy as np
def drive(model, dqflags):
    d = np.diff(model.data, axis=1)
    a = np.nanmedian(d, axis=1)
    good = model.groupdq & dqflags["SATURATED"] == 0
    d2 = np.where(good, model.data, np.nan)
    b = np.nanmean(d2, axis=1)
    gdq = model.groupdq.copy()
    gdq[d2 > 5] |= dqflags["JUMP_DET"]
    return gdq, a
'''
EXAMPLE2 = '''
import numpy as np
def drive(data, gdq, lin_coeffs, dqflags):
    data[:] = np.where(gdq & dqflags["SATURATED"], data, data * lin_coeffs)
    data[:] = data * lin_coeffs
    return data
'''


def run(rep):
    p = Project()
    rep.rules.append("group samples carry, per flag, the fact that samples with this flag have not been removed; it is lost only through a "
                     "selection, masked store or weight that tests that flag; no statistic may be taken over samples still carrying it, "
                     "no jump flag of the two-point detection may stand where neither flag was tested, and no linearity-corrected value may "
                     "be stored where SATURATED was not tested")
    run_units(rep, [f"{c[0]}|{c[1]}" for c in configs()] + ["c"], unit, p)
    for c, n in (("estimate over group samples", 15), ("returned group flags", 10), ("linearity result stored", 2), ("sample taken over for the fit", 1)): rep.floor(c, n)
    for src, roots, want, dont in ((EXAMPLE, ["model", "dqflags"], ["flagged-sample-in-estimate|jump:nanmedian:SATURATED",
                                    "flagged-sample-in-estimate|jump:nanmean:DO_NOT_USE", "jump-on-flagged-sample|jump:DO_NOT_USE"],
                                    ["flagged-sample-in-estimate|jump:nanmean:SATURATED"]),):
        r = Result("selftest")
        en = entries.Entry("jump:selftest", src, roots, ENT["jump:uniform"].specs, dq=("model.groupdq",), step="jump")
        analyse(en, "selftest", r, p, {}, None)
        keys = {f.ident() for f in r.findings.values()}
        for k in want: rep.selftest(k, k in keys)
        for k in dont: rep.selftest("not " + k, k not in keys)
    r = Result("selftest")
    en = entries.Entry("linearity:selftest", EXAMPLE2, ["data", "gdq", "lin_coeffs", "dqflags"], ENT["linearity:simple"].specs, step="linearity")
    analyse(en, "selftest", r, p, {}, None)
    rep.selftest("saturated-sample-corrected", len(r.findings) == 1 and any(":5 " in f.where for f in r.findings.values()))
    rep.assumptions += ["polarity of a flag test is not judged", "the compiled fitters are judged by P04's C part only"]
