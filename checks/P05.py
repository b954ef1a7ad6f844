"""P05: statistics taken over values that may be NaN ignore NaN."""
from sa import entries
from sa.project import Project
from sa.runner import run_units, run_entry, functions_of, Result
from checks.P02 import planes

ENT = entries.ENTRIES
NAN = frozenset(("nan",))
UNSAFE = {"mean", "median", "sum", "std", "var", "min", "max", "amin", "amax", "percentile", "quantile", "ptp", "cumsum", "argmax", "argmin",
          "sort", "argsort", "partition", "prod", "average", "cumprod", "dot", "trapz", "maximum.reduce", "minimum.reduce", "add.reduce"}
SPREAD = ("scipy.ndimage.", "scipy.signal.", "skimage.measure.", "skimage.filters.", "skimage.morphology.", "scipy.stats.", "cv2.")
# inputs that callers hand over with NaN for missing samples
NANROOTS = {"jump": ("gain", "model.data"), "dark": ("dark.data",), "outlier": ("a", "sci", "err", "blot", "weight", "resample_data"),
            "median": ("img1", "img2", "cube"), "saturation": ("sat_thresh",),
            "resample": ("model0.data", "model1.data", "data")}
# whole-number and flag planes: cannot hold NaN


def analyse(en, r, project, integ=False):
    """integ: the group samples of the likelihood fit may be NaN (a fit without usable samples gives NaN); only statistics over
    integrations are judged then, because within an integration the difference mask, not NaN, excludes samples"""
    step = en.step
    def setup(ip):
        ip.root_tags = {x: NAN for x in (("model.data",) if integ else NANROOTS.get(step, ()))}
        def hr(ev):
            c = ev.content
            if ev.fn not in UNSAFE: return
            bad = "nan" in c.tags
            if integ and "I" not in {str(a).rstrip("'") for a in (ev.removed or ())}: return
            r.oblige("statistic over possibly invalid values", f"{ev.where()} {ev.fn}", not bad)
            if bad:
                f, fn = ev.where().split(":")[0], ev.where().split(" ")[-1]
                r.find("nan-in-statistic", f"{step}:{fn}:{ev.fn}", ev.where(),
                       f"step '{step}': {ev.fn} does not ignore NaN and is taken over values that mark invalid samples with NaN", ev.path())
        ip.on("reduce", hr)
        def he(ev):
            if not ev.name.startswith(SPREAD): return
            for a in list(ev.args) + list((ev.kw or {}).values()):
                bad = "nan" in ip.content(ev.st, a).tags
                r.oblige("neighbourhood operation", f"{ev.where()} {ev.name}", not bad)
                if bad:
                    r.find("nan-spreads", f"{step}:{ev.name}", ev.where(),
                           f"step '{step}': {ev.name} spreads NaN to neighbouring samples and is applied to values that mark invalid samples with NaN", ev.path())
        ip.on("extcall", he)
        def hc(ev):
            if ev.op not in ("==", "!=", "Eq", "NotEq", "is", "in"): return
            for x in (ev.a, ev.b):
                if x is not None and any(isinstance(c, tuple) and c and c[0] == "nan" for c in x.consts) and len(x.consts) == 1:
                    r.find("compared-with-nan", f"{step}", ev.where(), "a comparison with NaN is never true: invalid samples are not recognised", ev.path())
        ip.on("compare", hc)
    ip, res, st = run_entry(project, en, setup)
    r.functions |= functions_of(ip)
    if step == "dark":
        for o in planes(ip, st, res, (0, "data")):
            bad = "nan" in ip.obj_content(st, o).tags
            r.oblige("corrected data", f"{en.name} {o.id}", not bad)
            if bad: r.find("dark-nan-reaches-data", "dark:data", en.name, "NaN samples of the dark reference are subtracted from the data without having been replaced")
    return ip, res, st


def unit(name, r, project):
    analyse(ENT[name], r, project)
    if name.startswith(("ramp:LIKELY", "likely:")): analyse(ENT[name], r, project, True)


EXAMPLE = '''
import numpy as np
from skimage.measure import label
from scipy import ndimage
def drive(a, kernel):
    d = np.diff(a, axis=0)
    good = np.nanmedian(d, axis=0)
    bad = np.median(d, axis=0)
    lab = label(d > 3)
    sm = ndimage.gaussian_filter(d, 3)
    d[np.isnan(d)] = 0
    fine = np.mean(d)
    e = a.copy()
    if e[0, 0] == np.nan: return None
    return good, bad, lab, sm, fine
'''


def run(rep):
    p = Project()
    rep.rules.append("every array the code fills with NaN, and every input that is handed over with NaN for missing samples, carries the fact "
                     "'may hold NaN' through views, arithmetic, calls and workers; it is lost by a NaN-ignoring reduction, a comparison, or an "
                     "isnan/isfinite store or selection; no reduction that propagates NaN and no neighbourhood operation may be applied while it stands, "
                     "and nothing is compared with NaN by ==")
    run_units(rep, list(ENT), unit, p)
    for c, n in (("statistic over possibly invalid values", 25), ("neighbourhood operation", 2), ("corrected data", 2)): rep.floor(c, n)
    r = Result("selftest")
    analyse(entries.Entry("outlier:selftest", EXAMPLE, ["a", "kernel"], ENT["outlier:utils"].specs, step="outlier"), r, p)
    got = sorted((f.rule, f.where.rsplit(":", 1)[1].split(" ")[0]) for f in r.findings.values())
    rep.selftest("unsafe median, filter and NaN comparison reported, others not",
                 got == [("compared-with-nan", "14"), ("nan-in-statistic", "8"), ("nan-spreads", "10")])
    rep.assumptions += ["whether an infinite value can occur is not judged", "the compiled fitters are judged by P05's C part only"]
