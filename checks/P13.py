"""P13: counts, rates, times and variances are combined with consistent dimensions."""
import ast
from sa import entries, cmodel
from sa.cmodel import CRun
from sa.runner import run_units, run_entry, functions_of, Result
from sa.project import Project
from sa.values import unit, u_str, U_TOP, U_POLY, const
from checks.common import mini

T, DN = entries.T, entries.DN
N = unit(n=1)                                   # a noise: its square is a number of electrons
RATE = unit(ct=1, s=-1); VAR = unit(ct=2, n=-2, s=-2); ERR = unit(ct=1, n=-1, s=-1); WT = unit(ct=-2, n=2, s=2)


def var(src, step=None, **specs):
    e = entries.ENTRIES[src]; s = dict(e.specs); s.update(specs)
    return entries.Entry("p13:" + src, e.source, e.roots, s, inplace=e.inplace, dq=e.dq, options=e.options, step=e.step)


def sc(u): return dict(kind="scalar", unit=u)


THR = {"o." + o: sc(N) for o in ("rejection_thresh", "three_grp_thresh", "four_grp_thresh", "max_jump_to_flag_neighbors", "min_jump_to_flag_neighbors")}
X = "model.meta.exposure."
SF, SG = unit(sf=1), unit(sg=1)
_m = "ext:astropy.nddata.bitmask.bitfield_to_boolean_mask"
RES = {_m: dict(kind="array", axes=entries.IMG, unit=U_POLY)}
for _i in ("model1", "model2"):
    RES |= {f"{_i}[{k}]": sc(T) for k in ("effective_exposure_time", "exposure_time", "duration", "measurement_time")}
    RES |= {f"{_i}[pixelarea_steradians]": sc(unit(rad=2)), f"{_i}[pixelarea_arcsecsq]": sc(unit(arcsec=2)), f"{_i}[var_sky]": dict(kind="array", axes=entries.IMG, unit=unit(d=2), optional=True)}
WEIGHTS = {"exptime": (T,), "ivm": (unit(d=-2),), "ivm-sky": (unit(d=-2),)}
ENT = {
    "jump:uniform": var("jump:uniform", **THR), "jump:defaults": entries.ENTRIES["jump:defaults"],
    "jump:pattern": var("jump:pattern", **THR, **{X + "read_pattern": dict(kind="array", axes=("R", "F"), unit=unit(rd=1))}),
    "likely:read_times": var("ramp:LIKELY_opt", **{X + "read_times": dict(kind="array", axes=("R", "F"), unit=T)}),
    "likely:no_read_times": var("ramp:LIKELY_opt", **{X + "read_times": dict(kind="none")}),
    "likely:direct": var("likely:direct", readtimes=dict(kind="array", axes=("R", "F"), unit=T)),
    "likely:jumpdata": var("likely:jumpdata", **{X + "read_times": dict(kind="none")}),
    # frame time and group time kept apart: read times are multiples of the frame time
    "likely:frames": var("ramp:LIKELY_opt", **{X + "read_times": dict(kind="none"), X + "frame_time": sc(SF), X + "group_time": sc(SG), X + "integration_time": sc(SG),
                                               "model.average_dark_current": dict(kind="array", axes=entries.IMG, unit=unit(ct=1, sf=-1))}),
    **{f"resample:{w}": var("resample:stack", **{"o.weight_type": dict(kind="const", value=w)}, **RES) for w in ("exptime", "ivm", "ivm-sky")},
}
for n in ("ramp:OLS_C", "ramp:OLS_C_opt", "dark:3d", "dark:4d", "saturation:nopattern", "saturation:pattern", "saturation:ref4d", "saturation:ref4d_pattern",
          "linearity:simple", "linearity:readlevel", "outlier:utils", "resample:utils", "resample:properties", "skymatch:local", "skymatch:global+match", "median:mem", "median:disk"):
    ENT[n] = entries.ENTRIES[n]
UNITS = ["c", "c:times"] + list(ENT)
# planes the drivers return: (element, place or key) -> dimension
PLANES = {"slope": RATE, "var_poisson": VAR, "var_rnoise": VAR, "err": ERR, "dq": U_POLY, "yint": DN, "crmag": DN, "weights": WT, "pedestal": DN, "sigslope": N, "sigyint": N}
IMAGE = ("slope", "dq", "var_poisson", "var_rnoise", "err")
WHAT = {"slope": "counts per second", "var_poisson": "squared counts per second", "var_rnoise": "squared counts per second", "err": "counts per second (a square root of variances)",
        "dq": "bits", "yint": "counts", "crmag": "counts", "weights": "the inverse of a variance", "pedestal": "counts", "sigslope": "noise", "sigyint": "noise"}


def known(u): return u != U_TOP


def dimensional(u): return not isinstance(u, str) and bool(u)


def annotated(frame):
    """The likelihood fit divides its covariance matrix by a scale before it builds recursions whose elements would otherwise each have another power of a variance."""
    cov = unit(ct=2, n=-2, **{("sf" if frame else "s"): -2})

    def hook(ip, name, res, st):
        if name != "stcal.ramp_fitting.likely_fit.compute_alphas_betas" or res is None: return res
        its = ip.known_items(st, res)
        if its and len(its) == 3:
            for x in its[:2]:
                y = ip.known_items(st, x)
                if y: ip.with_unit(st, y[0], unit())
            its = list(its); its[2] = ip.with_unit(st, its[2], cov)
            for o in ip.objs(st, res): ip.put(st, o.w(items=its))
        return res
    return hook


_asg = {}


def in_place(tree, target):
    """the assigned elements are computed from the same array"""
    if id(tree) not in _asg: _asg[id(tree)] = {id(t): a.value for a in ast.walk(tree) if isinstance(a, ast.Assign) for t in a.targets}
    rhs = _asg[id(tree)].get(id(target))
    base = target
    while isinstance(base, ast.Subscript): base = base.value
    base = ast.dump(base)
    return rhs is not None and any(ast.dump(x) == base for x in ast.walk(rhs))


def watch(ip, r, name, frame=False):
    def mism(ev):
        a, b = (u_str(ip.content(ev.st, ev.d[x]).unit) for x in "ab")
        r.find("dimension", f"{ev.mod.rel}:{ev.qual}:{ev.op}:{':'.join(sorted((a, b)))}", ev.where(), f"'{ev.op}' combines a quantity of dimension {a} with one of dimension {b}", ev.path())
        r.oblige("combined quantities have the same dimension", ev.where(), False)

    def pair(ev):
        if ev.kind == "binop" and ev.op not in ("+", "-"): return
        a, b = (ip.content(ev.st, ev.d[x]).unit for x in "ab")
        if known(a) and known(b):
            if dimensional(a) or dimensional(b): r.oblige("combined quantities have the same dimension", f"{ev.where()}", True)
            else: r.oblige("combined quantities have no dimension", f"{ev.where()}", True)

    def dimless(ev):
        u = ip.content(ev.st, ev.arg).unit
        if not dimensional(u): return
        r.oblige("argument of a transcendental function has no dimension", ev.where(), False)
        r.find("transcendental", f"{ev.mod.rel}:{ev.qual}:{ev.d.get('fn')}", ev.where(), f"{ev.d.get('fn')} of a quantity of dimension {u_str(u)}", ev.path())

    def store(ev):
        """elements of an array replaced by another quantity (replacing the whole array is reuse of memory)"""
        if ev.idx is None or ev.full: return
        a = ev.old.unit if ev.old is not None else U_TOP; b = ev.vcontent.unit
        if not (known(a) and known(b)): return
        if not (dimensional(a) and dimensional(b)): return
        # elements converted in place, piece by piece: x[i] = x[i] * g, x[i] *= g
        if isinstance(ev.aug, (ast.Mult, ast.Div, ast.Pow)): return
        if in_place(ev.mod.tree, ev.node): return
        ok = a == b
        r.oblige("stored elements have the dimension of their array", ev.where(), ok)
        if not ok: r.find("dimension", f"{ev.mod.rel}:{ev.qual}:[]:{':'.join(sorted((u_str(a), u_str(b))))}", ev.where(), f"elements of dimension {u_str(b)} are stored in an array of dimension {u_str(a)}", ev.path())

    def read(ev):
        want = cmodel.INPUTS.get("attr:" + ev.name, {}).get("unit")
        u = ip.content(ev.st, ev.value).unit
        if want is None or not known(u) or u == U_POLY or ev.value.only_none(): return
        ok = u == want
        r.oblige("the compiled fitter gets each quantity in its unit", f"{name} {ev.name}", ok)
        if not ok: r.find("fitter-unit", ev.name, ev.where(), f"the compiled fitter reads '{ev.name}' as {u_str(want)}, it is given {u_str(u)}", ev.path())

    def call(ev):
        for i, what in ((1, "the gain"), (2, "the read noise")):
            if i >= len(ev.args): continue
            want = cmodel.INPUTS[f"arg:{i}"]["unit"]; u = ip.content(ev.st, ev.args[i]).unit
            if not known(u) or u == U_POLY: continue
            ok = u == want
            r.oblige("the compiled fitter gets each quantity in its unit", f"{name} {i}", ok)
            if not ok: r.find("fitter-unit", f"arg:{i}", ev.where(), f"the compiled fitter takes {what} as {u_str(want)}, it is given {u_str(u)}", ev.path())
    def drizzle(ev):
        kw = ev.d.get("kw") or {}
        if "weight_map" not in kw: return
        for k, v in kw.items():
            u = ip.content(ev.st, v).unit
            want = WEIGHTS.get(name.split(":")[-1]) if k == "weight_map" else (unit(),) if k in ("pixel_scale_ratio", "iscale", "pixfrac", "wht_scale") else None
            if want is None or not known(u) or u == U_POLY: continue
            ok = u in want
            r.oblige("the drizzle library gets each quantity in its dimension", f"{ev.where()} {k}", ok)
            if not ok: r.find("drizzle-dimension", f"{ev.qual}:{k}", ev.where(), f"'{k}' is passed to the drizzle library with dimension {u_str(u)}, it should be {' or '.join(u_str(w) for w in want)}", ev.path())
    ip.on("extcall", drizzle)
    ip.on("unit_mismatch", mism); ip.on("binop", pair); ip.on("compare", pair); ip.on("dimless", dimless); ip.on("store", store)
    if not frame: ip.on("c_read", read); ip.on("c_call", call)


def unit_(name, r, project):
    if name == "c": return c_side(r, CRun(), project)
    if name == "c:times": return c_times(r)
    e = ENT[name]; frame = name == "likely:frames"

    def setup(ip):
        ip.ret_hook = annotated(frame)
        ip.intercept = {"stcal.multiprocessing.compute_num_cores": lambda ip, node, bound, st: const(1)}
        watch(ip, r, name, frame)
    ip, res, st = run_entry(project, e, setup)
    r.functions |= functions_of(ip)
    if name in ("likely:read_times", "likely:no_read_times", "likely:frames", "likely:jumpdata"):
        def plane(el, k, x):
            want = {**PLANES, "chisq": unit(n=2)}.get(k)
            c = ip.content(st, x); u = c.unit
            if want is None or not known(u) or u == U_POLY or any(q.startswith("cres:") for q in c.tags): return
            if frame and want != U_POLY: want = frozenset((("sf" if d == "s" else d), p) for d, p in want)
            ok = u == want
            r.oblige("returned plane has its dimension", f"{name} {el}:{k}", ok)
            if not ok: r.find("plane-dimension", f"{el}:{k}", e.name, f"'{k}' (element {el} of the likelihood fit's result) has dimension {u_str(u)}, it should be {u_str(want)}", ())
        for t in [o for o in ip.objs(st, res) if o.kind == "tuple" and o.get("items") is not None]:
            for el, v in enumerate(t.get("items")[:2]):
                for o in ip.objs(st, v):
                    if o.kind == "dict":
                        for k, x in (o.get("items") or {}).items(): plane(el, k, x)
                    elif o.kind == "tuple" and len(o.get("items") or ()) == 5:
                        for k, x in zip(IMAGE, o.get("items")): plane(el, k, x)


def c_pairs(r, run):
    seen = set()
    for n, d in run.ev["unit_pair"]:
        a, b = d["a"].unit, d["b"].unit
        if not (known(a) and known(b)): continue
        cls = "combined quantities have the same dimension (compiled)" if dimensional(a) or dimensional(b) else "combined quantities have no dimension (compiled)"
        r.oblige(cls, f"{d['where']} {d['op']}", d["ok"])
        if not d["ok"]:
            # named by what it combines, not by where it stands
            frm = sorted({x[5:] for x in d["a"].deps | d["b"].deps if x in ("attr:drop_frames1", "attr:groupgap", "attr:nframes", "attr:zeroframe", "attr:average_dark_current")})
            r.find("dimension", f"fitter:{d['op']}:{':'.join(sorted((u_str(a), u_str(b))))}:from={','.join(frm)}", d["where"],
                   f"'{d['op']}' combines a quantity of dimension {u_str(a)} with one of dimension {u_str(b)}", d["path"])
    for n, d in run.ev["dimless"]:
        u = d["v"].unit
        if not dimensional(u): continue
        r.oblige("argument of a transcendental function has no dimension (compiled)", d["where"], False)
        r.find("transcendental", f"{d['func']}:{d['arg']}", d["where"], f"{d['arg']} of a quantity of dimension {u_str(u)}", d["path"])


def c_side(r, run, project):
    r.functions |= {("src/stcal/ramp_fitting/src/slope_fitter.c", f) for f in run.funcs}
    c_pairs(r, run)
    prods = run.products(); cont = run.contents()
    for key, (pos, items, where) in sorted(prods.items(), key=str):
        for k, arrs in sorted(items.items()):
            want = PLANES.get(k)
            if want is None: continue
            for a in arrs:
                c = cont.get(a)
                for v, w, ct, pth in (c[2] if c else ()):
                    u = v.unit
                    if not known(u) or u == U_POLY and want != U_POLY: continue
                    ok = u_str(u) == u_str(want) or want == U_POLY and not dimensional(u)
                    r.oblige("returned plane has its dimension (compiled)", f"{pos}:{k} {w}", ok)
                    if not ok: r.find("plane-dimension", f"{pos}:{k}", w, f"'{k}' in element {pos} of the result has dimension {u_str(u)}, it should be {WHAT[k]} ({u_str(want)})", pth)


def has(u, dim): return not isinstance(u, str) and any(d == dim for d, _ in u)


def c_times(r):
    """frame time and group time as different dimensions: what is fitted through several groups is per group time"""
    over = {"attr:frame_time": dict(unit=SF), "attr:group_time": dict(unit=SG), "attr:average_dark_current": dict(axes=entries.IMG, unit=unit(ct=1, sg=-1))}
    old = {k: cmodel.INPUTS[k] for k in over}
    cmodel.INPUTS.update(over)
    try: run = CRun()
    finally: cmodel.INPUTS.update(old)
    r.functions |= {("src/stcal/ramp_fitting/src/slope_fitter.c", f) for f in run.funcs}
    for n, d in run.ev["unit_pair"]:
        a, b = d["a"].unit, d["b"].unit
        if not (known(a) and known(b)): continue
        mixed = has(a, "sf") and has(b, "sg") or has(a, "sg") and has(b, "sf")
        r.oblige("rates per frame time and per group time are not combined", f"{d['where']} {d['op']}", not mixed)
        if mixed: r.find("time-kind", f"{d['func']}:{d['op']}", d["where"], f"'{d['op']}' combines a quantity of dimension {u_str(a)} with one of dimension {u_str(b)}: one is per frame time, the other per group time", d["path"])
    for n, d in run.ev["store"]:
        v = d["value"]
        if v is None or d["loc"][0] != "h": continue
        f = [p for p in d["loc"] if isinstance(p, str) and p not in ("[]", "h")]
        f = f[-1] if f else ""
        if f not in ("slope", "var_p", "var_r", "var_e", "weight", "var_poisson", "var_rnoise", "var_err"): continue
        if not known(v.unit) or v.unit == U_POLY: continue
        bad = has(v.unit, "sf")
        r.oblige("fitted slope and variances are per group time", d["where"], not bad)
        if bad: r.find("time-kind", f"{d['func']}:{f}", d["where"], f"'{f}' is computed with the frame time alone ({u_str(v.unit)}); groups are a group time apart", d["path"])


BAD = '''
def f(gain, rn, data):
    a = data * gain
    return a + rn * gain
'''


def selftest():
    p = mini("stcal._p13", BAD)
    fires = [0]
    e = entries.Entry("p13bad", "from stcal._p13 import f\ndef drive(gain, rn, data):\n    return f(gain, rn, data)\n", ["gain", "rn", "data"],
                      {"gain": dict(kind="array", axes=entries.IMG, unit=entries.E_DN), "rn": dict(kind="array", axes=entries.IMG, unit=entries.RN), "data": dict(kind="array", axes=entries.IMG, unit=DN)})
    r = Result("self"); run_entry(p, e, lambda ip: watch(ip, r, "self"))
    return any(f.rule == "dimension" for f in r.findings.values())


def run(rep):
    p = Project()
    rep.rules += ["dimension (operands of +, -, comparison, where, clip, minimum, maximum have one dimension; a number of electrons is a squared noise)",
                  "plane-dimension (every returned plane has its documented dimension)", "fitter-unit (arguments and attributes reach the compiled fitter in the units it computes with)",
                  "time-kind (frame time and group time are not interchanged)", "transcendental (exp, log and variable powers of plain numbers only)"]
    rep.assumptions += ["numbers written in the code take any dimension", "a quantity whose dimension is lost (library results, recursions over powers of a variance) is not judged",
                        "the covariance matrix of the likelihood fit is taken to be dimensionless after its rescaling"]
    run_units(rep, UNITS, unit_, p)
    rep.floor("combined quantities have the same dimension", 30)
    rep.floor("combined quantities have the same dimension (compiled)", 20)
    rep.floor("returned plane has its dimension (compiled)", 8)
    rep.floor("fitted slope and variances are per group time", 5)
    rep.selftest("dimension", selftest())
