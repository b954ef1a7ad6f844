"""P10: every option takes effect, under its own meaning, on every path (missing-dependence analysis)."""
import ast, copy, re
from sa import entries
from sa.entries import Entry
from sa.project import Project, Module
from sa.runner import run_units, run_entry, functions_of, Result
from sa.values import V, const

# parameter or attribute name inside the library -> the option(s) of the step it stands for
ALIAS = {
    "jump": {"normal_rej_thresh": "o.rejection_thresh", "two_diff_rej_thresh": "o.three_grp_thresh",
             "three_diff_rej_thresh": "o.four_grp_thresh", "after_jump_flag_e1": "o.after_jump_flag_dn1",
             "after_jump_flag_e2": "o.after_jump_flag_dn2"},
    "ramp": {"suppress_one_group_ramps": "o.suppress_one_group"},
    "cas22": {"intercept": "o.threshold_intercept", "constant": "o.threshold_constant", "use_jump": "o.use_jump"},
    "skymatch": {"lsig": "o.lsigma", "usig": "o.usigma", "fields": "o.skystat", "skysub": "o.subtract", "skystat_": "o.skystat"},
    "tweakreg:relative": {"fitgeom": "o.fitgeometry"},
    "tweakreg:absolute": {"fitgeom": "o.abs_fitgeometry", "searchrad": "o.abs_searchrad", "separation": "o.abs_separation",
                          "use2dhist": "o.abs_use2dhist", "tolerance": "o.abs_tolerance", "minobj": "o.abs_minobj",
                          "nclip": "o.abs_nclip", "sigma": "o.abs_sigma"},
    "resample:stack": {"kx": "o.pixmap_order", "ky": "o.pixmap_order", "stepsize": "o.pixmap_stepsize"},
    "resample:utils": {"kx": "o.order", "ky": "o.order"},
    "outlier": {"kx": "pixmap_order", "ky": "pixmap_order"},
    "median": {"dir": "o.tempdir"},
}
# names that mean something else elsewhere in the same driver, or are special to the analyser
DROP = {"median:disk": {"odtype"}, "median:mem": {"odtype"}, "velocity:all": {"u", "vx", "vy", "vz", "ra", "dec"}, "tweakreg:catalog": {"catalog", "bounding_box"},
        "alignment:all": {"vparity", "disp_axis", "oshape", "bounding_box", "center", "intersect"}, "resample:utils": {"oshape", "bbox"},
        "linearity:readlevel": {"ilin_coeffs", "read_pattern", "satval"}, "cores:all": set(),
        "outlier:utils": {"scale", "snr"},
        "linearity:readlevel_noadd": {"ilin_coeffs", "read_pattern", "satval"}}
# the fill value of a variance plane is NaN by construction: no variance is known where nothing was added
EXEMPT_EXT = {("resample", "fillval", "drizzle.resample.Drizzle")}

# library calls that carry options out of the code, and which option each argument must be made from
SINKS = [
    ("resample:stack", r"^drizzle\.resample\.Drizzle$", {"kernel": "o.kernel"}),
    ("resample:stack", r"^drizzle\.resample\.Drizzle\(\)\.add_image$",
     {"pixfrac": "o.pixfrac", "weight_map": ("o.weight_type", "o.good_bits"), "pixmap": ("o.pixmap_stepsize", "o.pixmap_order")}),
    ("skymatch", r"ImageStats$", {"lower": "o.lower", "upper": "o.upper", "nclip": "o.nclip", "lsig": "o.lsigma", "usig": "o.usigma",
                                  "binwidth": "o.binwidth", "fields": "o.skystat"}),
    ("tweakreg:relative", r"XYXYMatch$", {k: "o." + k for k in ("searchrad", "separation", "use2dhist", "tolerance", "xoffset", "yoffset")}),
    ("tweakreg:relative", r"align_wcs$", {"enforce_user_order": "o.enforce_user_order", "expand_refcat": "o.expand_refcat", "minobj": "o.minobj",
                                          "match": ("o.searchrad", "o.tolerance"), "fitgeom": "o.fitgeometry", "nclip": "o.nclip",
                                          "sigma": "o.sigma", "clip_accum": "o.clip_accum"}),
    ("tweakreg:absolute", r"XYXYMatch$", {"searchrad": "o.abs_searchrad", "separation": "o.abs_separation", "use2dhist": "o.abs_use2dhist",
                                          "tolerance": "o.abs_tolerance"}),
    ("tweakreg:absolute", r"align_wcs$", {"minobj": "o.abs_minobj", "match": ("o.abs_searchrad", "o.abs_tolerance"), "fitgeom": "o.abs_fitgeometry",
                                          "nclip": "o.abs_nclip", "sigma": "o.abs_sigma", "clip_accum": "o.clip_accum", "refcat": "o.abs_refcat"}),
    ("tweakreg", r"^requests\.get$", {"timeout": "o.timeout"}),
    ("median:disk", r"TemporaryDirectory$", {"dir": "o.tempdir"}),
    ("outlier:utils", r"blot_image$", {"fillval": "fillval", "pixmap": ("pixmap_stepsize", "pixmap_order")}),
]
SINK_FLOOR = {"resample:stack": 4, "skymatch:match": 7, "tweakreg:relative": 13, "tweakreg:absolute": 8, "tweakreg:catalog": 1, "median:disk": 1, "outlier:utils": 2}

SNOW = ["o." + x for x in ("min_jump_area", "min_sat_area", "expand_factor", "sat_required_snowball", "min_sat_radius_extend", "sat_expand",
                           "edge_size", "max_extended_width", "mask_persist_grps_next_int", "persist_grps_flagged")]
SHOW = ["o." + x for x in ("extend_snr_threshold", "extend_min_area", "extend_inner_radius", "extend_outer_radius",
                           "extend_ellipse_expand_ratio", "max_extended_width", "max_shower_amplitude", "grps_masked_after_shower")]
CORE = ["o." + x for x in ("rejection_thresh", "three_grp_thresh", "four_grp_thresh", "max_jump_to_flag_neighbors", "min_jump_to_flag_neighbors",
                           "flag_4_neighbors", "after_jump_flag_dn1", "after_jump_flag_n1", "after_jump_flag_dn2", "after_jump_flag_n2",
                           "minimum_groups", "minimum_sigclip_groups", "only_use_ints", "min_diffs_single_pass", "max_cores")]
# a minimisation direction exists only where images are matched
NOT_FOR = {"skymatch:local": {"o.match_down"}, "skymatch:global": {"o.match_down"}}
T, F = True, False


def configs():
    """(driver, label, constants, cores, options that must influence the outputs in that configuration or None for all)"""
    out = []
    for n, en in entries.ENTRIES.items():
        if en.options: out.append((n, "all", {}, None, [o for o in en.options if not (n in NOT_FOR and o in NOT_FOR[n])]))
    def without(lst, *c): return [x for x in lst if x not in c]
    for n in ("jump:uniform", "jump:pattern"):
        for cores, cl in ((1, "serial"), ("many", "parallel")):
            base = CORE
            for ex, sh, req in ((T, F, CORE + SNOW), (F, T, CORE + SHOW), (F, F, CORE), (T, T, CORE + SNOW + SHOW)):
                out.append((n, f"{cl},snowballs={ex},showers={sh}", {"o.expand_large_events": ex, "o.find_showers": sh}, cores, without(req, "o.max_cores") if cores == 1 else without(req, "o.max_cores")))
            off = {"o.expand_large_events": F, "o.find_showers": F}
            for u in (T, F):
                out.append((n, f"{cl},only_use_ints={u}", dict(off, **{"o.only_use_ints": u}), cores, without(CORE, "o.only_use_ints", "o.max_cores")))
            for f4 in (T, F):
                req = without(CORE, "o.flag_4_neighbors", "o.max_cores")
                if not f4: req = without(req, "o.max_jump_to_flag_neighbors", "o.min_jump_to_flag_neighbors")
                out.append((n, f"{cl},flag_4_neighbors={f4}", dict(off, **{"o.flag_4_neighbors": f4}), cores, req))
            for sr in (T, F):
                req = without(CORE + SNOW, "o.sat_required_snowball", "o.max_cores")
                out.append((n, f"{cl},sat_required_snowball={sr}", {"o.expand_large_events": T, "o.find_showers": F, "o.sat_required_snowball": sr}, cores, req if sr else without(req, "o.edge_size", "o.min_sat_area", "o.min_sat_radius_extend", "o.sat_expand")))
            out.append((n, f"{cl},no persistence", {"o.expand_large_events": T, "o.find_showers": F, "o.mask_persist_grps_next_int": F}, cores,
                        without(CORE + SNOW, "o.mask_persist_grps_next_int", "o.persist_grps_flagged", "o.max_cores")))
    for n in ("resample:stack",):
        en = entries.ENTRIES[n]
        for k in ("enable_ctx", "enable_var", "compute_err", "propagate_dq"):
            for v in ((T, F) if k != "compute_err" else ("from_var", "driz_err", None)):
                out.append((n, f"{k}={v}", {"o." + k: v}, None, [o for o in en.options if o not in ("o." + k,) and not (v in (F, None) and o in ("o.compute_err",)) and
                                                           not (k == "enable_ctx" and v is F and o == "o.n_input_models") and not (k == "enable_var" and o == "o.enable_var")]))
        for w in ("ivm", "ivm-sky", "exptime"):
            out.append((n, f"weight_type={w}", {"o.weight_type": w}, None, [o for o in en.options if o != "o.weight_type"]))
    return out


def has(deps, root): return any(x == root or x.startswith(root + ".") or x.startswith(root + "[") for x in deps)


def names_of(en):
    m = {}
    for o in en.options: m.setdefault(o.split(".")[-1], set()).add(o)
    for k, t in ALIAS.items():
        if en.name == k or en.name.split(":")[0] == k:
            for a, o in t.items():
                m.setdefault(a, set()).add(o)
    for x in DROP.get(en.name, ()): m.pop(x, None)
    return m


# two options of a pair must not be mixed: arguments of one call that belong to different members
PAIRS = [({"o.after_jump_flag_dn1", "o.after_jump_flag_n1"}, {"o.after_jump_flag_dn2", "o.after_jump_flag_n2"})]
# the threshold a flag-specific search has to use
FLAGOPT = [("F:SATURATED", "o.min_sat_area", {"o.min_jump_area", "o.min_sat_area", "o.extend_min_area"}),
           ("F:JUMP_DET", "o.min_jump_area", {"o.min_jump_area", "o.min_sat_area", "o.extend_min_area"})]


def setup(ip, en, r, seen):
    m = names_of(en)
    def judge(ev, name, v, what):
        if v.is_bottom: return
        d = ip.alldeps(ev.st, v)
        ok = any(has(d, x) for x in m[name])
        key = f"{en.step}:{name}"
        r.oblige("option handed on under its own name", f"{en.name}:{ev.where()}:{name}:{what}", ok)
        if not ok:
            got = sorted(x for x in d if x.startswith("o."))[:4] or sorted(d)[:4]
            r.find("option-replaced", f"{key}:{what}", ev.where(), f"'{name}' of {what} does not receive the option {' or '.join(sorted(m[name]))}"
                   f" (it receives {', '.join(got) if got else 'a fixed value'})", ev.path())
    def call(ev):
        if ev.where().startswith("<driver"): return
        q = (ev.func.get("qual") or "").split(".<")[0]
        for a, v in ev.bound.items():
            if a in m: judge(ev, a, v, f"the call of {q}")
        direct(ev, ev.bound.values(), q)
    def direct(ev, vals, q):
        vals = [v for v in vals if not v.refs]
        for a, b in PAIRS:
            da = any(v.deps & a and not v.deps & b for v in vals); db = any(v.deps & b and not v.deps & a for v in vals)
            if da or db:
                r.oblige("paired options stay together", f"{en.name}:{ev.where()}", not (da and db))
                if da and db and not q.endswith("__init__") and "set_" not in q:
                    va = [v for v in vals if v.deps & (a | b)]
                    if len(va) == 2: r.find("option-mixed", f"{en.step}:{q}", ev.where(), f"the call of {q} combines one of {sorted(a)} with one of {sorted(b)}", ev.path())
        for fl, want, grp in FLAGOPT:
            flv = [v for v in vals if v.bits and fl in v.bits and len([x for x in v.bits if x.startswith("F:")]) == 1]
            if not flv: continue
            for v in vals:
                if v.deps & grp and v not in flv and len(v.deps & grp) == 1:
                    ok = want in v.deps
                    r.oblige("size limit of the right event type", f"{en.name}:{ev.where()}:{fl}", ok)
                    if not ok: r.find("option-mixed", f"{en.step}:{fl}", ev.where(), f"a search for {fl[2:]} regions in {q} uses {', '.join(sorted(v.deps & grp))} instead of {want}", ev.path())
    ip.on("call", call)
    def sa(ev):
        if ev.name in m and not (ev.value.consts and not ev.value.unk and not ev.value.refs): judge(ev, ev.name, ev.value, "the attribute")
        elif ev.name in m and ev.where().find("__init__") < 0 and not ev.where().startswith("<driver") and not all(ip.heap_fresh(ev.st, o) for o in ev.objs):
            judge(ev, ev.name, ev.value, "the attribute")
    ip.on("setattr", sa)
    ext = seen["ext"]; sinks = seen["sinks"]
    mine = [(re.compile(p), t) for k, p, t in SINKS if en.name == k or en.name.split(":")[0] == k]
    def xc(ev):
        nm = ev.d["name"]
        quiet = re.match(r"(numpy|logging|warnings|builtins|math)\b", nm)
        if not quiet:
            for v in list(ev.args) + list(ev.kw.values()): ext.update(ip.alldeps(ev.st, v))
            ext.update(ip.pcdeps())
        elif re.match(r"numpy\.(indices|empty|full|zeros|ones|linspace|arange|fromfile|dtype|frombuffer|memmap|mgrid)$", nm):
            for v in list(ev.args) + list(ev.kw.values()): ext.update(ip.alldeps(ev.st, v))      # options that fix a length or type
        for a, v in ev.kw.items():
            if a in m and (en.step, a, nm) not in EXEMPT_EXT and not quiet: judge(ev, a, v, nm)
        for p, t in mine:
            if not p.search(nm): continue
            for a, opts in t.items():
                for o in (opts if isinstance(opts, tuple) else (opts,)):
                    if a in ev.kw: ok = has(ip.alldeps(ev.st, ev.kw[a]), o)
                    else: ok = any(has(ip.alldeps(ev.st, v), o) for v in ev.args)
                    r.oblige("option reaches the library call", f"{en.name}:{ev.where()}:{nm}:{a}:{o}", ok)
                    sinks.add((nm, a, o))
                    if not ok:
                        r.find("option-lost", f"{en.name}:{nm.split('.')[-1]}:{a}:{o}", ev.where(), f"argument '{a}' of {nm} is not made from the option {o}", ev.path())
    ip.on("extcall", xc)
    def uk(ev):
        for v in list(ev.args) + list(ev.kw.values()):
            v = v[1] if isinstance(v, tuple) else v
            ext.update(ip.alldeps(ev.st, v))
        ext.update(ip.pcdeps())
    ip.on("unkcall", uk)
    ip.on("methcall", lambda ev: uk(ev) if any(o is not None and o.kind in ("opaque", "array") for o in (ip.obj(ev.st, x) for x in ev.self_.refs)) else None)
    ip.on("setattr", lambda ev: ext.update(ip.alldeps(ev.st, ev.value)) if any(o.kind in ("opaque", "ext") for o in ev.objs) else None)
    def st(ev):
        if ev.owner is not None and ev.owner.get("root"): seen["out"].update(ev.vcontent.deps | ev.vcontent.ctl)
    ip.on("store", st)


def many(n):
    def h(ip, node, bound, st):
        return const(1 if n == 1 else 3)
    return h


def analyse(en, label, r, project, consts, cores, req):
    seen = dict(out=set(), ext=set(), sinks=set())
    e = copy.copy(en); e.specs = dict(en.specs)
    for k, v in consts.items(): e.specs[k] = dict(kind="const", value=v, dep=False)
    def go(ip):
        ip.heap_fresh = lambda st, o: not o.get("root") and o.kind != "opaque"
        if cores is not None:
            ip.intercept = {"stcal.multiprocessing.compute_num_cores": many(cores)}
        setup(ip, e, r, seen)
    ip, res, st = run_entry(project, e, go)
    r.functions |= functions_of(ip)
    out = seen["out"] | ip.alldeps(st, res)
    for o in (req if req is not None else en.options):
        ok = has(out, o) or has(seen["ext"], o)
        r.oblige("option influences a result", f"{en.name}:{label}:{o}", ok)
        if not ok:
            r.find("option-without-effect", f"{en.step}:{o}", f"{en.name} [{label}]", f"the option {o} influences no output of step '{en.step}'"
                   + (f" when {label}" if label != "all" else ""))
    return seen


def unit(name, r, project):
    n, label = name.split("|")
    for c in configs():
        if c[0] == n and c[1] == label:
            seen = analyse(entries.ENTRIES[n], label, r, project, c[2], c[3], c[4])
            if label == "all":
                for s in seen["sinks"]: r.oblige("library call checked", f"{n}:{s}")
                fl = SINK_FLOOR.get(n, 0)
                if len(seen["sinks"]) < fl: r.error = f"{n}: only {len(seen['sinks'])} option-carrying library arguments recognised (expected {fl})"
            return


def unread_parameters(pj, r):
    """a parameter the body never reads is an argument without effect"""
    for m, q, fn, cls in pj.functions():
        a = fn.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if not [s for s in body if not isinstance(s, (ast.Pass, ast.Raise))] or (fn.name.startswith("__") and fn.name.endswith("__") and fn.name != "__init__"): continue
        if fn.name.startswith(("dbg_", "print_", "_dbg")) or fn.name.endswith("_hook"): continue
        if all(isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant)) for s in body): continue
        dec = {c.value for d in fn.decorator_list for c in ast.walk(d) if isinstance(c, ast.Constant)}
        used = {n.id for s in fn.body for n in ast.walk(s) if isinstance(n, ast.Name)}
        r.functions.add((m.rel, q))
        for x in ps:
            if x in ("self", "cls") or x.startswith("_") or x in dec: continue
            ok = x in used
            r.oblige("parameter is read", f"{m.rel}:{q}:{x}", ok)
            if not ok: r.find("unread-parameter", f"{m.rel}:{fn.name}:{x}", f"{m.rel}:{fn.lineno} ({q})", f"the argument '{x}' of {q} has no effect: the body never reads it")


def run(rep):
    rep.rules = ["a parameter or attribute that bears an option's name (or its documented internal alias) receives a value computed from that option",
                 "each option is in the dependence set of the outputs (or of an external call's arguments) in every configuration where it applies",
                 "arguments of option-carrying library calls are computed from their option", "members of option pairs are not mixed in one call",
                 "every parameter of a function is read by its body", "searches for saturated / jump regions use the size limit of that event type"]
    rep.assumptions = ["dependence is computed over all abstract paths of the configuration: an option that still influences the result somewhere counts as effective there",
                       "models of external library calls propagate the dependence of all their arguments"]
    selftest(rep)
    pj = Project()
    cs = configs()
    run_units(rep, [f"{c[0]}|{c[1]}" for c in cs], unit, pj)
    r = rep.new("parameters"); unread_parameters(pj, r)
    rep.floor("parameter is read", 500)
    rep.floor("option influences a result", 600); rep.floor("option handed on under its own name", 100)


def selftest(rep):
    from checks.common import mini
    src = '''
def inner(x, sigma, order):
    if sigma > 2: return x + order
    return x
def good(x, sigma, order): return inner(x, sigma, order)
def swapped(x, sigma, order): return inner(x, order, sigma)
def dropped(x, sigma, order): return inner(x, 3, order)
def unused(x, sigma, order): return x + sigma
'''
    pj = mini("stcal._self", src)
    for f, rule in (("good", None), ("swapped", "option-replaced"), ("dropped", "option-replaced"), ("unused", "option-without-effect")):
        en = Entry("self:" + f, f"from stcal._self import {f}\ndef drive(x, o):\n    return {f}(x, o.sigma, o.order)\n", ["x", "o"],
                   {"x": dict(kind="scalar"), "o": dict(kind="opaque"), "o.sigma": dict(kind="scalar"), "o.order": dict(kind="scalar")},
                   options=["o.sigma", "o.order"])
        r = Result("self"); analyse(en, "self", r, pj, {}, None, None)
        fired = {x.rule for x in r.findings.values()}
        rep.selftest(f"{rule or 'silence'} on {f}", (rule in fired) if rule else not fired)
