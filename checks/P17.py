"""P17: Python and the compiled ramp fitters agree on attributes, arguments, types, byte order and results."""
import re
from sa import entries, pyxfront
from sa.cmodel import CRun
from sa import cinterp as C
from sa.cfront import CUnit
from sa.project import Project
from sa.runner import run_units, run_entry, functions_of, Result
from sa.values import const, NONE, E, V

ENT = dict(entries.ENTRIES)
for _n in ("ramp:OLS_C", "ramp:OLS_C_opt"):      # the same with every optional input present
    _e = ENT[_n]
    _sp = {k: {a: b for a, b in v.items() if a != "optional"} if isinstance(v, dict) else v for k, v in _e.specs.items()}
    ENT[_n + ":full"] = entries.Entry(_n + ":full", _e.source, _e.roots, _sp, step=_e.step)
CONF = ("ramp:OLS_C", "ramp:OLS_C_opt", "ramp:OLS_C:full", "ramp:OLS_C_opt:full")
UNITS = ["c"] + [f"{n}|{c}" for n in CONF for c in (1, 3)] + [f"order|{n}|{c}|{o}" for n in CONF[2:] for c in (1, 3) for o in ("little", "big")] + ["cas22:1", "cas22:3"]

# what each attribute of the ramp object means: the input it has to come from
EX = "model.meta.exposure."
MEANS = {"data": "model.data", "groupdq": "model.groupdq", "orig_gdq": "model.groupdq", "pixeldq": "model.pixeldq", "zeroframe": "model.zeroframe",
         "average_dark_current": "model.average_dark_current", "frame_time": EX + "frame_time", "group_time": EX + "group_time",
         "groupgap": EX + "groupgap", "nframes": EX + "nframes", "drop_frames1": EX + "drop_frames1", "suppress_one_group_ramps": "o.suppress_one_group",
         "flags_do_not_use": "dqflags[DO_NOT_USE]", "flags_jump_det": "dqflags[JUMP_DET]", "flags_saturated": "dqflags[SATURATED]",
         "flags_persistence": "dqflags[PERSISTENCE]", "flags_no_gain_val": "dqflags[NO_GAIN_VALUE]", "flags_unreliable_slope": "dqflags[UNRELIABLE_SLOPE]",
         "flags_chargeloss": "dqflags[CHARGELOSS]"}
# usual names of the same quantities inside the compiled fitter (only a name that clearly belongs to another quantity is reported)
ALIAS = {"flags_do_not_use": {"dnu", "do_not_use"}, "flags_jump_det": {"jump", "jump_det"}, "flags_saturated": {"sat", "saturated"},
         "flags_persistence": {"pers", "persistence"}, "flags_no_gain_val": {"ngval", "no_gain_val", "no_gain"}, "flags_unreliable_slope": {"uslope", "unreliable_slope"},
         "flags_chargeloss": {"chargeloss"}, "frame_time": {"frame_time"}, "group_time": {"group_time"}, "groupgap": {"groupgap"}, "nframes": {"nframes"},
         "drop_frames1": {"dropframes", "drop_frames1", "drop_frames"}, "suppress_one_group_ramps": {"suppress1g", "suppress_one_group_ramps", "suppress_one_group"},
         "start_row": {"start_row"}, "num_rows": {"num_rows"}, "debug": {"debug"}, "data": {"data"}, "groupdq": {"groupdq"}, "orig_gdq": {"orig_gdq"},
         "pixeldq": {"pixeldq"}, "zeroframe": {"zframe", "zeroframe"}, "average_dark_current": {"dcurrent", "dark_current", "average_dark_current"},
         "arg:1": {"gain"}, "arg:2": {"rnoise", "readnoise"}}
OWNER = {a: k for k, s in ALIAS.items() for a in s}
# results: quantities a plane is computed from, and quantities it must not contain
NEEDS = {"slope": ("attr:data",), "var_poisson": ("arg:1", "attr:average_dark_current"), "var_rnoise": ("arg:2",), "err": ("arg:1", "arg:2", "attr:average_dark_current"),
         "dq": ("attr:pixeldq",), "yint": ("attr:data",), "pedestal": ("attr:data", "attr:nframes"), "crmag": ("attr:data",), "sigslope": ("arg:2",), "sigyint": ("arg:2",)}
NOT = {"var_poisson": ("arg:2",), "var_rnoise": ("attr:data", "attr:average_dark_current"), "crmag": ("arg:1", "arg:2"), "weights": ("attr:data", "attr:average_dark_current"),
       "sigslope": ("attr:data", "attr:average_dark_current"), "sigyint": ("attr:data", "attr:average_dark_current"), "dq": ("attr:data",),
       "slope": ("attr:average_dark_current",), "yint": ("attr:average_dark_current",)}
FIELD = {"var_poisson": {"var_p", "var_poisson"}, "var_rnoise": {"var_r", "var_rnoise"}, "err": {"var_e", "var_err", "err"}, "slope": {"slope"}, "dq": {"dq"},
         "sigslope": {"sigslope", "sig_slope"}, "yint": {"yint"}, "sigyint": {"sigyint", "sig_yint"}, "weights": {"weight", "weights"}, "pedestal": {"pedestal"}, "crmag": {"crmag"}}
FOWN = {a: k for k, s in FIELD.items() for a in s}
RANK = {0: ("Y", "X"), 1: ("I", "Y", "X")}
KEYS = {0: {"slope", "dq", "var_poisson", "var_rnoise", "err"}, 1: {"slope", "dq", "var_poisson", "var_rnoise", "err"},
        2: {"slope", "sigslope", "var_poisson", "var_rnoise", "yint", "sigyint", "pedestal", "weights", "crmag"}}
WHAT = {"arg:1": "the gain", "arg:2": "the read noise"}
CT = {"NPY_FLOAT": {"float"}, "NPY_FLOAT32": {"float"}, "NPY_DOUBLE": {"double"}, "NPY_FLOAT64": {"double"}, "NPY_UBYTE": {"uint8_t", "unsigned char", "npy_ubyte", "npy_uint8"},
      "NPY_UINT8": {"uint8_t", "unsigned char"}, "NPY_UINT32": {"uint32_t", "unsigned int", "npy_uint32"}, "NPY_UINT": {"uint32_t", "unsigned int"},
      "NPY_INT": {"int", "int32_t"}, "NPY_INT32": {"int", "int32_t"}}


def nm(root): return WHAT.get(root, root.split(":", 1)[-1])


def last(loc):
    x = [p for p in (loc or ()) if isinstance(p, str) and p not in ("[]", "h", "l", "g")]
    return x[-1] if x else None


_c = []


def crun():
    if not _c: _c.append(CRun())
    return _c[0]


def types_of(run):
    """array -> NPY type the code demands of it, from its comparisons of PyArray_TYPE"""
    out = {}
    for _, d in run.ev["compare"]:
        for a, b in ((d["a"], d["b"]), (d["b"], d["a"])):
            if isinstance(a.const, str) and a.const.startswith("NPY_") and b.src and b.src[0] == "type":
                for rt in b.src[1]: out.setdefault(rt, set()).add(a.const)
    return out


def noneok(run):
    out = set()
    for _, d in run.ev["compare"]:
        for a, b in ((d["a"], d["b"]), (d["b"], d["a"])):
            if b.const == "@Py_None":
                if a.src and a.src[0] == "in": out.add(a.src[1])
                out |= {l[1] for l, _ in a.ptr if l[0] == "arr" and isinstance(l[1], str)}
    return out


def c_side(r, run):
    r.functions |= {("src/stcal/ramp_fitting/src/slope_fitter.c", f) for f in run.funcs}
    ty = types_of(run)
    # fields of the same meaning
    for n, d in run.ev["store"]:
        v = d["value"]
        if v is None or not v.src or v.src[0] != "in": continue
        root = v.src[1]; a = root[5:] if root.startswith("attr:") else root
        f = last(d["loc"])
        if d["loc"][0] != "h" or f is None: continue
        own = OWNER.get(f)
        bad = own is not None and a in ALIAS and own != a
        r.oblige("value copied into the field of its meaning", f"{f} <- {a}", not bad)
        if bad: r.find("field-meaning", f"{f}<-{a}", d["where"], f"the value of {nm(root)} is stored in the field '{f}', which holds {nm(own)}", d["path"])
    # element types
    for n, d in run.ev["np_load"]:
        rt = d["arr"]
        want = ty.get(rt)
        if want is None:
            r.oblige("array element type checked before use", str(rt), False)
            r.find("type-unchecked", f"{nm(str(rt))}", d["where"], f"elements of {nm(str(rt))} are read as {d['ctype']} but its type is never checked", d["path"])
            continue
        ok = any(d["ctype"] in CT.get(t, {d["ctype"]}) for t in want)
        r.oblige("array element type checked before use", str(rt), True)
        r.oblige("element read with the checked type", f"{rt} {d['ctype']}", ok)
        if not ok: r.find("type-read", f"{nm(str(rt))}", d["where"], f"{nm(str(rt))} is required to be {'/'.join(sorted(want))} but its elements are read as {d['ctype']}", d["path"])
    for n, d in run.ev["np_store"]:
        info = run.ip.nparr.get(d["arr"]) or {}
        t = info.get("npy")
        if not isinstance(t, str) or d["ctype"] is None: continue
        ok = d["ctype"] in CT.get(t, {d["ctype"]})
        r.oblige("element written with the array's type", f"{d['where']}", ok)
        if not ok: r.find("type-write", f"{d['func']}:{d['ctype']}", d["where"], f"an array of {t} is written through a pointer to {d['ctype']}", d["path"])
    for n, d in run.ev["getptr"]:
        for rt in d["arrs"]:
            info = run.ip.nparr.get(rt) or {}
            ax = info.get("axes")
            if ax is None: continue
            ok = len(ax) == d["n"]
            r.oblige("array indexed with its number of axes", f"{rt} {d['where']}", ok)
            if not ok: r.find("rank", f"{nm(str(rt))}:{d['func']}", d["where"], f"an array with {len(ax)} axes is indexed with {d['n']}", d["path"])
    # results
    prods = run.products(); cont = run.contents()
    for key, (pos, items, where) in sorted(prods.items(), key=str):
        if pos is None: continue
        want = KEYS.get(pos, set())
        miss = want - set(items); extra = set(items) - want
        r.oblige("result dictionary has the keys its reader uses", f"{pos}", not miss)
        for k in sorted(miss): r.find("result-key", f"{pos}:{k}", where, f"element {pos} of the result has no '{k}'", ())
        for k, arrs in sorted(items.items()):
            for a in arrs:
                info = run.ip.nparr.get(a) or {}
                ax = info.get("axes")
                if pos in RANK and ax is not None:
                    ok = tuple(ax) == RANK[pos]
                    r.oblige("result plane is in its position", f"{pos}:{k}", ok)
                    if not ok: r.find("result-position", f"{pos}:{k}", where, f"'{k}' of element {pos} of the result has axes {ax}, its reader expects {RANK[pos]}", ())
                c = cont.get(a)
                if c is None or c[0] is None:
                    r.oblige("result plane is filled", f"{pos}:{k}", False)
                    r.find("result-empty", f"{pos}:{k}", where, f"nothing is ever stored in '{k}' of element {pos} of the result", ())
                    continue
                r.oblige("result plane is filled", f"{pos}:{k}", True)
                deps = set(c[0].deps) | ({"attr:" + x if not x.startswith("attr:") else x for x in (c[0].keep or ())})
                stores = c[2]
                w0, p0 = (stores[0][1], stores[0][3]) if stores else (where, ())
                for x in NEEDS.get(k, ()):
                    ok = x in deps
                    r.oblige("result computed from its quantities", f"{pos}:{k}:{x}", ok)
                    if not ok: r.find("result-lacks", f"{pos}:{k}:{nm(x)}", w0, f"'{k}' of element {pos} of the result does not depend on {nm(x)}", p0)
                for x in NOT.get(k, ()):
                    for v, w, ct, pth in stores:
                        if x in v.deps:
                            r.oblige("result computed from its quantities", f"{pos}:{k}:not {x}", False)
                            r.find("result-mixes", f"{pos}:{k}:{nm(x)}", w, f"'{k}' of element {pos} of the result depends on {nm(x)}", pth)
                            break
                    else: r.oblige("result computed from its quantities", f"{pos}:{k}:not {x}", True)
                for v, w, ct, pth in stores:
                    f = last(v.src) if v.src and v.src[0] == "h" else None
                    own = FOWN.get(f)
                    bad = own is not None and own != k
                    if f: r.oblige("result copied from the field of its meaning", f"{pos}:{k}", not bad)
                    if bad: r.find("result-field", f"{pos}:{k}", w, f"'{k}' of element {pos} of the result is filled from the field '{f}'", pth)
        if pos == 2 and "pedestal" in items:
            pass
    got = {p[0] for p in prods.values()}
    r.oblige("three results are handed back", "tuple", {0, 1, 2} <= got)


def pyside(spec, r, project, run):
    en, cores = spec.split("|")
    cores = int(cores)
    attrs = sorted({d["name"] for _, d in run.ev["getattr"] if d["name"]})
    ok_none = noneok(run)
    parsed = sorted(((d["i"], d["code"]) for _, d in run.ev["parsed"]))
    strs = {a.const for _, d in run.ev["strcmp"] for a in d["args"] if isinstance(a.const, str)}
    numeric = {}
    for _, d in run.ev["number"]: numeric.setdefault(d["root"], set()).add(d["fn"])
    reads = set()

    def setup(ip):
        ip.intercept = {"stcal.multiprocessing.compute_num_cores": lambda ip, node, bound, st: const(cores)}
        ip.worker_each = True
        full = en.endswith(":full")
        if full: ip.want_hasattr = True

        def read(ev):
            a = ev.name; reads.add(a)
            c = ip.content(ev.st, ev.value)
            where, path = ev.where(), ev.path()
            exists = not ev.value.is_bottom
            r.oblige("attribute the fitter reads exists", f"{en} {a}", exists)
            if not exists: r.find("attribute-missing", a, where, f"the ramp object has no attribute '{a}', which the compiled fitter reads", path)
            nn = any(x is None for t, x in ev.value.consts)
            allnone = ev.value.only_none()
            bad = nn and "attr:" + a not in ok_none and (allnone or full)
            r.oblige("None only where the fitter allows it", f"{en} {a}", not bad)
            if bad: r.find("attribute-none", a, where, f"attribute '{a}' may be None, which the compiled fitter does not allow for", path)
            want = MEANS.get(a)
            if want is None: return
            deps = {str(x) for x in c.deps}
            opt = not full and (want in ip.root_specs and ip.root_specs[want].get("optional") or a == "average_dark_current")
            ok = want in deps or opt and (nn or ev.value.consts or not deps)
            # an input read through a rewritten container keeps the container's name
            r.oblige("attribute comes from the input it names", f"{en} {a}", ok)
            if not ok: r.find("attribute-source", a, where, f"attribute '{a}' of the ramp object does not come from {want}", path)
            for b, w in MEANS.items():
                if w != want and w in deps and w.startswith(EX) and w not in (EX + "nframes",) and a in ("frame_time", "group_time", "groupgap", "nframes", "drop_frames1"):
                    r.oblige("attribute comes from the input it names", f"{en} {a} not {b}", False)
                    r.find("attribute-source", f"{a}:{b}", where, f"attribute '{a}' of the ramp object is computed from {w}", path)

        def call(ev):
            a = ev.args; where, path = ev.where(), ev.path()
            n = len(parsed)
            if ev.kw or len(a) != n:
                r.oblige("arguments match the fitter's parse format", en, False)
                r.find("argument-count", "call", where, f"the compiled fitter takes {n} positional arguments, {len(a)} are given", path); return
            r.oblige("arguments match the fitter's parse format", en, True)
            for i, code in parsed:
                v = a[i]; d = {str(x) for x in ip.content(ev.st, v).deps}
                if i in (1, 2):
                    want, other = ("gain_2d", "readnoise_2d") if i == 1 else ("readnoise_2d", "gain_2d")
                    ok = want in d and not (other in d and i == 1)
                    r.oblige("arguments in their positions", f"{en} {i}", ok)
                    if not ok: r.find("argument-position", f"{i}", where, f"argument {i} of the compiled fitter must be {nm('arg:%d' % i)}; it does not come from {want}", path)
                elif code == "s":
                    ks = {x for t, x in v.consts}
                    bad = bool(ks) and not v.unk and not all(isinstance(x, str) and x in strs for x in ks)
                    r.oblige("arguments in their positions", f"{en} {i}", not bad)
                    if bad: r.find("argument-value", f"{i}", where, f"the compiled fitter only accepts {', '.join(sorted(strs))} as argument {i}", path)
                elif code in "IiLlKkp":
                    bad = v.only_none() or any(o.kind in ("array", "dict", "list") for o in ip.objs(ev.st, v)) or any(t == "str" for t, _ in v.consts)
                    r.oblige("arguments in their positions", f"{en} {i}", not bad)
                    if bad: r.find("argument-value", f"{i}", where, f"argument {i} of the compiled fitter must be a number", path)
        def noattr(ev):
            if getattr(ev, "name", None) in attrs:
                r.oblige("attribute the fitter reads exists", f"{en} {ev.name}", False)
                r.find("attribute-missing", ev.name, ev.where(), f"the ramp object has no attribute '{ev.name}', which the compiled fitter reads", ev.path())
        ip.on("c_read", read); ip.on("c_call", call); ip.on("noattr", noattr)
    ip, res, st = run_entry(project, ENT[en], setup)
    r.functions |= functions_of(ip)
    # results: every returned plane is the result of that name and position
    tops = [o for o in ip.objs(st, res) if o.kind == "tuple" and o.get("items") is not None]
    for t in tops:
        for i, v in enumerate(t.get("items")[:3]):
            for o in ip.objs(st, v):
                if o.kind == "dict" and o.get("items"):
                    its = o.get("items").items()
                elif o.kind == "tuple" and o.get("items") is not None: its = enumerate(o.get("items"))
                else: continue
                for k, x in its:
                    tg = {q[5:] for q in ip.content(st, x).tags if q.startswith("cres:")}
                    if not tg: continue
                    pos = {q.split(".")[0] for q in tg}
                    name = ("image", "integ", "opt")[i]
                    bad = pos != {name} or (isinstance(k, str) and {q.split(".")[1] for q in tg} != {k})
                    r.oblige("result reported under its name", f"{en} {cores} {i}:{k}", not bad)
                    if bad: r.find("result-name", f"{i}:{k}", en, f"element {i} of the result reports {', '.join(sorted(tg))} of the compiled fitter as '{k}'", ())
    return reads


MULTI = {"model.data": "data", "model.pixeldq": "pixeldq", "model.average_dark_current": "average_dark_current", "model.zeroframe": "zeroframe",
         "gain_2d": "arg:1", "readnoise_2d": "arg:2"}


def order(spec, r, project, run):
    _, en, cores, so = spec.split("|")
    one = {rt[5:] for rt, ts in types_of(run).items() if rt.startswith("attr:") and ts & {"NPY_UBYTE", "NPY_UINT8", "NPY_BYTE", "NPY_BOOL"}}
    foreign = "ord:>" if so == "little" else "ord:<"

    def check(ip, st, v, name, ev):
        arrs = [o for o in ip.objs(st, v) if o.kind in ("array", "opaque")]
        if not arrs: return
        bad = [o for o in arrs if ip.obj_content(st, o).tags & {"ord:<", "ord:>", "ord:swapped"}]
        wrong = len(bad) == len(arrs)
        r.oblige("array reaches the fitter in native byte order", f"{en} {cores} {so} {name}", not wrong)
        if wrong: r.find("byte-order", name, ev.where(), f"{name} given in the other byte order reaches the compiled fitter without being converted (on a {so}-endian machine)", ev.path())

    def setup(ip):
        ip.sysorder = so; ip.worker_each = True; ip.want_hasattr = True
        ip.root_tags = {k: {foreign} for k in MULTI}
        ip.intercept = {"stcal.multiprocessing.compute_num_cores": lambda ip, node, bound, st: const(int(cores))}
        def read(ev):
            if ev.name in MULTI.values() and ev.name not in one: check(ip, ev.st, ev.value, ev.name, ev)
        def call(ev):
            for i in (1, 2):
                if i < len(ev.args): check(ip, ev.st, ev.args[i], nm(f"arg:{i}"), ev)
        ip.on("c_read", read); ip.on("c_call", call)
    ip, res, st = run_entry(project, ENT[en], setup)
    r.functions |= functions_of(ip)


# ---------------------------------------------------------------- the Cython fitter
CAS = {"resultants": "resultants", "dq": "dq", "read_noise": "read_noise", "read_time": "read_time", "read_pattern": "read_pattern", "use_jump": "o.use_jump",
       "intercept": "o.threshold_intercept", "constant": "o.threshold_constant"}
DT = {"float": "float32", "int": "int32", "double": "float64"}


def cas22(spec, r, project):
    ax = ("G", "Y", "X") if spec.endswith("3") else ("G",)
    params, fields = cas_signature(project)
    e = ENT["cas22:fit"]
    sp = dict(e.specs)
    sp["resultants"] = dict(sp["resultants"], axes=ax); sp["dq"] = dict(sp["dq"], axes=ax)
    sp["read_noise"] = dict(sp["read_noise"], axes=ax[1:]) if len(ax) > 1 else {k: v for k, v in sp["read_noise"].items() if k not in ("axes", "kind")} | {"kind": "scalar"}
    mode = "a single ramp" if len(ax) == 1 else "an image"

    def setup(ip):
        ip.exact_shapes = True

        def unitless(ip, node, args, kw, st):
            try: return NONE if args[1].single_const() == "unit" else None
            except (KeyError, IndexError): return None

        def fit(ip, node, args, kw, st):
            w = f"{project_rel(ip)}:{node.lineno}"
            names = [p for p, _ in params]
            bound = dict(zip(names, args)); bound.update(kw)
            if len(args) > len(names) or set(kw) - set(names):
                r.oblige("arguments match the Cython signature", "fit_ramps", False)
                r.find("cas-argument", "count", w, "fit_ramps is called with arguments it does not have", ()); return None
            for p, t in params:
                v = bound.get(p)
                if v is None: continue
                want = CAS.get(p)
                d = {str(x) for x in ip.content(st, v).deps}
                if want:
                    ok = want in d or not d
                    other = {w2 for q, w2 in CAS.items() if q != p and w2 in d and w2 not in ("read_pattern", "resultants")}
                    ok = ok and not (other and (want not in d or p in ("intercept", "constant", "read_time")))
                    r.oblige("arguments in their positions", f"fit_ramps {p}", ok)
                    if not ok: r.find("cas-argument", p, w, f"argument {p} of the Cython fitter does not come from {want}", ())
                m = re.match(r"(float|int|double)\[([:,\s]*)\]", t or "") or re.match(r"cnp\.ndarray\[(int|float|double),\s*ndim=(\d)", t or "")
                if m:
                    nd = m.group(2).count(":") if ":" in m.group(2) else int(m.group(2)) if m.group(2).strip().isdigit() else 1
                    for o in ip.objs(st, v):
                        if o.kind != "array": continue
                        dt = o.get("dtype")
                        bad = isinstance(dt, str) and dt != DT[m.group(1)]
                        r.oblige("array has the element type of the Cython signature", f"fit_ramps {p}", not bad)
                        if bad: r.find("cas-type", p, w, f"argument {p} of the Cython fitter must have {DT[m.group(1)]} elements, it has {dt}", ())
                        a2 = o.get("axes")
                        bad = a2 is not None and len(a2) != nd
                        r.oblige("array has the rank of the Cython signature", f"fit_ramps {p} ({mode})", not bad)
                        if bad: r.find("cas-rank", f"{p}:{mode}", w, f"argument {p} of the Cython fitter must have {nd} axes, it has {len(a2)} for {mode}", ())
            at = {}
            for n, a in (("parameters", ("N", 2)), ("variances", ("N", 3)), ("dq", ("G", "N"))):
                at[n] = ip.new_array(st, node, V(unk=True, tags=frozenset(["cas:" + n])), a, tag=":cas" + n)
            return ip.alloc(st, node, "inst", tag=":casout", attrs=at, root=None)
        ip.ext_hook = {"builtins.getattr": unitless, "stcal.ramp_fitting.ols_cas22._fit.fit_ramps": fit}

        def out(ev):
            if not ev.name.endswith(".RampFitOutputs"): return
            bound = dict(zip(fields, ev.args)); bound.update(ev.kw)
            for n in ("parameters", "variances", "dq"):
                v = bound.get(n)
                if v is None: continue
                tg = {t[4:] for t in ip.content(ev.st, v).tags if t.startswith("cas:")}
                ok = not tg or tg == {n}
                r.oblige("result reported under its name", f"cas22 {n}", ok)
                if not ok: r.find("cas-result", n, ev.where(), f"'{n}' of the result is filled with {', '.join(sorted(tg))} of the Cython fitter", ev.path())
                want = len(ax) - 1 + (1 if n != "dq" else 1)
                ranks = {len(o.get("axes")) if o.get("axes") is not None else None for o in ip.objs(ev.st, v)} or ({0} if tg else {None})
                bad = None not in ranks and want not in ranks
                r.oblige("result keeps its component axis", f"cas22 {n} ({mode})", not bad)
                if bad: r.find("cas-result-rank", f"{n}:{mode}", ev.where(), f"'{n}' of the result for {mode} has {min(ranks)} axes instead of {want}: components of the result are lost", ev.path())
        ip.on("extcall", out)
    ip, res, st = run_entry(project, entries.Entry(spec, e.source, e.roots, sp), setup)
    r.functions |= functions_of(ip)


def project_rel(ip): return ip.stack[-1].mod.rel if getattr(ip, "stack", None) and hasattr(ip.stack[-1], "mod") else "src/stcal/ramp_fitting/ols_cas22_fit.py"


def cas_signature(project):
    mod = next((m for k, m in pyxfront.load(project).items() if k.endswith("_fit")), None)
    text = open(mod.path).read()
    m = re.search(r"def\s+fit_ramps\s*\((.*?)\)\s*:", text, re.S)
    params = []
    for a in pyxfront.split(re.sub(r"#.*", "", m.group(1)).replace("\n", " ")):
        n, t = pyxfront.argname(a)
        params.append((n.split("=")[0].strip(), t))
    c = re.search(r"class\s+RampFitOutputs\s*\(.*?\)\s*:(.*?)(?=^@|^def|^cp?def|\Z)", text, re.S | re.M)
    body = re.sub(r'""".*?"""', "", c.group(1), flags=re.S)
    return params, re.findall(r"^\s+(\w+)\s*:", body, re.M)


def unit(name, r, project):
    if name == "c": c_side(r, crun())
    elif name.startswith("order"): order(name, r, project, crun())
    elif name.startswith("cas22"): cas22(name, r, project)
    else: pyside(name, r, project, crun())


C_EXAMPLE = r"""
#include <Python.h>
#include <numpy/arrayobject.h>
#include <stdint.h>
#include <stdlib.h>
struct rd { PyArrayObject *data; PyArrayObject *groupdq; PyArrayObject *gain; PyArrayObject *rnoise; int jump; int sat; };
static int num(PyObject *o, const char *a) { PyObject *x = PyObject_GetAttrString(o, a); int v = (int) PyLong_AsLong(x); Py_XDECREF(x); return v; }
static PyObject *entry(PyObject *self, PyObject *args) {
    struct rd *r = calloc(1, sizeof(*r));
    PyObject *o = NULL;
    float v; uint8_t q;
    if (!PyArg_ParseTuple(args, "OOO", &o, &(r->gain), &(r->rnoise))) return NULL;
    r->data = (PyArrayObject *) PyObject_GetAttrString(o, "data");
    r->groupdq = (PyArrayObject *) PyObject_GetAttrString(o, "groupdq");
    if (NPY_DOUBLE != PyArray_TYPE(r->data)) return NULL;
    r->jump = num(o, "flags_saturated");
    r->sat = num(o, "flags_saturated");
    v = *((float *) PyArray_GETPTR3(r->data, 0, 0, 0));
    q = *((uint8_t *) PyArray_GETPTR4(r->groupdq, 0, 0, 0, 0));
    return PyLong_FromLong((long) v + q + r->jump);
}
static PyMethodDef methods[] = { {"entry", entry, METH_VARARGS, "x"}, {NULL, NULL, 0, NULL} };
"""


def run(rep):
    p = Project()
    crun()
    rep.rules.append("the C source is interpreted from its method-table entry: attributes and arguments read, element types demanded and used, result dictionaries with the "
                     "fields and quantities they are filled from; each Python configuration (serial and parallel) is interpreted up to the call and every attribute, argument "
                     "and returned plane compared with what the C side does; arrays given in foreign byte order are followed to the call for both machine byte orders; the same "
                     "for the signature and results of the Cython fitter")
    run_units(rep, UNITS, unit, p)
    for c, n in (("attribute the fitter reads exists", 80), ("attribute comes from the input it names", 70), ("arguments in their positions", 16), ("result computed from its quantities", 30),
                 ("array reaches the fitter in native byte order", 30), ("element read with the checked type", 5), ("element written with the array's type", 15), ("result copied from the field of its meaning", 10),
                 ("result keeps its component axis", 4), ("result reported under its name", 20)): rep.floor(c, n)
    r = Result("selftest")
    try: c_side(r, CRun(CUnit(text=C_EXAMPLE)))
    except Exception as e: rep.broken.append(f"selftest: {type(e).__name__}: {e}") if hasattr(rep, "broken") else None
    got = {f"{f.rule}|{f.key}" for f in r.findings.values()}
    rep.selftest("swapped flag, unchecked type, wrong element type and wrong rank reported in the compiled code",
                 {"field-meaning|jump<-flags_saturated", "type-unchecked|groupdq", "type-read|data"} <= got and any(g.startswith("rank|data") for g in got) and not any("sat<-" in g for g in got))
    rep.assumptions += ["attribute meanings, result keys and field names are those of the class RampData and the documentation of the fitter",
                        "an array dtype not known statically is judged by the C side's own type checks"]
