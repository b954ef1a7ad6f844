"""P18: every plane of every image goes into the resampled product once, through one mapping and weighting; exposure totals count each
group once; nothing is added after finalisation."""
from sa import entries
from sa.interp import Interp
from sa.project import Project, AnalysisBroken
from sa.runner import run_units, functions_of, Result
from sa.values import V, Obj, Lin, const
from sa import pixel
from checks.common import mini

DRIZZLE = "drizzle.resample.Drizzle"
STUB = '''
from sa_stub import blend

class Drz:
    def __init__(self, kernel="square", fillval=None, out_shape=None, out_img=None, out_wht=None, out_ctx=None, out_dq=None, exptime=0.0,
                 begin_ctx_id=0, max_ctx_id=None, disable_ctx=False):
        self.kernel = kernel
        self.out_img = out_img
        self.out_wht = out_wht
        self.out_ctx = None if disable_ctx else blend(out_ctx)
        self.out_dq = out_dq
    def add_image(self, data, exptime, pixmap, scale=None, pixel_scale_ratio=None, iscale=1.0, weight_map=None, dq=None, wht_scale=1.0, pixfrac=1.0, in_units="cps",
                  xmin=None, xmax=None, ymin=None, ymax=None):
        self.out_img = blend(self.out_img, data)
        self.out_wht = blend(self.out_wht, weight_map)
        if dq is not None:
            self.out_dq = blend(self.out_dq, dq)
'''
GEO = ("pixmap", "iscale", "weight_map", "wht_scale", "pixfrac", "pixel_scale_ratio", "in_units", "exptime", "xmin", "xmax", "ymin", "ymax")
PLANES = ("data", "err", "var_rnoise", "var_poisson", "var_flat")
VARS = PLANES[2:]
MAKE = '''
from stcal.resample import Resample
''' + STUB + '''
def make(o):
    return Resample(output_wcs=o.output_wcs, n_input_models=o.n_input_models, pixfrac=o.pixfrac, kernel=o.kernel,
                    fillval=o.fillval, weight_type=o.weight_type, good_bits=o.good_bits, enable_ctx=o.enable_ctx,
                    enable_var=o.enable_var, compute_err=o.compute_err, propagate_dq=o.propagate_dq,
                    pixmap_stepsize=o.pixmap_stepsize, pixmap_order=o.pixmap_order)

def drive(model1, model2, model3, o):
    r = make(o)
'''
ADD = "".join(f"    r.add_model(model{i})\n" for i in (1, 2, 3))
SRC = {"three": MAKE + ADD + "    r.finalize()\n    return r.output_model\n",
       "add-after": MAKE + "    r.add_model(model1)\n    r.finalize()\n    mark = 1\n    r.add_model(model2)\n    return r.output_model\n",
       "again": MAKE + "    r.add_model(model1)\n    r.finalize()\n    mark = 1\n    r.finalize()\n    return r.output_model\n",
       "reset": MAKE + "    r.add_model(model1)\n    r.finalize()\n    r.reset_arrays(o.n_input_models)\n    r.add_model(model2)\n    r.finalize()\n    return r.output_model\n"}
BASE = dict(weight_type="exptime", enable_var=True, compute_err="driz_err", propagate_dq=True, enable_ctx=True)
CONF = {"all": {}, "ivm": dict(weight_type="ivm"), "from_var": dict(compute_err="from_var"), "no_var": dict(enable_var=False), "plain": dict(enable_var=False, compute_err=None, propagate_dq=False, enable_ctx=False),
        "ivm_plain": dict(weight_type="ivm", enable_var=False, compute_err=None), "no_ctx": dict(enable_ctx=False, propagate_dq=False), "subtracted": dict(_subtracted=True), "apart": dict(_apart=True)}


def specs(conf, missing=()):
    s = dict(entries.ENTRIES["resample:stack"].specs)
    c = dict(BASE); c.update(conf)
    for k, v in c.items():
        if not k.startswith("_"): s["o." + k] = dict(kind="const", value=v, dep=False) if v is not None else dict(kind="none")
    s = {k: v for k, v in s.items() if not k.startswith("model")}
    for m in ("model1", "model2", "model3"):
        for k, v in entries.ENTRIES["resample:stack"].specs.items():
            if k.startswith("model1"):
                v = {a: b for a, b in v.items() if a != "optional"}
                s[m + k[6:]] = v
        s[m + "[group_id]"] = dict(kind="const", value="g2" if m == ("model2" if conf.get("_apart") else "model3") else "g1", dep=False)
        s[m + "[subtracted]"] = dict(kind="const", value=bool(conf.get("_subtracted")), dep=False)
    for k in missing: s[k] = dict(kind="none")
    return s


def models_in(v, deps=None):
    return {d.split("[")[0] for d in (v.deps if deps is None else deps) if d.startswith("model")}


def planes_in(deps):
    return {(d.split("[")[0], d.split("[")[1].rstrip("]")) for d in deps if d.startswith("model") and d.split("[")[-1].rstrip("]") in PLANES}


class Walk:
    def __init__(self, project, src, sp, name):
        self.calls = []         # (plane, model, event, bound)
        self.mixed = []
        self.after = []         # effects after the mark
        self.marked = False
        self.raises = []
        ip = self.ip = Interp(project)
        def hook(ip, node, args, kw, st):
            return ip.call(node, ip.mods[self.mod]["Drz"], args, kw, st)
        ip.ext_hook = {DRIZZLE: hook}
        ip.intercept = {"stcal.resample.resample.Resample._get_intensity_scale": self.iscale}
        self.mod = "driver_" + name
        ip.on("enter", self.enter)
        ip.on("raise", lambda ev: self.raises.append(ev) if self.marked else None)
        ip.on("assign", self.assign)
        for k in ("store", "setattr", "store_item", "mutate"): ip.on(k, self.effect)
        self.res, self.st, self.dead = ip.run_driver(name, src, ["model1", "model2", "model3", "o"], sp)

    def iscale(self, ip, node, bound, st):
        m = bound.get("model")
        ds = sorted(models_in(m) | {d for o in ip.objs(st, m) for d in [o.get("root")] if d and d.startswith("model")}) if m is not None else []
        if len(ds) != 1: return None
        return V(unk=True, deps=frozenset([ds[0] + "[scale]"]), sym=Lin.sym("iscale:" + ds[0]))

    def assign(self, ev):
        if ev.d.get("name") == "mark" and ev.qual == "drive": self.marked = True

    def effect(self, ev):
        if self.marked and ev.qual != "drive": self.after.append(ev)

    def enter(self, ev):
        q = ev.func.get("qual")
        if q == "drive" and ev.func.get("module") == self.mod:
            ev.st.heap["cnt"] = Obj("cnt", "opaque", attrs={f"{m}.{p}": const(0) for m in ("model1", "model2", "model3") for p in PLANES}, root=None, content=V())
        if q == "Drz.add_image" and ev.func.get("module") == self.mod:
            if self.marked: self.after.append(ev)
            v = ev.bound.get("data")
            ps = planes_in(self.ip.content(ev.st, v).deps | v.deps)
            if len(ps) != 1: self.mixed.append((ev, ps)); return
            (m, p), = ps
            self.calls.append((p, m, ev, dict(ev.bound)))
            o = ev.st.heap.get("cnt")
            if o is None: return
            at = dict(o.get("attrs")); k = f"{m}.{p}"
            at[k] = V(consts=frozenset(("int", min(c + 1, 3)) for t, c in at[k].consts))
            ev.st.heap["cnt"] = o.w(attrs=at)

    def count(self, m, p):
        o = self.st.heap.get("cnt") if self.st is not None else None
        return {c for t, c in o.get("attrs")[f"{m}.{p}"].consts} if o is not None else set()

    def out(self, key):
        for o in self.ip.objs(self.st, self.res):
            if o.kind == "dict" and o.get("items") is not None: return (o.get("items") or {}).get(key)
        return None


def same(a, b):
    if a is None or b is None: return a is b
    if a.sym is not None and b.sym is not None: return a.sym == b.sym
    if a.refs and a.refs == b.refs: return True
    if (a.sym is None) != (b.sym is None): return False
    if bool(a.consts) != bool(b.consts) or (a.consts and a.consts != b.consts): return False
    return a.deps == b.deps


def three(cname, r, project, missing=(), src=None):
    conf = dict(BASE); conf.update(CONF[cname])
    w = Walk(project, src or SRC["three"], specs(CONF[cname], missing), "resample_" + cname.replace("_", ""))
    r.functions |= functions_of(w.ip)
    if w.dead or w.st is None: raise AnalysisBroken(f"resampling of three images ({cname}) never finishes")
    for ev, ps in w.mixed:
        r.find("planes-mixed", f"{cname}:{sorted(p for m, p in ps)}", ev.where(), f"the image handed to drizzle depends on {sorted('%s[%s]' % x for x in ps) or 'no input plane'}", ev.path())
    for m in ("model1", "model2", "model3"):
        ref = None
        for p in PLANES:
            want = p == "data" or (p == "err" and conf["compute_err"] == "driz_err") or (p in VARS and conf["enable_var"])
            gone = f"{m}[{p}]" in missing
            n = w.count(m, p)
            ok = n == {0} if (not want or gone) else n == {1} if p in ("data", "err") else (1 in n and max(n) == 1)
            if not want and n <= {0, 1}: ok = True
            r.oblige("plane contributes once", f"{cname} {m} {p}", ok)
            if not ok:
                r.find("plane-count", f"{p}", next((e.where() for q, mm, e, b in w.calls if q == p and mm == m), cname),
                       f"configuration {cname}: plane '{p}' of an image is added {'/'.join(map(str, sorted(n)))} times")
        for p, mm, ev, b in w.calls:
            if mm != m: continue
            if ref is None: ref = (p, ev, b); continue
            for g in GEO:
                ok = same(ref[2].get(g), b.get(g))
                r.oblige("same mapping and weight for every plane", f"{cname} {m} {p} {g}", ok)
                if not ok:
                    r.find("geometry-differs", f"{p}:{g}", ev.where(), f"plane '{p}' is resampled with another '{g}' than plane '{ref[0]}'", ev.path())
        for p, mm, ev, b in w.calls:
            if mm != m: continue
            for g in GEO:
                if g == "pixel_scale_ratio" or b.get(g) is None: continue
                v = b[g]
                ds = models_in(None, v.deps | w.ip.content(ev.st, v).deps) - {m}
                r.oblige("mapping and weight belong to the image", f"{cname} {m} {p} {g}", not ds)
                if ds: r.find("geometry-of-another-image", f"{p}:{g}", ev.where(), f"'{g}' used for one image depends on another image ({sorted(ds)})", ev.path())
            d = b["data"]
            if p == "data":
                sub = f"{m}[level]" in (w.ip.content(ev.st, d).deps | d.deps)
                want = not conf.get("_subtracted")
                r.oblige("sky level removed once", f"{cname} {m}", sub == want)
                if sub != want:
                    r.find("sky-level", "data", ev.where(), "the sky level is " + ("subtracted from an image it has been subtracted from already" if sub else "not subtracted from the image"), ev.path())
    # the totals
    def total(key, want, what, also=()):
        v = w.out(key)
        ok = v is not None and v.sym is not None and v.sym == want
        if v is not None and v.sym is None:     # no polynomial: the inputs it depends on must be right
            must = {s for s in want.symbols() if s.startswith("model")}
            ok = must <= {d for d in v.deps if "[" in d and "[group_id]" not in d and d.startswith("model")} <= must | set(also)
        r.oblige("exposure total", f"{cname} {key}", ok)
        if not ok:
            r.find("exposure-total", key, f"configuration {cname}", f"{what} of two groups (three images) is {poly(v)}, expected {text(want)}")
    other = "model2" if conf.get("_apart") else "model3"     # the image of the second group
    g = lambda k: Lin.sym(f"model1[{k}]") + Lin.sym(f"{other}[{k}]")
    total("exposure_time", g("exposure_time"), "total exposure time")
    total("duration", g("duration"), "total duration")
    total("measurement_time", g("measurement_time"), "total measurement time", ["model1[exposure_time]", other + "[exposure_time]"])
    v = w.out("pointings")
    ok = v is not None and {c for t, c in v.consts} == {2}
    r.oblige("exposure total", f"{cname} pointings", ok)
    if not ok: r.find("exposure-total", "pointings", f"configuration {cname}", f"two groups are counted as {sorted(str(c) for t, c in v.consts) if v is not None else None} pointings")
    for k in ("start_time", "end_time"):
        v = w.out(k)
        ds = {d for d in (v.deps if v is not None else ())}
        ok = {f"model1[{k}]", f"{other}[{k}]"} <= ds
        r.oblige("exposure total", f"{cname} {k}", ok)
        if not ok: r.find("exposure-total", k, f"configuration {cname}", f"'{k}' of the product does not take every group into account")
    # the planes of the product
    for key, need, never in product(conf):
        v = w.out(key)
        ds = w.ip.content(w.st, v).deps | v.deps if v is not None else frozenset()
        got = {p for m, p in planes_in(ds)}
        lack = {f"model{i}[{p}]" for i in (1, 2, 3) for p in need} - set(ds) - set(missing)
        extra = got - set(need) - {"data"}      # the shape of the data decides the scale
        ok = not lack and not (extra and never)
        r.oblige("product plane", f"{cname} {key}", ok)
        if lack: r.find("product-incomplete", key, f"configuration {cname}", f"plane '{key}' of the product lacks {sorted(lack)}")
        elif not ok: r.find("product-mixed", key, f"configuration {cname}", f"plane '{key}' of the product depends on {sorted(extra)}")


def product(conf):
    """(output key, input planes it is made of, whether any other plane is wrong)"""
    pure = conf["weight_type"] == "exptime"
    yield "data", ("data",), True
    if conf["compute_err"] == "driz_err": yield "err", ("err",), True
    if conf["compute_err"] == "from_var" and conf["enable_var"]: yield "err", VARS, True
    if conf["enable_var"]:
        for v in VARS: yield v, (v,), pure


ALG = '''
class Drz:
    def __init__(self, kernel="square", fillval=None, out_shape=None, out_img=None, out_wht=None, out_ctx=None, out_dq=None, exptime=0.0,
                 begin_ctx_id=0, max_ctx_id=None, disable_ctx=False):
        self.out_img = out_img
        self.out_wht = out_wht
        self.out_ctx = None
        self.out_dq = out_dq
    def add_image(self, data, exptime, pixmap, scale=None, pixel_scale_ratio=None, iscale=1.0, weight_map=None, dq=None, wht_scale=1.0, pixfrac=1.0, in_units="cps",
                  xmin=None, xmax=None, ymin=None, ymax=None):
        w = wht_scale if weight_map is None else weight_map * wht_scale
        d = data * iscale
        if in_units != "cps":
            d = d / exptime
        if self.out_img is None:
            self.out_img = d
            self.out_wht = w
        else:
            total = self.out_wht + w
            self.out_img = (self.out_img * self.out_wht + d * w) / total
            self.out_wht = total
'''
VCONF = {"imaging": ({}, True, True), "spectral": ({}, False, True), "noratio": ({}, True, False), "ivm": (dict(weight_type="ivm"), True, True),
         "from_var": (dict(compute_err="from_var"), True, True), "subtracted": (dict(_subtracted=True), True, True),
         "missing": (dict(_missing="model2[var_flat]"), True, True), "missing_poisson": (dict(_missing="model3[var_poisson]"), False, True),
         "from_var_off": (dict(compute_err="from_var", enable_var=False), True, True),
         "ivm_missing": (dict(weight_type="ivm", _missing="model2[var_rnoise]"), True, True)}


class Values(Walk):
    """the products of one ordinary pixel as exact expressions of the inputs"""
    def __init__(self, project, cname, src=None):
        conf, self.imaging, self.ratio = VCONF[cname]
        self.calls, self.mixed, self.after, self.raises, self.marked = [], [], [], [], False
        name = "resample_value_" + cname
        self.mod = "driver_" + name
        ip = self.ip = Interp(project)
        ip.pixel = True
        ip.ext_hook = {DRIZZLE: lambda ip, node, args, kw, st: ip.call(node, ip.mods[self.mod]["Drz"], args, kw, st),
                       "astropy.nddata.bitmask.bitfield_to_boolean_mask": self.good, "astropy.nddata.bitfield_to_boolean_mask": self.good}
        b = "stcal.resample."
        ip.intercept = {b + "resample.Resample._get_intensity_scale": self.iscale,
                        b + "resample.Resample._compute_pixel_scale_ratio": lambda ip, node, bound, st: const(None),
                        b + "resample.Resample.pixel_scale_ratio": lambda ip, node, bound, st: V(unk=True, sym=Lin.sym("ratio")) if self.ratio else const(None),
                        }
        for m in ("resample", "utils"):
            ip.intercept[b + m + ".is_imaging_wcs"] = lambda ip, node, bound, st: const(self.imaging)
            ip.intercept[b + m + ".get_tmeasure"] = self.tmeasure
        self.res, self.st, self.dead = ip.run_driver(name, src or SRC["three"].replace(STUB, ALG), ["model1", "model2", "model3", "o"], self.specs(conf))

    def specs(self, conf):
        s = specs(conf, [conf["_missing"]] if "_missing" in conf else ())
        return {k: {a: b for a, b in v.items() if a != "optional"} for k, v in s.items()}

    def good(self, ip, node, args, kw, st):
        return ip.new_array(st, node, const(1), None, tag=":good")

    def tmeasure(self, ip, node, bound, st):
        m = bound.get("model")
        ds = {o.get("root") for o in ip.objs(st, m) if o.get("root")} if m is not None else set()
        if len(ds) != 1: return None
        d, = ds
        return ip.alloc(st, node, "tuple", tag=":t", items=[V(unk=True, deps=frozenset([d + "[measurement_time]"]), sym=Lin.sym("t:" + d)), const(True)])


def values(cname, r, project, src=None):
    w = Values(project, cname, src)
    r.functions |= functions_of(w.ip)
    if w.dead or w.st is None: raise AnalysisBroken(f"resampling of three images ({cname}) never finishes")
    conf = dict(BASE); conf.update(VCONF[cname][0])
    S = Lin.sym
    ms = ("model1", "model2", "model3")
    one = Lin.const(1)
    isc = {m: S("iscale:" + m) for m in ms}
    wt = {m: S("t:" + m) if conf["weight_type"] == "exptime" else pixel.div(one, S(m + "[var_rnoise]")) for m in ms}
    vw = {m: wt[m] if conf["weight_type"] == "exptime" else pixel.div(one, S(m + "[var_rnoise]") * isc[m] * isc[m]) for m in ms}
    if conf["weight_type"] == "ivm":
        for m in ms:
            if conf.get("_missing") == m + "[var_rnoise]": wt[m] = vw[m] = one      # no read noise variance: weighted by unity
    ratio = S("ratio") if w.ratio else one
    vscale = pixel.div(one, ratio * ratio) if w.imaging else ratio
    escale = pixel.div(one, ratio) if w.imaging else pixel.sqrt(ratio)
    def tot(f, plane=""):
        t = Lin.const(0)
        for m in ms:
            if f"{m}[{plane}]" != conf.get("_missing"): t = t + f(m)
        return t
    sky = lambda m: S(m + "[data]") if conf.get("_subtracted") else S(m + "[data]") - S(m + "[level]")
    mean = lambda f: pixel.div(tot(lambda m: wt[m] * isc[m] * f(m)), tot(lambda m: wt[m]))
    var = lambda p: pixel.div(tot(lambda m: S(f"{m}[{p}]") * isc[m] * isc[m] * vw[m] * vw[m], p) * vscale, tot(lambda m: vw[m], p) * tot(lambda m: vw[m], p))
    want = {"data": mean(sky), "wht": tot(lambda m: wt[m])}
    if conf["enable_var"]:
        for p in VARS: want[p] = var(p)
    if conf["compute_err"] == "driz_err": want["err"] = mean(lambda m: S(m + "[err]")) * escale
    else: want["err"] = pixel.sqrt(var(VARS[0]) + var(VARS[1]) + var(VARS[2]))
    for k, e in want.items():
        v = w.out(k)
        if v is not None and v.only_none():
            r.oblige("plane made when asked for", f"{cname} {k}", False)
            r.find("plane-missing", k, f"configuration {cname}", f"'{k}' is asked for but the product has none")
            continue
        r.oblige("plane made when asked for", f"{cname} {k}")
        p = pixel.lin(w.ip.content(w.st, v)) if v is not None else None
        eq = pixel.equal(p, e)
        r.oblige("value of an ordinary pixel" if eq is not None else "value of an ordinary pixel (not decided)", f"{cname} {k}", eq is not False)
        if eq is False:
            r.find("pixel-value", k, f"configuration {cname}", f"'{k}' of a pixel covered by three valid images is not the accumulated total: {text(p)[:300]}")


def poly(v):
    if v is None: return "missing"
    if v.sym is not None: return text(v.sym)
    return "a value depending on " + str(sorted(d for d in v.deps if d.startswith("model")))


def text(p): return " + ".join(sorted(("" if c == 1 else f"{c}*") + "*".join(m) if m else str(c) for m, c in p.t)) or "0"


def closed(cname, r, project, src=None):
    w = Walk(project, src or SRC["add-after"], specs(CONF[cname]), "resample_after" + cname.replace("_", ""))
    r.functions |= functions_of(w.ip)
    ok = w.dead and w.marked
    r.oblige("refused after finalisation", cname, ok)
    if not ok: r.find("add-after-finalize", "accepted", f"configuration {cname}", "an image is accepted after the product has been finalised")
    for ev in w.after:
        if not ok: break
        r.oblige("no effect before the refusal", f"{cname} {ev.where()}", False)
        r.find("add-after-finalize", f"effect:{ev.kind}", ev.where(), "an image added after finalisation changes the product before it is refused", ev.path())
    for ev in w.raises:
        n = w.ip.exc_name(ev.st, ev.value)
        r.oblige("refused after finalisation", f"{cname} {n}", n in ("RuntimeError", "?"))
        if ok and n not in ("RuntimeError", "?"): r.find("add-after-finalize", "error", ev.where(), f"adding after finalisation is refused with {n} instead of RuntimeError", ev.path())
    w = Walk(project, SRC["again"] if src is None else src, specs(CONF[cname]), "resample_again" + cname.replace("_", ""))
    if src is None:
        bad = w.dead or w.after
        r.oblige("finalising twice", cname, not bad)
        if bad: r.find("finalize-twice", "effect", w.after[0].where() if w.after else cname, "finalising a finalised product changes it or fails")


def reset(cname, r, project, src=None):
    conf = dict(BASE); conf.update(CONF[cname])
    w = Walk(project, src or SRC["reset"], specs(CONF[cname]), "resample_reset" + cname.replace("_", ""))
    r.functions |= functions_of(w.ip)
    if w.dead: 
        r.find("reset", "dead", f"configuration {cname}", "no image can be added after reset_arrays"); return
    skip = ("pixel_scale_ratio",)
    for key in ("data", "wht", "con", "dq", "err", "exposure_time", "duration", "measurement_time", "start_time", "end_time", "pointings") + VARS:
        v = w.out(key)
        if v is None: continue
        d = w.ip.content(w.st, v).deps | v.deps
        own = {"err": ("err",) if conf["compute_err"] == "driz_err" else VARS}.get(key, (key,))
        left = sorted(x for x in d if x.startswith("model1[") and x.split("[")[1].rstrip("]") in own)
        r.oblige("new product after a reset", f"{cname} {key}", not left)
        if key in ("exposure_time", "duration", "measurement_time", "start_time", "end_time", "data") + (("err",) if own == ("err",) else ()):
            lost = f"model2[{own[0]}]" not in d
            r.oblige("new product after a reset", f"{cname} {key} of the new image", not lost)
            if lost: r.find("lost-after-reset", key, f"configuration {cname}", f"'{key}' of the product begun after a reset does not hold the image added to it")
        if left: r.find("left-after-reset", key, f"configuration {cname}", f"'{key}' of the product begun after a reset still depends on {left}")
    v = w.out("pointings")
    if v is not None and {c for t, c in v.consts} != {1}:
        r.find("left-after-reset", "pointings", f"configuration {cname}", f"the product begun after a reset counts {sorted(str(c) for t, c in v.consts)} pointings for one image")


def unit(u, r, project):
    k, c = u.split(" ", 1)
    if k == "three": three(c, r, project)
    elif k == "missing": three(c, r, project, missing=("model2[var_flat]",))
    elif k == "values": values(c, r, project)
    elif k == "closed": closed(c, r, project)
    else: reset(c, r, project)


def selftests(rep, project):
    twice = SRC["three"].replace("    r.add_model(model3)\n", "    r.add_model(model2)\n    r.add_model(model3)\n")
    r = Result("selftest"); three("all", r, project, src=twice)
    rep.drivertest("an image added twice", any("plane-count" in f for f in map(str, r.findings)))
    r = Result("selftest"); values("imaging", r, project, src=twice.replace(STUB, ALG))
    rep.drivertest("totals of an image added twice", sum("pixel-value" in f for f in map(str, r.findings)) >= 3)
    r = Result("selftest"); closed("all", r, project, src=SRC["add-after"].replace("    r.finalize()\n", ""))
    rep.drivertest("image accepted", bool(r.findings))
    r = Result("selftest"); reset("all", r, project, src=SRC["reset"].replace("    r.reset_arrays(o.n_input_models)\n", "    r._finalized = False\n    r._driz = Drz()\n    r.init_variance_arrays()\n    r._driz_error = Drz()\n"))
    rep.drivertest("left after a reset", bool(r.findings))


def run(rep):
    project = Project()
    units = ["values " + c for c in VCONF] + ["three " + c for c in CONF] + ["missing all", "missing ivm"] + ["closed " + c for c in ("all", "plain", "from_var")] + ["reset " + c for c in ("all", "from_var", "plain")]
    run_units(rep, units, unit, project)
    selftests(rep, project)
    rep.rules += ["values of an ordinary pixel as polynomials/quotients of the inputs, compared with the accumulated totals (identity testing)", "drizzle calls followed through a stub of the drizzle library: each plane of each image added exactly once on every path",
                  "all planes of an image use the same mapping, scale, weight, limits and exposure time, computed from that image",
                  "exposure totals as exact polynomials over three images in two groups", "product planes come from the input planes of the same kind",
                  "adding after finalisation is refused without effect; finalising twice does nothing; a reset leaves nothing behind"]
    rep.assumptions += ["the drizzle library accumulates the image it is given into out_img"]
    rep.floor("plane contributes once", 60); rep.floor("same mapping and weight for every plane", 60); rep.floor("exposure total", 30)
    rep.floor("product plane", 15); rep.floor("refused after finalisation", 3); rep.floor("new product after a reset", 10)
    rep.floor("value of an ordinary pixel", 24)
