"""P19: the sky recorded for an image is what was subtracted from it; members of a group get one correction; an image whose sky cannot be measured is
left alone and harms nobody; nothing is subtracted when subtraction is off."""
from sa import pixel
from sa.interp import Interp
from sa.project import Project, AnalysisBroken
from sa.runner import run_units, functions_of, Result
from sa.values import Lin, V, const

IMG = ("y", "x")
HEAD = '''
from stcal.skymatch import skymatch, SkyImage, SkyGroup

def failing(d):
    raise ValueError("no pixels")

def drive(image1, image2, image3, image4, mask1, mask2, mask3, mask4, wcs, s, o):
    def stat1(d): return s.a, s.na
    def stat2(d): return s.b, s.nb
    def stat3(d): return s.c, s.nc
    def stat4(d): return s.d, s.nd
    a = SkyImage(image1, mask1, wcs.fwd, wcs.inv, STAT1, 'a', o.stepsize, None)
    b = SkyImage(image2, mask2, wcs.fwd, wcs.inv, STAT2, 'b', o.stepsize, None)
    c = SkyImage(image3, mask3, wcs.fwd, wcs.inv, STAT3, 'c', o.stepsize, None)
    d = SkyImage(image4, mask4, wcs.fwd, wcs.inv, STAT4, 'd', o.stepsize, None)
    g = SkyGroup([a, b], sky_id='g')
    images = [g, c, d]
    b.sky = o.own
    g.sky = g.sky + o.start
    c.sky = o.start
    for i in (a, b, c, d): i.is_sky_valid = o.marked
'''
ONCE = "    skymatch(images, o.skymethod, o.match_down, o.subtract)\n"
TAIL = "    return a, b, c, d, g\n"
NAMES = "abcd"
GROUP = "ab"
METHODS = ("local", "global", "match", "global+match")


def specs(method, subtract, down, vals, start, own=0.0, marked=False):
    s = {"o": dict(kind="opaque"), "wcs": dict(kind="opaque"), "s": dict(kind="opaque"), "o.stepsize": dict(kind="none"),
         "o.skymethod": dict(kind="const", value=method, dep=False), "o.subtract": dict(kind="const", value=subtract, dep=False),
         "o.match_down": dict(kind="const", value=down, dep=False), "o.start": start,
         "o.own": dict(kind="const", value=own, dep=False), "o.marked": dict(kind="const", value=marked, dep=False)}
    for i, n in enumerate(NAMES):
        s[f"image{i + 1}"] = dict(kind="array", axes=IMG); s[f"mask{i + 1}"] = dict(kind="array", axes=IMG)
        v = vals.get(n)
        s[f"s.{n}"] = dict(kind="scalar") if v is None or v == "fail" else dict(kind="const", value=v, dep=False)
        s[f"s.n{n}"] = dict(kind="scalar")
    return s


class Walk:
    def __init__(self, project, name, method, subtract, down=True, vals=None, calls=1, src=None, finite=None, start=0.0, hook=None, own=0.0, marked=False):
        vals = vals or {}
        start = dict(kind="scalar") if start is None else dict(kind="const", value=start, dep=False)
        self.stores, self.nones = [], []
        ip = self.ip = Interp(project)
        ip.pixel = True
        ip.quiet_try = True
        ip.inject = {}
        if hook: hook(ip)
        ip.assume_finite = finite
        ip.on("store", lambda ev: self.stores.append(ev) if ev.owner is not None and str(ev.owner.get("root", "")).startswith("image") else None)
        ip.on("none_arith", lambda ev: self.nones.append(ev) if ev.mod.rel.endswith(("skymatch.py", "skyimage.py")) else None)
        text = src or HEAD + ONCE * calls + TAIL
        for i, n in enumerate(NAMES): text = text.replace(f"STAT{i + 1}", "failing" if vals.get(n) == "fail" else f"stat{i + 1}")
        roots = [f"{k}{i}" for k in ("image", "mask") for i in (1, 2, 3, 4)] + ["wcs", "s", "o"]
        self.res, self.st, self.dead = ip.run_driver(name, text, roots, specs(method, subtract, down, vals, start, own, marked))
        if not self.dead and self.st is not None:
            its = ip.known_items(self.st, self.res)
            if its is None or len(its) != 5: raise AnalysisBroken("the sky images of the driver are lost")
            self.img = dict(zip(NAMES + "g", its))

    def attr(self, n, name):
        v = self.ip.getattr(self.st, self.img[n], name, None)
        return v

    def pixel(self, n):
        return pixel.lin(self.ip.content(self.st, self.attr(n, "image")))

    def sky(self, n): return pixel.lin(self.attr(n, "sky"))

    def valid(self, n):
        v = self.attr(n, "is_sky_valid")
        return pixel.truth(v) if v.consts else None


def data(n): return Lin.sym(f"image{NAMES.index(n) + 1}")


def known(p): return None if p is None else p


def same(p, q):
    """equality that also decides expressions with selections both sides share"""
    if p is None or q is None: return None
    if p == q: return True
    return pixel.equal(p, q)


def decide(r, cls, what, eq, finding):
    r.oblige(cls if eq is not None else cls + " (not decided)", what, eq is not False)
    if eq is False: r.find(*finding)


def books(u, r, project, src=None):
    """recorded sky and image data"""
    method, subtract, down, calls, vals = u
    own = OWN if vals in ("numbers", "b fails") else 0.0
    tag = f"{method} subtract={subtract} match_down={down} calls={calls} {vals}"
    w = Walk(project, "sky_books", method, subtract, down, VALS[vals], calls, src, finite=True if "match" in method else None, own=own)
    r.functions |= functions_of(w.ip)
    lost(w, r, tag, method)
    if w.dead: return
    for n in NAMES:
        d, s = w.pixel(n), w.sky(n)
        if s is not None and n == "b": s = s - Lin.const(own)
        where = next((e for e in w.stores if e.owner.get("root") == f"image{NAMES.index(n) + 1}"), None)
        at = where.where() if where is not None else f"skymatch of image '{n}'"
        if subtract:
            eq = same(d, data(n) - s) if d is not None and s is not None else None
            decide(r, "recorded sky is the sky removed", f"{tag} {n}", eq,
                   ("recorded-differs", method, at, f"{tag}: the image was changed by {show(d, data(n))} while the recorded sky is {str(s)[:120]}"))
        else:
            mine = [e for e in w.stores if e.owner.get("root") == f"image{NAMES.index(n) + 1}"]
            eq = False if d is not None and d != data(n) else (not mine or d == data(n) or None)
            decide(r, "nothing subtracted when switched off", f"{tag} {n}", eq, ("subtracted-anyway", method, at, f"{tag}: image data change although subtraction is off"))
    decide(r, "one correction per group", tag, same(w.sky("a"), w.sky("b") - Lin.const(own) if w.sky("b") is not None else None),
           ("group-differs", method, "skymatch", f"{tag}: members of a group get different sky corrections: {str(w.sky('a'))[:90]} and {str(w.sky('b'))[:90]}"))
    decide(r, "one correction per group", tag + " group", same(w.sky("a"), w.sky("g")),
           ("group-differs", method + ":group", "skymatch", f"{tag}: the sky recorded for the group differs from that of its members"))
    if method in ("global",):
        decide(r, "one global correction", tag, same(w.sky("a"), w.sky("c")), ("global-differs", "sky", "skymatch", f"{tag}: the 'global' sky differs between images"))


def show(d, d0):
    return str(d0 - d)[:120] if d is not None else "an unknown amount"


def lost(w, r, tag, method):
    for e in w.nones:
        r.oblige("a missing sky value is never computed with", f"{tag} {e.where()}", False)
        r.find("none-arithmetic", method, e.where(), f"{tag}: a sky value that may be missing (None) is used in '{e.d.get('op')}'", e.path())
    r.oblige("a missing sky value is never computed with", tag, not w.nones)
    r.oblige("sky matching finishes", tag, not w.dead)
    if w.dead: r.find("fails", method, "skymatch", f"{tag}: sky matching fails ({(w.ip.pending or ('?', ''))[0] if isinstance(w.ip.pending, tuple) else w.ip.pending})")


VALS = {"free": {}, "numbers": dict(a=3.0, b=1.0, c=2.0, d=5.0), "c fails": dict(a=3.0, b=1.0, c="fail", d=5.0), "c nan": dict(a=3.0, b=1.0, c=float("nan"), d=5.0),
        "b fails": dict(a=3.0, b="fail", c=2.0, d=5.0), "group fails": dict(a="fail", b="fail", c=2.0, d=5.0), "a inf": dict(a=float("nan"), b=4.0, c=2.0, d=5.0),
        "all fail": dict(a="fail", b="fail", c="fail", d="fail"), "negative": dict(a=-3.0, b=-1.0, c=-2.0, d=0.0)}


OWN = 0.25          # sky a member had before it joined its group


def want(method, vals, subtract, base):
    """the corrections of the two methods that only compare measured values; base is the sky known before"""
    ok = {n: v for n, v in VALS[vals].items() if v != "fail" and v == v}
    if not subtract: ok = {n: v - base[n] for n, v in ok.items()}
    g = min((ok[n] for n in GROUP if n in ok), default=None)
    per = {"a": g, "b": g, "c": ok.get("c"), "d": ok.get("d")}
    if method == "global":
        m = min((v for v in per.values() if v is not None), default=None)
        per = {n: m for n in NAMES}
    return per


def measured(u, r, project, src=None):
    """local and global sky from known measurements, some of them impossible, some images with a sky subtracted before; once or twice"""
    method, subtract, calls, start, vals = u
    tag = f"{method} subtract={subtract} calls={calls} start={start} {vals}"
    w = Walk(project, "sky_measured", method, subtract, True, VALS[vals], calls, src, start=start, own=OWN * bool(start), marked=bool(start))
    r.functions |= functions_of(w.ip)
    lost(w, r, tag, method)
    if w.dead: return
    base = {n: start if n in "abc" else 0.0 for n in NAMES}
    base["b"] += OWN * bool(start)
    mark = bool(start)
    moved = dict.fromkeys(NAMES, 0.0)
    for _ in range(calls):
        per = want(method, vals, subtract, base)
        ok = {n: x is not None or method == "global" and mark for n, x in per.items()}
        for n, x in per.items(): base[n] += x or 0.0; moved[n] += (x or 0.0) * subtract
    for n, x in per.items():
        s, v = w.sky(n), w.valid(n)
        e = Lin.const(base[n])
        decide(r, "sky of the measurable images", f"{tag} {n}", same(s, e),
               ("wrong-sky", method, "skymatch", f"{tag}: the recorded sky of image '{n}' is {s} instead of {e}"))
        d = w.pixel(n)
        decide(r, "sky removed from the data", f"{tag} {n}", same(d, data(n) - Lin.const(moved[n])),
               ("wrong-data", method, "skymatch", f"{tag}: the data of image '{n}' change by {show(d, data(n))} instead of {moved[n]}"))
        decide(r, "validity of the sky", f"{tag} {n}", v == ok[n] if v is not None else None,
               ("validity", method, "skymatch", f"{tag}: the sky of image '{n}' is marked {'valid' if v else 'invalid'}"))


def nothing(u, r, project, src=None):
    """matching when no difference can be computed at all"""
    subtract, = u
    tag = f"match subtract={subtract} no differences"
    w = Walk(project, "sky_nothing", "match", subtract, True, VALS["numbers"], 1, src, finite=False)
    r.functions |= functions_of(w.ip)
    lost(w, r, tag, "match")
    if w.dead: return
    for n in NAMES:
        eq = None if w.sky(n) is None or w.pixel(n) is None else same(w.sky(n), Lin.const(0)) and same(w.pixel(n), data(n))
        decide(r, "image without a sky left alone", f"{tag} {n}", eq, ("touched", "match", "skymatch", f"{tag}: image '{n}' gets the sky {w.sky(n)} and loses {show(w.pixel(n), data(n))}"))
        v = w.valid(n)
        decide(r, "validity of the sky", f"{tag} {n}", v is False if v is not None else None, ("validity", "match", "skymatch", f"{tag}: the sky of image '{n}' is marked valid"))


CALC = """    g.sky = o.start
    return a.calc_sky(delta=D), a.calc_sky(overlap=c, delta=D), a.calc_sky(overlap=G, delta=D), c.calc_sky(overlap=g, delta=D), g.calc_sky(overlap=c, delta=D), g.calc_sky(overlap=G, delta=D), a.calc_sky(), g.calc_sky(overlap=d)
"""


def calc(u, r, project, src=None):
    """what one measurement returns: relative to the recorded sky or not; the pixel-weighted mean over a group; nothing without an overlap"""
    delta, apart = u
    tag = f"calc_sky delta={delta}" + (" without overlap" if apart else "")
    def hook(ip):
        area = lambda ip, node, args, kw, st: const(0.0) if apart else V(unk=True, sym=Lin.sym("area"))
        ip.ext_hook = {k: area for k in ("numpy.fabs", "numpy.abs", "numpy.absolute", "builtins.abs")}
    w = Calc(project, "sky_calc", (src or HEAD + CALC.replace("G", "SkyGroup([c, d])")).replace("delta=D", f"delta={delta}"), hook)
    r.functions |= functions_of(w.ip)
    S = lambda k: Lin.sym("s." + k)
    start = Lin.sym("o.start")
    dd = start if delta else Lin.const(0)
    mean = pixel.div(S("a") * S("na") + S("b") * S("nb"), S("na") + S("nb"))
    wants = [("image", S("a") - dd, S("na")), ("image and image", S("a") - dd, S("na")), ("image and group", S("a") - dd, S("na")), ("image outside the group", S("c") - dd, S("nc")),
             ("group and image", mean - dd, S("na") + S("nb")), ("group and group", mean - dd, S("na") + S("nb")), ("image, default", S("a") - start, S("na")), ("group, default", mean - start, S("na") + S("nb"))]
    for (what, e, n), v in zip(wants, w.items):
        its = w.ip.known_items(w.st, v)
        if its is None or len(its) != 3:
            r.oblige("measured sky (not decided)", f"{tag} {what}"); continue
        if apart:
            if "overlap" in what or what in ("image", "image, default"): continue
            none = its[0].consts == frozenset([("NoneType", None)]) and not its[0].refs
            eq = True if none and pixel.lin(its[0]) is None else None if its[0].may_none() else False
            decide(r, "no sky without an overlap", f"{tag} {what}", eq, ("no-overlap", what, "calc_sky", f"{tag}: a sky value is measured for {what} although they do not overlap"))
            continue
        decide(r, "measured sky", f"{tag} {what}", same(pixel.lin(its[0]), e), ("measure", what, "calc_sky", f"{tag}: the sky measured for {what} is {pixel.lin(its[0])} instead of {e}"))
        decide(r, "pixels behind a measured sky", f"{tag} {what}", same(pixel.lin(its[1]), n), ("measure-pixels", what, "calc_sky", f"{tag}: the number of pixels for {what} is {pixel.lin(its[1])} instead of {n}"))


class Calc:
    def __init__(self, project, name, src, hook):
        ip = self.ip = Interp(project)
        ip.pixel = True; ip.quiet_try = True; ip.inject = {}
        hook(ip)
        ip.assume_finite = True
        for i in range(4): src = src.replace(f"STAT{i + 1}", f"stat{i + 1}")
        sp = specs("match", False, True, {}, dict(kind="scalar"))
        sp["o.subtract"] = sp["o.start"]
        self.res, self.st, self.dead = ip.run_driver(name, src, [f"{k}{i}" for k in ("image", "mask") for i in (1, 2, 3, 4)] + ["wcs", "s", "o"], sp)
        self.items = ip.known_items(self.st, self.res) if not self.dead else []
        if self.items is None: raise AnalysisBroken("the measured sky values of the driver are lost")


def solver(u, r, project, src=None):
    """the differences given to the linear solver are those left after the recorded sky, or those of already corrected data"""
    subtract, = u
    tag = f"match subtract={subtract}"
    seen, got = [], set()
    def hook(ip):
        def see(ev):
            if ev.name.startswith(("numpy.linalg.", "scipy.linalg.")) or ev.name in ("numpy.dot", "numpy.matmul", "numpy.einsum", "numpy.inner"):
                seen.append(ev)
                for a in ev.args:
                    if isinstance(a, V): got.update(ip.alldeps(ev.st, a) | ip.content(ev.st, a).deps)
        ip.on("extcall", see)
    w = Walk(project, "sky_solver", "match", subtract, True, {}, 1, src, finite=True, start=None, hook=hook)
    r.functions |= functions_of(w.ip)
    if not seen or not any(x.startswith("s.") for x in got):
        r.oblige("differences solved for (not decided)", tag); return
    has = "o.start" in got
    r.oblige("differences solved for", tag, has != subtract)
    if has == subtract:
        r.find("solver-input", str(subtract), seen[0].where(), f"{tag}: the sky differences solved for " +
               ("depend on the sky recorded before although that sky is already removed from the data" if has else "ignore the sky recorded before, so it is counted again"), seen[0].path())


def unit(u, r, project):
    k = u.split("|")
    if k[0] == "books": books((k[1], k[2] == "1", k[3] == "1", int(k[4]), k[5]), r, project)
    elif k[0] == "measured": measured((k[1], k[2] == "1", int(k[3]), float(k[4]), k[5]), r, project)
    elif k[0] == "calc": calc((k[1] == "1", len(k) > 2), r, project)
    elif k[0] == "solver": solver((k[1] == "1",), r, project)
    else: nothing((k[1] == "1",), r, project)


def selftests(rep, project):
    def fires(rule, fn, u, src):
        r = Result("selftest"); fn(u, r, project, src=src)
        return any(f.rule == rule for f in (r.findings.values() if isinstance(r.findings, dict) else r.findings))
    rep.drivertest("data changed besides the sky", fires("recorded-differs", books, ("local", True, True, 1, "free"), HEAD + ONCE + "    c.image -= 1.0\n" + TAIL))
    rep.drivertest("data changed with subtraction off", fires("subtracted-anyway", books, ("match", False, True, 1, "free"), HEAD + ONCE + "    b.image -= b.sky\n" + TAIL))
    rep.drivertest("members apart", fires("group-differs", books, ("global", True, True, 1, "numbers"), HEAD + ONCE + "    a.sky += 1.0\n" + TAIL))
    rep.drivertest("wrong sky", fires("wrong-sky", measured, ("local", False, 2, 0.5, "numbers"), HEAD + ONCE * 2 + "    d.sky += d.calc_sky(delta=False)[0]\n" + TAIL))
    rep.drivertest("wrong validity", fires("validity", measured, ("local", True, 1, 0.0, "c fails"), HEAD + ONCE + "    c.is_sky_valid = True\n" + TAIL))
    rep.drivertest("missing value used", fires("none-arithmetic", books, ("local", True, True, 1, "c fails"), HEAD + ONCE + TAIL) or
                 fires("fails", measured, ("local", True, 1, 0.0, "c fails"), HEAD + ONCE + "    raise ValueError('x')\n" + TAIL))
    rep.drivertest("wrong measurement", fires("measure", calc, (True, False), HEAD + CALC.replace("G", "SkyGroup([c, d])").replace("g.calc_sky(overlap=c, delta=D)", "c.calc_sky(overlap=g)")))
    rep.drivertest("wrong differences solved for", fires("solver-input", solver, (True,), HEAD + ONCE.replace("o.subtract", "False") + TAIL))


def run(rep):
    project = Project()
    units = [f"books|{m}|{s}|{d}|{n}|{v}" for m in METHODS for s in "01" for d in ("01" if "match" in m else "1") for n in "12" for v in ("free", "numbers", "c fails", "b fails", "group fails")]
    units += [f"measured|{m}|{s}|{n}|{x}|{v}" for m in ("local", "global") for s in "01" for n in "12" for x in ("0.0", "0.5") for v in VALS if v != "free"]
    units += [f"{k}|{s}" for k in ("nothing", "solver", "calc") for s in "01"] + ["calc|0|apart", "calc|1|apart"]
    run_units(rep, units, unit, project)
    selftests(rep, project)
    rep.rules += ["skymatch followed on images a, b (one group), c and d with measured sky values that are symbols, numbers, NaN or impossible; data of an ordinary pixel and recorded sky as polynomials",
                  "with subtraction: data after = data before - recorded sky; without: data unchanged", "members of a group and the group itself have the same correction; 'global' gives all images one value",
                  "local and global sky equal the sky of the measurable images, with and without an earlier sky, once and twice; validity marks; an unmeasurable image is left alone",
                  "no arithmetic on a sky that may be None", "calc_sky: relative to the recorded sky exactly when asked, pixel-weighted mean over a group, None without an overlap",
                  "differences given to the linear solver take the recorded sky into account exactly when it is not yet removed from the data"]
    rep.assumptions += ["the statistics function returns (value, number of pixels) or raises ValueError", "outlines and their intersections are computed by spherical_geometry"]
    rep.floor("recorded sky is the sky removed", 60); rep.floor("nothing subtracted when switched off", 60); rep.floor("one correction per group", 40)
    rep.floor("sky of the measurable images", 150); rep.floor("validity of the sky", 150)
