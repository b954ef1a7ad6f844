"""P14: angles are converted exactly once between degrees, radians, arcseconds and milliarcseconds."""
import ast, math
from fractions import Fraction
from sa import entries
from sa.runner import run_units, run_entry, functions_of, Result
from sa.project import Project
from sa.values import V, joinall, const, unit, u_str, u_mul, U_TOP, U_POLY
from checks.common import mini, at


DEG, RAD, AS, MAS = unit(deg=1), unit(rad=1), unit(arcsec=1), unit(mas=1)
PER_DEG = {"deg": 1.0, "rad": math.pi / 180, "arcmin": 60.0, "arcsec": 3600.0, "mas": 3.6e6, "hourangle": 1 / 15}      # of each unit in one degree
NAMES = {"deg": "deg", "degree": "deg", "rad": "rad", "radian": "rad", "arcmin": "arcmin", "arcminute": "arcmin", "arcsec": "arcsec", "arcsecond": "arcsec", "mas": "mas", "hourangle": "hourangle", "hour": "hourangle"}
LONG = {"deg": "degrees", "rad": "radians", "arcsec": "arcseconds", "arcmin": "arcminutes", "mas": "milliarcseconds", "hourangle": "hours"}
Q = "quantity"


def sc(u, **k): return dict(kind="scalar", unit=u, **k)
def col(u): return dict(kind="array", axes=("K",), unit=u)
def pair(u): return dict(kind="seq", items=[sc(u), sc(u)])


PTS = dict(kind="array", axes=("K", "2"), unit=DEG)
SKY = dict(kind="seq", items=[col(DEG), col(DEG)])
TABLE = {"ra": DEG, "dec": DEG, "RA": DEG, "DEC": DEG, "pmra": unit(mas=1, yr=-1), "pmdec": unit(mas=1, yr=-1), "parallax": MAS, "ref_epoch": unit(yr=1)}
CAT = {"catalog": dict(kind="opaque"), **{f"catalog[{k}]": col(u) for k, u in TABLE.items()}, "table": dict(kind="opaque"), **{f"table[{k}]": col(u) for k, u in TABLE.items()}}
ALN = {"o.crval": dict(kind="seq", items=[sc(DEG), sc(DEG)], optional=True), "o.fiducial": dict(kind="seq", items=[sc(DEG), sc(DEG)]), "o.footprint": PTS,
       "footprints[*]": PTS, "footprint": PTS, "o.angle_thresh": sc(RAD)}
MAPS = {"is_wcs": ("ref_wcs", "wcs", "o.swcs", "wcs_from", "wcs_to", "model1[wcs]", "model2[wcs]", "o.output_wcs[wcs]", "wcslist[*]")}


def extra(name, src, roots, specs): return entries.Entry("p14:" + name, src, roots, specs)


ALIGN = {"o." + x: sc(AS) for x in ("searchrad", "separation", "tolerance", "xoffset", "yoffset", "abs_searchrad", "abs_separation", "abs_tolerance")}
BOX = dict(kind="seq", items=[pair(unit()), pair(unit())], optional=True); SHAPE = dict(kind="seq", items=[sc(unit()), sc(unit())], optional=True)
PIX = lambda *ws: {f"{w}.{k}": s for w in ws for k, s in (("bounding_box", BOX), ("array_shape", SHAPE), ("pixel_shape", SHAPE))}
UNITS = {
    "alignment:all": ALN, "velocity:all": {}, "tweakreg:relative": ALIGN, "tweakreg:absolute": ALIGN,
    "tweakreg:catalog": {**{f"refang[{k}]": sc(u) for k, u in (("roll_ref", DEG), ("v2_ref", AS), ("v3_ref", AS))}},
    "resample:utils": {**PIX("wcs_from", "wcs_to"), "o.oshape": SHAPE}, "resample:properties": {}, "resample:stack": {}, "skymatch:local": {}, "skymatch:global+match": {},
    "jump:uniform": {}, "alignment:private": ALN,
}
for k in ("resample:properties", "resample:stack"):
    UNITS[k] = {**PIX("o.output_wcs[wcs]", "model1[wcs]", "model2[wcs]"), **{f"{m}[{n}]": sc(u) for m in ("model1", "model2") for n, u in (("pixelarea_steradians", unit(rad=2)), ("pixelarea_arcsecsq", unit(arcsec=2)))}}
UNITS["resample:properties/computed"] = {**UNITS["resample:properties"], "o.output_wcs[pixel_scale]": dict(kind="none")}
S3 = extra("s3", """
from stcal.tweakreg import _s3_catalog, tweakreg
from stcal.tweakreg.astrometric_utils import get_catalog
from stcal.alignment import resample_utils

def drive(catalog, table, correctors, ra, dec, radius, epoch, depth, coords, o):
    a = _s3_catalog._correct_for_proper_motion(catalog, epoch)
    b = _s3_catalog._filter_table(table, ra, dec, radius)
    c = _s3_catalog._cone_search(ra, dec, radius, depth)
    d = get_catalog(ra, dec, epoch=epoch, search_radius=radius, catalog=o.name)
    e = tweakreg._is_wcs_correction_small(correctors, o.use2dhist, o.searchrad, o.tolerance, o.xoffset, o.yoffset)
    f = _s3_catalog.get_s3_catalog(ra, dec, epoch, radius, o.name)
    return a, b, c, d, e, f
""", ["catalog", "table", "correctors", "ra", "dec", "radius", "epoch", "depth", "coords", "o"],
    {**CAT, "ra": sc(DEG), "dec": sc(DEG), "radius": sc(DEG), "epoch": sc(unit(yr=1)), "depth": dict(kind="scalar"), "o": dict(kind="opaque"), "correctors": dict(kind="opaque"), **ALIGN})
# documented unit of returned and reported quantities: path into the driver's result -> unit
RESULT = {
    "velocity:all": {"[1][1]": DEG, "[1][2]": DEG},
    "alignment:all": {"[1]": DEG, "[2]": DEG},
    "tweakreg:catalog": {"[3][v2_ref]": AS, "[3][v3_ref]": AS, "[3][roll_ref]": DEG, "[3][ra_ref]": DEG, "[3][dec_ref]": DEG},
    "resample:utils": {"[2]": unit(rad=2)},
    "resample:properties": {"[0]": AS}, "resample:properties/computed": {"[0]": AS},
}
# named quantities of a resampled image, of a WCS description, of a catalogue
KEYS = {"pixelarea_steradians": unit(rad=2), "pixelarea_arcsecsq": unit(arcsec=2), "pixel_scale": AS, "pixel_scale_ratio": unit(), "v2_ref": AS, "v3_ref": AS, "roll_ref": DEG, "ra_ref": DEG, "dec_ref": DEG,
        "v3yangle": DEG, "RA": DEG, "DEC": DEG, "ra": DEG, "dec": DEG}
# angles that libraries take: callable (last part of the name) -> positions/keywords -> unit
TAKES = {"RotateNative2Celestial": ({0: DEG, 1: DEG, 2: DEG}, {"lon": DEG, "lat": DEG, "lon_pole": DEG}), "FITSImagingWCSTransform": ({}, {"crval": DEG, "cdelt": DEG}),
         "skimage.draw.ellipse": ({5: RAD}, {"rotation": RAD}), "from_radec": ({0: DEG, 1: DEG}, {}), "from_lonlat": ({0: DEG, 1: DEG}, {}), "SphericalToCartesian()": ({0: DEG, 1: DEG}, {}),
         "Rotation2D": ({0: DEG}, {"angle": DEG}), "from_cone": ({0: DEG, 1: DEG, 2: DEG}, {}),
         "XYXYMatch": ({}, {"searchrad": AS, "separation": AS, "tolerance": AS, "xoffset": AS, "yoffset": AS})}
SPECIAL = ("separation", "position_angle", "area", "footprint", "pixel_to_world_values", "to_lonlat", "to_radec")
FROM_SKY = ("world_to_pixel_values", "world_to_pixel", "invert", "inverse")


def pure(u):
    """(angle unit, power) of a plain angle or power of one"""
    if isinstance(u, str) or len(u) != 1: return None
    (d, p), = u
    return (d, p) if d in PER_DEG else None


def composed(u):
    """a power of an angle, possibly left in several units at once"""
    return not isinstance(u, str) and bool(u) and all(d in PER_DEG for d, _ in u)


def words(u):
    p = pure(u)
    if not p: return u_str(u)
    return LONG[p[0]] if p[1] == 1 else "steradians" if p == ("rad", 2) else f"{LONG[p[0]]}^{p[1]}"


def angular(u): return not isinstance(u, str) and any(d in PER_DEG and d != "rad" for d, _ in u)


def convert(u, f):
    """unit after multiplying by the number f, if f turns an angle in u into another unit"""
    if isinstance(u, str) or not f or not any(d in PER_DEG for d, _ in u): return None
    w = dict(u)
    if "pi" in w:                                       # multiplied by pi before
        if w["pi"].denominator == 1: return convert(u - {("pi", w["pi"])}, f * math.pi ** int(w["pi"]))
        return None
    if f == math.pi: return u | {("pi", Fraction(1))}
    for d, p in u:
        if d not in PER_DEG: continue
        for e in PER_DEG:
            if e == d or p.denominator != 1 or e == "hourangle" or d == "hourangle" and e != "deg": continue
            if abs(abs(f) / (PER_DEG[e] / PER_DEG[d]) ** int(p) - 1) < 1e-9: return u_mul(u - {(d, p)}, frozenset([(e, p)]))
    return None


def factor(c):
    """unit carried by a bare conversion factor that only converts angles (it contains pi)"""
    for d in PER_DEG:
        for e in PER_DEG:
            if (d == "rad") != (e == "rad") and c and abs(c / (PER_DEG[e] / PER_DEG[d]) - 1) < 1e-9 and "hourangle" not in (d, e): return frozenset([(e, Fraction(1)), (d, Fraction(-1))])
    return None


def num(v):
    if not isinstance(v, V) or v.refs or v.unk or len(v.consts) != 1: return None
    (t, c), = v.consts
    return c if t in ("int", "float") else None


def angles(ip, r):
    m = ip.models
    cont = lambda st, v: ip.content(st, v)

    def expect(node_ev, what, st, v, want, key=None):
        """judge the unit of an angle handed to / stored as something documented"""
        if not isinstance(v, V): return
        its = [v]
        for o in ip.objs(st, v):
            if o.kind in ("tuple", "list") and o.get("items"): its += o.get("items")
        for x in its:
            c = cont(st, x)
            if not composed(c.unit) or Q in c.tags: continue
            ok = c.unit == want
            r.oblige("an angle arrives in the documented unit", f"{node_ev.where()}:{what}", ok)
            if not ok: r.find("angle-unit", f"{node_ev.mod.rel}:{node_ev.qual}:{key or what}", node_ev.where(), f"{what} is documented in {words(want)} and gets an angle in {words(c.unit)}", node_ev.path())

    def trig(ev):
        u = ev.arg.unit
        if u in (U_TOP, U_POLY) or Q in ev.arg.tags: return
        ok = not pure(u) or u == RAD
        r.oblige("trigonometric functions get radians", ev.where(), ok)
        if not ok: r.find("trig-unit", f"{ev.mod.rel}:{ev.qual}:{ev.fn}", ev.where(), f"{ev.fn} of an angle in {words(u)}", ev.path())
    ip.on("trig", trig)

    def conv(ev):
        u = ev.arg.unit; want = DEG if ev.to == "rad" else RAD
        if not pure(u) or Q in ev.arg.tags: return
        ok = u == want
        r.oblige("an angle is converted from the unit it is in", ev.where(), ok)
        if not ok: r.find("conversion", f"{ev.mod.rel}:{ev.qual}:{ev.to}", ev.where(), f"an angle already in {words(u)} is converted from {words(want)} to {'radians' if ev.to == 'rad' else 'degrees'}", ev.path())
    ip.on("angconv", conv)

    def mixed(ev):
        a, b = ev.a, ev.b
        if Q in a.tags and Q in b.tags: return
        if not (angular(a.unit) or angular(b.unit)): return
        r.find("mixed", f"{ev.mod.rel}:{ev.qual}:{':'.join(sorted((u_str(a.unit), u_str(b.unit))))}", ev.where(), f"a quantity in {words(a.unit)} is combined ({ev.op}) with one in {words(b.unit)}", ev.path())
    ip.on("unit_mismatch", mixed)

    def same(ev):
        a, b = ev.ca, ev.cb
        if ev.op == "*" and pure(a.unit) and pure(b.unit) and Q not in a.tags | b.tags and pure(a.unit)[0] != pure(b.unit)[0]:
            r.find("mixed", f"{ev.mod.rel}:{ev.qual}:*:{':'.join(sorted((u_str(a.unit), u_str(b.unit))))}", ev.where(), f"an angle in {words(a.unit)} is multiplied by one in {words(b.unit)}", ev.path())
        if ev.op not in ("+", "-", "%", "<", "<=", ">", ">="): return
        a, b = ev.ca, ev.cb
        if pure(a.unit) and pure(b.unit) and a.unit == b.unit: r.oblige("angles are combined in one unit", ev.where(), True)
        for x, y in ((a, b), (b, a)):
            n = num(y); p = pure(x.unit)
            if n is None or not p or p[1] != 1: continue
            turn = "deg" if abs(n) in (90, 180, 270, 360) else "rad" if any(abs(abs(n) / (k * math.pi) - 1) < 1e-9 for k in (0.5, 1, 1.5, 2)) else None
            if turn is None: continue
            ok = turn == p[0]
            r.oblige("angles are combined in one unit", ev.where(), ok)
            if not ok: r.find("mixed", f"{ev.mod.rel}:{ev.qual}:turn:{p[0]}", ev.where(), f"an angle in {words(x.unit)} is combined ({ev.op}) with {n:g}, a fraction of a turn in {LONG[turn]}", ev.path())
    ip.on("binop", same)

    # ---- what libraries take
    def takes(ev, name, args, kw):
        for n, (pos, named) in TAKES.items():
            if not (name == n or name.endswith("." + n)): continue
            for i, w in pos.items():
                if i < len(args): expect(ev, f"argument {i + 1} of {n.split('.')[-1]}", ev.st, args[i], w)
            for k, w in named.items():
                if k in kw: expect(ev, f"{n.split('.')[-1]}({k}=)", ev.st, kw[k], w)
        t = name.split(".")[-1]
        if t in FROM_SKY:
            for a in args:
                a = a[1] if isinstance(a, tuple) else a
                if isinstance(a, V): expect(ev, f"position passed to {t}", ev.st, a, DEG)
    ip.on("extcall", lambda ev: takes(ev, ev.name, ev.args, ev.kw))
    ip.on("unkcall", lambda ev: takes(ev, str(ev.d.get("name", "")), ev.args, ev.kw))
    ip.on("methcall", lambda ev: takes(ev, ev.name, ev.args, ev.kw))

    # ---- what is reported under a documented name
    def key(ev):
        for t, k in (ev.d["key"].consts if isinstance(ev.d.get("key"), V) else ()):
            if k in KEYS: expect(ev, f"'{k}'", ev.st, ev.value, KEYS[k])
    ip.on("store_item", key)
    def column(ev):
        if ev.idx and len(ev.idx) == 1 and isinstance(ev.idx[0][1], V):
            for t, k in ev.idx[0][1].consts:
                if k in KEYS: expect(ev, f"'{k}'", ev.st, ev.d.get("rhs") or ev.value, KEYS[k])
    ip.on("store", column)

    d0 = ip.e_Dict
    def display(e, st):
        v = d0(e, st)
        for o in ip.objs(st, v):
            for k, x in (o.get("items") or {}).items() if isinstance(o.get("items"), dict) else ():
                if k in KEYS: ip.emit("angle", e, fn=lambda ev: expect(ev, f"'{k}'", st, x, KEYS[k]), st=st)
        return v
    ip.e_Dict = display

    # ---- quantities with units
    def quantity(st, node, u, d, tag): return ip.new_array(st, node, V(unk=True, deps=d, unit=u, tags=frozenset([Q])), None, tag=":q" + tag)

    def unit_of(st, v):
        """the angle unit an astropy unit object (or its name) stands for"""
        for o in ip.objs(st, v):
            n = o.get("name") if o.kind == "ext" else None
            if n and n.startswith("astropy.units."): return NAMES.get(n.split(".")[-1])
        for t, c in v.consts:
            if t == "str": return NAMES.get(c)
        return None

    ip.on("angle", lambda ev: ev.fn(ev))
    def labelled(node, st, u, n, ok):
        def f(ev):
            r.oblige("a number is labelled with the unit it is in", ev.where(), ok)
            if not ok: r.find("label", f"{ev.mod.rel}:{ev.qual}:{n}", ev.where(), f"an angle in {words(u)} is labelled as {LONG[n]}", ev.path())
        ip.emit("angle", node, fn=f, st=st)

    b0 = m.binop
    def binop(node, op, a, b, st):
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                n = unit_of(st, y) if y.refs else None
                if n:
                    c = cont(st, x); p = pure(c.unit)
                    if p and Q not in c.tags:
                        ok = p == (n, 1)
                        labelled(node, st, c.unit, n, ok)
                    return quantity(st, node, unit(**{n: 1}), ip.alldeps(st, x), "")
        res = b0(node, op, a, b, st)
        n = num(res)
        if n is not None and isinstance(n, float):
            f = factor(n)
            if f is not None: return res.w(unit=f)
        if isinstance(op, (ast.Mult, ast.Div)):
            for x, y in ((a, b), (b, a)):
                n = num(y)
                if n is None or n == 0 or y.unit not in (U_POLY,) or isinstance(op, ast.Div) and y is a: continue
                cx = cont(st, x)
                u = convert(cx.unit, n if isinstance(op, ast.Mult) else 1.0 / n)
                if u is not None: return ip.with_unit(st, res, u) if res.refs else res.w(unit=u)
        return res
    m.binop = binop

    c0 = m._call_np
    def call_np(node, fn, args, kw, st, vals, a0):
        n = num(a0) if fn in ("deg2rad", "radians", "rad2deg", "degrees") else None
        if n is None: return c0(node, fn, args, kw, st, vals, a0)
        x = math.radians(n) if fn in ("deg2rad", "radians") else math.degrees(n)      # a number: possibly a conversion factor
        f = factor(x)
        return const(x) if f is None else const(x).w(unit=f)
    m._call_np = call_np

    g0 = ip.getattr
    def getattr_(st, base, name, node, quiet=False):
        if name == "pi" and any(o.kind in ("module", "ext") and (o.get("name") or o.id).split(".")[0].replace("mod:", "") in ("numpy", "math", "np") for o in ip.objs(st, base)): return const(math.pi)
        if name == "value" and base.refs and all(o.kind == "array" and ip.obj_content(st, o).unit == unit() for o in ip.objs(st, base)): return base
        c = next((x for x in (ip.obj_content(st, o) for o in ip.objs(st, base) if o.kind == "array") if Q in x.tags), None)
        if c is not None:
            if name in ("value", "data"): return ip.new_array(st, node, V(unk=True, deps=c.deps, unit=c.unit), None, tag=":val")
            if name in ("to", "to_value"): return joinall([ip.method_of(st, o, name) for o in ip.objs(st, base) if o.kind == "array"])
            if name in NAMES: return ip.new_array(st, node, V(unk=True, deps=c.deps, unit=unit(**{NAMES[name]: 1})), None, tag=":val")
        if name in ("ra", "dec", "lon", "lat") and any((o.get("root") or "").startswith("ext:skycoord") for o in ip.objs(st, base)): return quantity(st, node, DEG, base.deps, name)
        if name in ("lon", "lat") and any(o.kind == "opaque" and not o.get("root") and (o.get("exttype") or "").startswith("astropy.") for o in ip.objs(st, base)): return quantity(st, node, DEG, base.deps, name)
        if name == "xyz" and not any(o.kind in ("inst", "class", "module", "func") for o in ip.objs(st, base)): return ip.new_array(st, node, V(unk=True, deps=base.deps, unit=unit()), None, tag=":xyz")
        if name == "angles" and not any(o.kind in ("inst", "class", "module", "func") for o in ip.objs(st, base)): return quantity(st, node, DEG, base.deps, name)     # of a rotation
        return g0(st, base, name, node, quiet)
    ip.getattr = getattr_

    def special(node, name, args, d, st):
        array = lambda u, tag: ip.new_array(st, node, V(unk=True, deps=d, unit=u), None, tag=tag)
        if name == "separation": return quantity(st, node, DEG, d, "sep")
        if name == "position_angle": return quantity(st, node, RAD, d, "pa")
        if name == "area" and not args: return array(unit(rad=2), ":area")
        if name == "footprint": return array(DEG, ":foot")
        if name in ("pixel_to_world_values", "to_lonlat", "to_radec"): return ip.alloc(st, node, "tuple", tag=":sky", items=[array(DEG, f":sky{i}") for i in "01"])
        return None

    m0 = m.method1
    def method1(node, o, name, args, kw, st):
        d = frozenset().union(*[ip.alldeps(st, a) for a in args if isinstance(a, V)])
        c = ip.obj_content(st, o) if o.kind in ("array", "opaque") else None
        if c is not None and c.unit == unit() and o.kind == "array" and name in ("to", "to_value"): return V(refs=frozenset([o.id]))
        if c is not None and Q in c.tags:
            if name in ("to", "to_value") and args:
                n = unit_of(st, args[0])
                if n is None: return V(refs=frozenset([o.id])) if o.kind == "array" else m0(node, o, name, args, kw, st)
                if n: return quantity(st, node, unit(**{n: 1}), d | c.deps, name) if name == "to" else ip.new_array(st, node, V(unk=True, deps=d | c.deps, unit=unit(**{n: 1})), None, tag=":val")
            if name in ("max", "min", "mean", "sum", "copy", "flatten", "ravel", "reshape"): return quantity(st, node, c.unit, c.deps, name)
        res = m0(node, o, name, args, kw, st)
        x = special(node, name, args, d | res.deps, st)
        return res if x is None else x
    m.method1 = method1
    s0 = m.scalar_method
    def scalar_method(node, selfv, name, args, kw, st):
        x = special(node, name, args, ip.alldeps(st, selfv), st) if name in SPECIAL else None
        return s0(node, selfv, name, args, kw, st) if x is None else x
    m.scalar_method = scalar_method

    u0 = m.unknown_call
    def unknown_call(node, f, args, kw, st):
        res = u0(node, f, args, kw, st)
        n = next((x for x in (o.get("root") or o.get("exttype") for o in ip.objs(st, f)) if x), next((x for x in f.deps if "." in x and x.split(".")[-1] in SPECIAL), ""))
        sky = lambda k: ip.alloc(st, node, "tuple", tag=":sky", items=[ip.new_array(st, node, V(unk=True, deps=res.deps, unit=DEG), None, tag=f":sky{i}") for i in range(k)])
        if n.endswith("CartesianToSpherical()"): return sky(2)
        x = special(node, n.split(".")[-1], args, res.deps, st) if "." in n else None
        if x is not None: return x
        if n in MAPS["is_wcs"]: return ip.new_array(st, node, V(unk=True, deps=res.deps, unit=DEG), None, tag=":sky")
        return res
    m.unknown_call = unknown_call

    def skycoord(ip_, node, args, kw, st):
        un = unit_of(st, kw["unit"]) if "unit" in kw else None
        for x in list(args[:2]) + [kw[k] for k in ("ra", "dec") if k in kw]:
            if not isinstance(x, V): continue
            c = cont(st, x); p = pure(c.unit)
            if p is None or Q in c.tags: continue
            labelled(node, st, c.unit, un, un is None or p == (un, 1))
        return ip.root(st, "ext:skycoord", {"kind": "opaque"})
    def regions(ip_, node, args, kw, st): return ip.root(st, "ext:regions", {"kind": "opaque"})
    ip.ext_hook = {**ip.ext_hook, "astropy.coordinates.SkyCoord": skycoord, "skimage.measure.regionprops": regions}

    # a position or a radius written into a query is in degrees
    i0 = ip.subscript
    def subscript(e, base, idx, st):
        # rows of a catalogue are a catalogue with the same columns
        os_ = [o for o in ip.objs(st, base) if o.get("root") in ("catalog", "table")]
        if os_ and len(idx) == 1 and not (isinstance(idx[0][1], V) and idx[0][1].consts): return base
        return i0(e, base, idx, st)
    ip.subscript = subscript
    j0 = ip.e_JoinedStr
    def joined(e, st):
        for a, b in zip(e.values, e.values[1:]):
            if isinstance(a, ast.Constant) and isinstance(b, ast.FormattedValue) and str(a.value).split("&")[-1] in ("RA=", "DEC=", "SR="):
                v = ip.eval(b.value, st)
                ip.emit("angle", e, fn=lambda ev: expect(ev, f"'{str(a.value).split('&')[-1]}' of a catalogue query", st, v, DEG), st=st)
        return j0(e, st)
    ip.e_JoinedStr = joined


def unit_(name, r, project):
    e = S3 if name == "s3" else entries.ENTRIES[name.split("/")[0]]
    e = entries.Entry(e.name, e.source, e.roots, {**e.specs, **UNITS.get(name, {}), "ext:regions[*].orientation": sc(RAD)}, inplace=e.inplace, dq=e.dq, options=e.options, step=e.step)
    ip, res, st = run_entry(project, e, lambda ip: angles(ip, r))
    r.functions |= functions_of(ip)
    for path, want in RESULT.get(name, {}).items():
        v = at(ip, st, res, path) if res is not None else None
        c = ip.content(st, v) if v is not None else None

        if c is None or not composed(c.unit): continue
        ok = c.unit == want
        r.oblige("an angle is returned in its documented unit", f"{name}:{path}", ok)
        if not ok: r.find("returned-unit", f"{name}:{path}", name, f"element {path} of the result is in {words(c.unit)}, documented in {words(want)}", ())


def run(rep):
    p = Project()
    rep.rules += ["trig-unit (sine, cosine and tangent get radians)", "conversion (an angle is converted from the unit it is in)", "mixed (angles are added and compared in one unit)",
                  "label (a number given a unit is in that unit)", "angle-unit (an angle handed to a library or stored under a documented name is in its documented unit)",
                  "returned-unit (returned angles are in their documented unit)"]
    rep.assumptions += ["a WCS reports sky positions in degrees; polygons on the sky have areas in steradians", "catalogues list positions in degrees, proper motions in milliarcseconds per year, parallaxes in milliarcseconds",
                        "angles whose unit is lost (library results not listed) are not judged"]
    run_units(rep, list(UNITS) + ["s3"], unit_, p)
    rep.floor("trigonometric functions get radians", 3)
    rep.floor("an angle is converted from the unit it is in", 3)
    rep.selftest("trig-unit", selftest("trig-unit"))
    rep.selftest("mixed", selftest("mixed"))


BAD = """
import numpy as np
def f(ra, radius):
    x = np.cos(ra)
    return x, 3600.0 * radius < ra
"""


def selftest(rule):
    p = mini("stcal._p14", BAD)
    e = entries.Entry("p14bad", "from stcal._p14 import f\ndef drive(ra, radius):\n    return f(ra, radius)\n", ["ra", "radius"], {"ra": sc(DEG), "radius": sc(DEG)})
    r = Result("self"); run_entry(p, e, lambda ip: angles(ip, r))
    return any(f.rule == rule for f in r.findings.values())
