"""P15: array axes keep their meaning (integration, group, row, column)."""
from sa import entries, axes as A
from sa.cmodel import CRun
from sa import cinterp as CI
from sa.runner import run_units, run_entry, functions_of, Result
from sa.project import Project
from sa.values import V
from checks.common import mini, at

NAMES = {"I": "integration", "G": "group", "Y": "row", "X": "column", "D": "dark integration", "N": "stack", "R": "resultant", "F": "frame"}
SAME = ({"D", "I"},)                              # dark integrations are matched with science integrations by number
def num(l, kind="idx"): return dict(kind="scalar", ax=(kind, l))


def seq(kind, order, optional=True): return dict(kind="seq", items=[num(l, kind) for l in order], optional=optional)


# a bounding box ((xmin, xmax), (ymin, ymax))
BOX = dict(kind="seq", items=[dict(kind="seq", items=[num(l), num(l)]) for l in "XY"], optional=True)
YX = seq("len", "YX"); XY = seq("len", "XY")


def wcs(label): return {label + ".bounding_box": BOX, label + ".array_shape": YX, label + ".pixel_shape": XY}


COORD = {
    "resample:utils": {**wcs("wcs_from"), **wcs("wcs_to"), "o.bbox": BOX, "o.oshape": YX, "o.oshape2": seq("len", "YX", False)},
    "resample:utils/nobox": {**{k: v for w in ("wcs_from", "wcs_to") for k, v in wcs(w).items()}, **{w + ".bounding_box": dict(kind="none") for w in ("wcs_from", "wcs_to")}, "o.bbox": dict(kind="none"), "o.oshape": YX, "o.oshape2": seq("len", "YX", False)},
    "resample:utils/box": {"wcs_from.bounding_box": dict(BOX, optional=False), "wcs_to.bounding_box": dict(BOX, optional=False), "o.bbox": dict(BOX, optional=False), "o.oshape": YX, "o.oshape2": seq("len", "YX", False)},
    "alignment:all/shape": {"o.oshape": seq("len", "YX", False), "o.oshape2": YX, "o.crpix": seq("idx", "XY", False), "o.swcs.bounding_box": dict(kind="none"), "o.bounding_box": BOX},
    "resample:stack": {**wcs("model1[wcs]"), **wcs("model2[wcs]"), **wcs("o.output_wcs[wcs]")},
    "alignment:all": {"o.oshape": YX, "o.oshape2": YX, "o.crpix": seq("idx", "XY"), "o.bounding_box": BOX, **wcs("ref_wcs"), **wcs("o.swcs")},
    "tweakreg:catalog": {"o.bounding_box": BOX, **{f"catalog[{c}]": dict(kind="array", axes=("K",), ax=("idx", l)) for c, l in (("xcentroid", "X"), ("ycentroid", "Y"), ("x", "X"), ("y", "Y"))}},
}
ENT = [n for n in entries.ENTRIES if n not in ("velocity:all",)]
UNITS = ["c"] + ENT + [n for n in COORD if "/" in n]
CUBE, IMG, SET = ("I", "G", "Y", "X"), ("Y", "X"), ("I", "Y", "X")


def nm(l): return NAMES.get(A.base(l), str(l))


def same(a, b):
    a, b = A.base(a), A.base(b)
    return a == b or {a, b} in SAME


def show(ax): return "(" + ", ".join(nm(x) for x in ax) + ")"


def watch(ip, r):
    def mism(ev):
        bad = tuple(A.base(x) for x in ev.bad)
        if same(*bad): return
        r.oblige("combined arrays have matching axes", ev.where(), False)
        r.find("axis-match", f"{ev.mod.rel}:{ev.qual}:{ev.op}:{':'.join(sorted(bad))}", ev.where(), f"'{ev.op}' combines an array over {show(ev.a)} with one over {show(ev.b)}", ev.path())

    def both(ev):
        a, b = (ip.models.axes_of(ev.st, ev.d[x]) for x in "ab")
        if a and b and any(A.known(x) for x in a) and any(A.known(x) for x in b): r.oblige("combined arrays have matching axes", ev.where(), True)
    ip.on("binop", both); ip.on("compare", both)

    def index(ev):
        lab, x = A.base(ev.label), A.base(ev.idx[1])
        if same(lab, x): return
        r.oblige("an index is used on its own axis", ev.where(), False)
        r.find("axis-index", f"{ev.mod.rel}:{ev.qual}:{lab}:{x}", ev.where(), f"{'an index' if ev.idx[0] == 'idx' else 'the length'} of the {nm(x)} axis is used on the {nm(lab)} axis", ev.path())

    def indexok(ev): r.oblige("an index is used on its own axis", f"{ev.where()}:{A.base(ev.label)}", True)

    def ilen(ev):
        r.oblige("an index is used on its own axis", ev.where(), False)
        r.find("length-as-index", f"{ev.mod.rel}:{ev.qual}:{A.base(ev.label)}", ev.where(), f"the length of the {nm(ev.label)} axis is used as an index on it, one past its end", ev.path())

    def arith(ev):
        k = {ev.a[0], ev.b[0]}
        if same(ev.a[1], ev.b[1]) or not (k in ({"idx", "len"}, {"idx", "lim"}) or k == {"idx"} and ev.op in ("<", "<=", ">", ">=")): return
        r.oblige("a position is compared with the length of its own axis", ev.where(), False)
        r.find("axis-bound", f"{ev.mod.rel}:{ev.qual}:{ev.op}:{':'.join(sorted((A.base(ev.a[1]), A.base(ev.b[1]))))}", ev.where(), f"a position on the {nm(ev.a[1])} axis is combined with a quantity of the {nm(ev.b[1])} axis", ev.path())

    def rank(ev):
        r.oblige("no more subscripts or axes than the array has", ev.where(), False)
        r.find("axis-rank", f"{ev.mod.rel}:{ev.qual}", ev.where(), f"an axis that the array does not have is addressed ({ev.kind})", ev.path())

    def diff(ev):
        ax = ev.d.get("axes")
        if not ax or "G" not in [A.base(x) for x in ax]: return
        ok = not A.known(ev.axis) or A.base(ev.axis) == "G"
        r.oblige("ramps are differenced along the group axis", ev.where(), ok)
        if not ok: r.find("difference-axis", f"{ev.mod.rel}:{ev.qual}:{A.base(ev.axis)}", ev.where(), f"samples of a ramp are differenced along the {nm(ev.axis)} axis, not along the groups", ev.path())
    ip.on("diffaxis", diff)
    ip.on("axis_mismatch", mism); ip.on("axis_index", index); ip.on("axis_index_ok", indexok); ip.on("index_len", ilen)
    ip.on("axis_arith", arith); ip.on("bad_axis", rank); ip.on("too_many_indices", rank)


PLANE = {"slope": (IMG, SET), "err": (IMG, SET), "dq": (IMG, SET), "var_poisson": (IMG, SET), "var_rnoise": (IMG, SET), "chisq": (IMG, SET)}
RESULT = {**{n: {"[0]": CUBE, "[1]": IMG} for n in ("jump:uniform", "jump:pattern", "jump:defaults")},
          **{n: {"[0].data": CUBE, "[0].groupdq": CUBE, "[0].pixeldq": IMG} for n in ("dark:3d", "dark:4d")},
          "saturation:nopattern": {"[0]": CUBE, "[1]": IMG, "[2]": SET}, "saturation:pattern": {"[0]": CUBE, "[1]": IMG, "[2]": SET},
          **{n: {"[0]": CUBE, "[1]": IMG, "[2]": SET} for n in ("linearity:simple", "linearity:readlevel", "linearity:readlevel_noadd")},
          **{n: {f"[{i}][{k}]": v[i] for i in (0, 1) for k, v in PLANE.items()} for n in ("ramp:LIKELY", "ramp:LIKELY_opt", "likely:jumpdata")},
          "outlier:utils": {"[2]": IMG, "[3]": IMG}, "median:mem": {"[1]": IMG}, "median:disk": {"[1]": IMG},
          "skymatch:match": {f"[{i}].{k}": IMG for i in range(3) for k in ("image", "mask")}, "skymatch:local": {f"[{i}].{k}": IMG for i in range(3) for k in ("image", "mask")}}


def unit_(name, r, project):
    if name == "c": return c_part(r)
    def setup(ip): watch(ip, r); coordinates(ip, r)
    e = entries.ENTRIES[name.split("/")[0]]
    e = entries.Entry(e.name, e.source, e.roots, {**e.specs, **REGIONS, **COORD.get(name, {})}, inplace=e.inplace, dq=e.dq, options=e.options, step=e.step)
    ip, res, st = run_entry(project, e, setup)
    r.functions |= functions_of(ip)
    for path, want in RESULT.get(name, {}).items():
        v = res is not None and at(ip, st, res, path)
        for o in (ip.objs(st, v) if v else ()):
            ax = o.get("axes") if o.kind == "array" else None
            if ax is None: continue
            ok = len(ax) == len(want) and all(not A.known(x) or same(x, w) for x, w in zip(ax, want))
            r.oblige("returned planes have their documented axes", f"{name}:{path}", ok)
            if not ok: r.find("plane-axes", f"{name.split(':')[0]}:{path}", name, f"element {path} of the result is over {show(ax)}, documented over {show(want)}", ())


# ---------------------------------------------------------------- pixel coordinates
TO_WORLD = ("pixel_to_world_values", "pixel_to_world", "__call__")
TO_PIXEL = ("world_to_pixel_values", "world_to_pixel", "invert")
KEYWORDS = {"xmin": "X", "xmax": "X", "ymin": "Y", "ymax": "Y"}
FIELDS = {"array_shape": "YX", "pixel_shape": "XY", "bounding_box": "XY"}
REGION = {"kind": "opaque"}
REGIONS = {k: dict(kind="seq", items=[num("Y"), num("X")]) for k in ("ext:regions[*].centroid", "ext:regions[*].centroid_weighted")}
POSITIONS = {"skimage.draw.ellipse": "YX", "skimage.draw.disk": "YX", "scipy.interpolate.RectBivariateSpline": "YX"}


def coordinates(ip, r):
    ip.coords = True
    def lab(st, v):
        c = ip.content(st, v)
        return A.base(c.ax[1]) if c.ax and A.known(c.ax[1]) else None

    def expect(ev, what, v, want):
        if not hasattr(v, "refs"): return
        x = lab(ev.st, v)
        if x is None: return
        ok = same(x, want)
        r.oblige("a coordinate is used along its own axis", f"{ev.where()}:{want}", ok)
        if not ok: r.find("coordinate", f"{ev.mod.rel}:{ev.qual}:{what}:{want}", ev.where(), f"a {nm(x)} coordinate is passed to {what} as the {nm(want)} coordinate", ev.path())

    def call(ev):
        t = ev.name.split(".")[-1]
        for n, order in POSITIONS.items():
            if t == n.split(".")[-1] and ev.name.split(".")[0] == n.split(".")[0]:
                for v, w in zip(ev.args, order): expect(ev, t, v, w)
        if t == "dstack" and ev.args:
            its = ip.known_items(ev.st, ev.args[0])
            if its and len(its) == 2:
                for v, w in zip(its, "XY"): expect(ev, "pixmap", v, w)
    ip.on("extcall", call)

    def meth(ev):
        if ev.name in TO_WORLD and len(ev.args) >= 2:
            for v, w in zip(ev.args, "XY"): expect(ev, ev.name, v, w)
        for k, w in KEYWORDS.items():
            if k in ev.kw: expect(ev, f"{ev.name}({k}=)", ev.kw[k], w)
    ip.on("methcall", meth)

    def other(ev):
        n = str(ev.d.get("name", ""))
        for f, order in POSITIONS.items():
            if n.endswith(f.split(".")[-1] + "()"):
                for v, w in zip(ev.args, order): expect(ev, f.split(".")[-1], v, w)
        tail = n.split(".")[-1]
        if (tail in TO_WORLD or tail.split("[")[-1].rstrip("]").endswith("wcs") or tail.startswith("wcs")) and len(ev.args) >= 2:
            for v, w in zip(ev.args, "XY"): expect(ev, "a transformation to the sky", v, w)
        for k, w in KEYWORDS.items():
            if k in ev.kw: expect(ev, f"{tail}({k}=)", ev.kw[k], w)
    ip.on("unkcall", other)

    def field(ev):
        order = FIELDS.get(ev.name)
        for o in (ip.objs(ev.st, ev.value) if order else ()):
            its = o.get("items")
            if o.kind not in ("tuple", "list") or not its or len(its) != 2: continue
            inner = [ip.known_items(ev.st, v) or [v] for v in its]
            # elements that were not told apart (a summary of a loop over both axes) say nothing about the order
            if [[lab(ev.st, x) for x in i] for i in inner][0] == [lab(ev.st, x) for x in inner[1]]: continue
            for i, w in zip(inner, order):
                for x in i: expect(ev, ev.name, x, w)
    ip.on("setattr", field)

    # regions found in an image report their centre as (row, column)
    ip.ext_hook = {**ip.ext_hook, "skimage.measure.regionprops": lambda ip, node, args, kw, st: ip.root(st, "ext:regions", REGION)}
    # positions on the sky become pixel positions
    def pixels(node, st, args, r):
        d = r.deps.union(*[ip.alldeps(st, a) for a in args if isinstance(a, V)])
        its = [ip.new_array(st, node, V(unk=True, deps=d, ax=("idx", l)), None, tag=f":pix{l}") for l in "XY"]
        return ip.alloc(st, node, "tuple", tag=":pix", items=its)

    def wrap(base, named):
        def f(node, *a):
            r = base(node, *a)
            n, args, st = named(a)
            if n in TO_PIXEL and len(args) >= 1: return pixels(node, st, args, r)
            return r
        return f
    m = ip.models
    m.method1 = wrap(m.method1, lambda a: (a[1], a[2], a[4]))
    def called(a):
        n = None
        for o in ip.objs(a[3], a[0]):
            n = (o.get("root") or o.get("exttype") or "").split(".")[-1]
        return n, a[1], a[3]
    m.unknown_call = wrap(m.unknown_call, called)


# ---------------------------------------------------------------- compiled fitter
PRODUCT = {0: IMG, 1: SET}                        # image product, per-integration product, optional product


def c_part(r):
    c = CRun(); ip = c.ip
    r.functions |= {("slope_fitter.c", f) for f in c.funcs}
    one = lambda k: k[1][0] if isinstance(k, tuple) and k[0] == "L" and len(k[1]) == 1 else (next(iter(k[1]))[0] if isinstance(k, tuple) and k[0] == "T" and len(k[1]) == 1 and not next(iter(k[1]))[1] else None)
    for node, d in c.ev["kind_pair"]:
        a, b = d["a"].kind, d["b"].kind
        x, y = one(a), one(b)
        if x is None or y is None or a[0] == b[0]: continue
        ok = x == y
        r.oblige("a loop index runs to the length of its own axis (compiled)", d["where"], ok)
        if not ok: r.find("axis-bound", f"c:{d['func']}:{':'.join(sorted((x, y)))}", d["where"], f"an index of the {nm(x)} axis is combined with a quantity of the {nm(y)} axis", d["path"])
    # each dynamically allocated array has one row-major layout of the axes it was allocated for
    ext = {}
    for node, d in c.ev["alloc"]:
        k = d["n"].kind
        if isinstance(k, tuple) and k[0] == "L": ext[d["loc"]] = set(k[1])
    uses = {}
    for node, d in c.ev["index"]:
        t = d["terms"]
        if t is None or not t: continue
        loc = d["loc"]
        r.oblige("array subscripts follow one row-major layout (compiled)", d["where"], True)
        for ax, stride in t:
            if loc in ext and ax not in ext[loc]:
                r.find("axis-index", f"c:{d['func']}:{ax}:{','.join(sorted(ext[loc]))}", d["where"], f"an index of the {nm(ax)} axis is used on an array allocated over {show(sorted(ext[loc]))}", d["path"])
            uses.setdefault(loc, {}).setdefault((ax, tuple(sorted(stride))), (d["where"], d["path"], d["func"]))
    for loc, ts in uses.items():
        strides = {}
        for (ax, s), w in ts.items(): strides.setdefault(ax, []).append((s, w))
        for ax, ss in strides.items():
            if len(ss) > 1:
                s, w = ss[-1]
                r.find("axis-layout", f"c:{w[2]}:{ax}:{','.join(s)}", w[0], f"the {nm(ax)} index of one array is scaled by the lengths of {show(s) if s else 'no axis'} here and by {show(ss[0][0]) if ss[0][0] else 'no axis'} elsewhere ({ss[0][1][0]})", w[1])
        if all(len(s) == 1 for s in strides.values()):
            flat = frozenset((ax, s[0][0]) for ax, s in strides.items())
            full = loc in ext and set(strides) == ext[loc]
            if full and CI.layout(flat) is None:
                w = next(iter(ts.values()))
                r.find("axis-layout", f"c:{w[2]}:{sorted(strides)}", w[0], "the subscripts of an array do not form a row-major layout of its axes: " + ", ".join(f"{nm(a)} index times {show(s[0][0]) if s[0][0] else '1'}" for a, s in sorted(strides.items())), w[1])
    for node, d in c.ev["getptr"]:
        for a in d["arrs"]:
            axes = ip.nparr.get(a, {}).get("axes")
            if axes is None: continue
            if len(axes) != d["n"]:
                r.oblige("array subscripts address their own axes (compiled)", d["where"], False)
                r.find("axis-rank", f"c:{d['func']}:{a if isinstance(a, str) else 'product'}", d["where"], f"{d['n']} subscripts on an array over {len(axes)} axes", d["path"]); continue
            for ax, v in zip(axes, d["idx"]):
                x = one(v.kind)
                if ax is None or x is None: continue
                ok = x == ax and v.kind[0] == "T"
                r.oblige("array subscripts address their own axes (compiled)", f"{d['where']}:{ax}", ok)
                if not ok: r.find("axis-index", f"c:{d['func']}:{a if isinstance(a, str) else 'product'}:{ax}:{x}", d["where"], f"{'an index' if v.kind[0] == 'T' else 'the length'} of the {nm(x)} axis is used on the {nm(ax)} axis of {a if isinstance(a, str) else 'a product'}", d["path"])
    for k, (pos, items, where) in c.products().items():
        for key, arrs in items.items():
            for a in arrs:
                axes = ip.nparr.get(a, {}).get("axes")
                if axes is None: continue
                want = PRODUCT.get(pos) or (SET if len(axes) == 3 else ("I", None, "Y", "X"))
                ok = len(axes) == len(want) and all(w is None or x is None or w == x for w, x in zip(want, axes))
                r.oblige("product planes have their documented axes (compiled)", f"{pos}:{key}", ok)
                if not ok: r.find("plane-axes", f"c:{pos}:{key}", ip.nparr[a].get("where", where), f"plane '{key}' is allocated over {show([x or '?' for x in axes])}, documented over {show([x or 'segment' for x in want])}", [])


def run(rep):
    p = Project()
    rep.rules += ["axis-match (arrays are combined, stored and masked axis by axis)", "axis-index (an index or a length of one axis is not used on another)",
                  "axis-bound (a position is compared with and limited by the length of its own axis)", "axis-rank (no axis is addressed that the array does not have)",
                  "axis-layout (linear subscripts of the compiled fitter follow one row-major layout)", "coordinate (x and y reach coordinate transformations, drawing and drizzling in the right places)",
                  "plane-axes (returned planes have their documented axes)"]
    rep.assumptions += ["axes whose meaning is lost (library results, boolean selections) are not judged", "dark integrations are matched with science integrations by number",
                        "a bounding box is ((xmin, xmax), (ymin, ymax)), an array shape (rows, columns)"]
    run_units(rep, UNITS, unit_, p)
    rep.floor("combined arrays have matching axes", 30)
    rep.floor("an index is used on its own axis", 30)
    rep.floor("array subscripts address their own axes (compiled)", 20)
    rep.floor("a coordinate is used along its own axis", 3)
    rep.selftest("axis-index", selftest("axis-index"))
    rep.selftest("axis-bound", selftest("axis-bound"))


BAD = """
import numpy as np
def f(data, out):
    ny, nx = data.shape
    for i in range(ny):
        out[:, i] = data[i, 0]
        if i < nx: out[0, 0] = 1
"""


def selftest(rule):
    p = mini("stcal._p15", BAD)
    e = entries.Entry("p15bad", "from stcal._p15 import f\ndef drive(data, out):\n    return f(data, out)\n", ["data", "out"],
                      {"data": dict(kind="array", axes=IMG), "out": dict(kind="array", axes=IMG)})
    r = Result("self"); run_entry(p, e, lambda ip: watch(ip, r))
    return any(f.rule == rule for f in r.findings.values())
