"""P20: alignment checks its input before it changes anything; its documented failures surface as the alignment error; catalogue
queries with an epoch return only sources with measured motion."""
import ast, math
from sa import entries
from sa.interp import Interp
from sa.project import Project, AnalysisBroken
from sa.runner import run_units, functions_of, Result
from sa.values import V
from checks.common import mini

ENT = entries.ENTRIES
ALIGN = "tweakwcs.imalign.align_wcs"
ERROR = "TweakregError"
DRIVERS = {"tweakreg:relative": ("o.separation", "o.tolerance", None), "tweakreg:absolute": ("o.abs_separation", "o.abs_tolerance", "o.abs_minobj")}
# messages with which the alignment library reports conditions that have a documented error of their own
FEW = "Too few input images (or groups of images) with non-empty catalogs."
MANY = "Number of output coordinates exceeded allocation (1000). Multiple sources within specified tolerance matched to a single reference source."
FAIL = {"relative-few": ("tweakreg:relative", "ValueError", FEW, True), "relative-many": ("tweakreg:relative", "RuntimeError", MANY, True),
        "absolute-few": ("tweakreg:absolute", "ValueError", FEW, True), "absolute-many": ("tweakreg:absolute", "RuntimeError", MANY, True),
        "relative-other": ("tweakreg:relative", "ValueError", "something else", False),
        "relative-other2": ("tweakreg:relative", "RuntimeError", "something else", False),
        "absolute-other": ("tweakreg:absolute", "ValueError", "something else", False),
        "absolute-other2": ("tweakreg:absolute", "RuntimeError", "something else", False)}
CAT = """
from stcal.tweakreg.astrometric_utils import get_catalog

def drive(ra, dec, radius, timeout, epoch):
    return get_catalog(ra, dec, epoch=epoch, search_radius=radius, catalog="%s", timeout=timeout)
"""
CATSPEC = {"ra": dict(kind="scalar"), "dec": dict(kind="scalar"), "radius": dict(kind="scalar"), "timeout": dict(kind="scalar"), "epoch": dict(kind="const", value=2016.5),
           "tab": dict(kind="opaque", exttype="Rows")}
NEED = ("pmra", "pmdec")
for c in ("pmra", "pmdec", "parallax", "ra", "dec", "ref_epoch"):
    CATSPEC[f"tab[{c}]"] = dict(kind="opaque"); CATSPEC[f"tab[{c}].mask"] = dict(kind="opaque", tags=["isnan:" + c])


def inputs(g):
    """the inputs a known condition looks at"""
    if len(g) == 4: return set(g[0]) | set(g[2])
    return set(g[0]) if g[1] == "dep" else set()


def separation_guard(guards, sep, tol):
    """'ok', 'wrong: ...', or None when nothing on the way compares the two"""
    res = None
    for g in guards:
        if len(g) == 4 or g[1] == "dep":
            if {sep, tol} <= inputs(g): res = res or "ok?"
            continue
        d = {m: float(c) for m, c in g[0].t}
        if set(d) != {(sep,), (tol,)}: continue
        cs, ct, rel, want = d[(sep,)], d[(tol,)], g[1], g[2]
        if not want: rel = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[rel]
        if cs < 0: rel = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(rel, rel)
        k = -ct / cs
        if rel == ">" and abs(k - math.sqrt(2)) < 1e-6: return "ok"
        res = f"wrong: what holds afterwards is separation {rel} {k:.6g} * tolerance"
    return res if res != "ok?" else "ok"


def minobj_guard(guards, minobj):
    res = None
    for g in guards:
        if len(g) != 4: continue
        a, op, b, want = g
        if (minobj in a) == (minobj in b):
            continue
        if minobj in a: op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if not want: op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
        if op == ">=": return "ok"
        res = f"wrong: what holds afterwards is 'number of sources {op} minimum'"
    if res is None and any(len(g) == 3 and g[1] == "dep" and minobj in g[0] for g in guards): return "ok"
    return res


def drive(en_src, roots, specs, name, project, setup):
    ip = Interp(project)
    setup(ip)
    r, st, dead = ip.run_driver(name, en_src, roots, specs)
    return ip, r, st, dead


def touched(ip, st, v):
    """does the value reach the caller's correctors"""
    for o in ip.objs(st, v):
        ow = ip.owner(st, o)
        if ((ow.get("root") if ow is not None else None) or "").startswith("correctors"): return True
    return False


def order(name, r, project, en=None):
    en = en or ENT[name]
    sep, tol, minobj = DRIVERS[name]
    calls = []; ends = []
    def judge(ev, what):
        g = ev.st.guards
        s = separation_guard(g, sep, tol)
        r.oblige("separation checked before an effect", f"{name} {ev.where()} {what}", s == "ok")
        if s != "ok":
            r.find("effect-before-check", f"{name}:separation", ev.where(),
                   f"{what} although 'separation' has not been found larger than sqrt(2) times 'tolerance'" + (f" ({s})" if s else ""), ev.path())
        if minobj:
            s = minobj_guard(g, minobj)
            r.oblige("number of reference sources checked before an effect", f"{name} {ev.where()} {what}", s == "ok")
            if s != "ok":
                r.find("effect-before-check", f"{name}:minobj", ev.where(),
                       f"{what} although the number of reference sources has not been compared with the minimum" + (f" ({s})" if s else ""), ev.path())
    def setup(ip):
        ip.want_guards = True
        def he(ev):
            if ev.name == ALIGN: calls.append(ev); judge(ev, "the images are aligned")
        ip.on("extcall", he)
        def hs(ev):
            v = ev.d.get("base") or ev.d.get("obj")
            os_ = ev.d.get("objs")
            hit = False
            if isinstance(v, V): hit = touched(ip, ev.st, v)
            elif v is not None and hasattr(v, "kind"): hit = touched(ip, ev.st, V(refs=frozenset([v.id])))
            if os_: hit = hit or any(touched(ip, ev.st, V(refs=frozenset([o.id]))) for o in os_)
            if hit: judge(ev, "a corrector is changed")
        for k in ("store_item", "setattr", "mutate", "store"): ip.on(k, hs)
        def hr(ev):
            g = ev.st.guards
            low = any({sep, tol} <= inputs(x) for x in g)
            if low and separation_guard(g, sep, tol) not in ("ok",) and not any(c for c in calls):
                n = ip.exc_name(ev.st, ev.value)
                r.oblige("refusal raises the alignment error", f"{name} {ev.where()}", n == ERROR)
                if n not in (ERROR, "?"):
                    r.find("raw-error", f"{name}:separation", ev.where(), f"a too small separation is refused with {n}, not with {ERROR}", ev.path())
            if minobj and any(len(x) == 4 and ((minobj in x[0]) != (minobj in x[2])) for x in g) and minobj_guard(g, minobj) != "ok" and not calls:
                n = ip.exc_name(ev.st, ev.value)
                r.oblige("refusal raises the alignment error", f"{name} {ev.where()}", n == ERROR)
                if n not in (ERROR, "?"):
                    r.find("raw-error", f"{name}:minobj", ev.where(), f"too few reference sources are reported with {n}, not with {ERROR}", ev.path())
        ip.on("raise", hr)
    ip, res, st, dead = drive(en.source, en.roots, en.specs, name.replace(":", "_"), project, setup)
    r.functions |= functions_of(ip)
    if dead: raise AnalysisBroken(f"{name} never returns normally")
    if not calls:
        r.find("never-aligns", name, name, "no path of the driver reaches the alignment of the images")
    if name == "tweakreg:relative":
        # the correction was found small before the correctors are handed back
        ok = any(any(a.startswith("correctors") for a in inputs(g)) and
                 (inputs(g) & {"o.searchrad", "o.xoffset"}) for g in st.guards)
        r.oblige("large corrections are refused", name, ok)
        if not ok:
            r.find("large-correction-accepted", name, name, "the relative alignment returns without having compared the size of the corrections with the search radius and tolerance")
    return ip


def failure(key, r, project, en=None):
    name, exc, msg, translate = FAIL[key]
    en = en or ENT[name]
    last = []; handled = []
    def setup(ip):
        ip.inject = {ALIGN: (exc, msg)}
        ip.on("raise", lambda ev: last.append(ev))
        ip.on("handled", lambda ev: handled.append(ev))
    ip, res, st, dead = drive(en.source, en.roots, en.specs, name.replace(":", "_"), project, setup)
    r.functions |= functions_of(ip)
    got = ip.pending[0] if ip.pending else None
    ok = dead and (got == ERROR or (not translate and got in (exc, ERROR)))
    r.oblige("failure of the alignment library", f"{name}: {exc}({msg[:40]!r})", ok)
    where = (last[-1] if last else handled[-1] if handled else None)
    if not ok:
        what = f"surfaces as {got}" if dead and got else "is swallowed: the alignment returns as if it had succeeded"
        r.find("failure-not-reported", f"{name}:{key}", where.where() if where else name,
               f"{exc} '{msg[:60]}' from the alignment library {what}" + (f" instead of {ERROR}" if translate else ""))


def network(exc, r, project, src=None):
    last = []
    def setup(ip):
        ip.inject = {"requests.get": (exc, "x")}
        ip.on("raise", lambda ev: last.append(ev))
    ip, res, st, dead = drive(src or CAT % "GAIADR3", ["ra", "dec", "radius", "timeout", "epoch"], CATSPEC, "catalog_" + exc, project, setup)
    r.functions |= functions_of(ip)
    got = ip.pending[0] if ip.pending else None
    ok = dead and got in (exc, "ConnectionError" if exc == "ConnectTimeout" else exc)
    r.oblige("failure of the catalogue service", exc, ok)
    if not ok:
        r.find("failure-not-reported", f"catalog:{exc}", last[-1].where() if last else "catalogue query",
               f"{exc} of the catalogue service " + (f"surfaces as {got}" if dead else "is swallowed and the query returns"))


def motions(cat, r, project, src=None):
    def setup(ip):
        tab = lambda ip, node, args, kw, st: ip.root(st, "tab")
        ip.want_hasattr = True
        ip.ext_hook = {"astropy.table.Table.read": tab, "astropy.table.Table": tab}
    ip, res, st, dead = drive(src or CAT % cat, ["ra", "dec", "radius", "timeout", "epoch"], CATSPEC, "catalog_" + cat, project, setup)
    r.functions |= functions_of(ip)
    if dead: raise AnalysisBroken(f"catalogue query {cat} never returns")
    os_ = [o for o in ip.objs(st, res) if o.get("exttype") == "Rows"]
    if not os_: raise AnalysisBroken(f"the table returned by the catalogue query {cat} is not followed")
    for o in os_:
        deps, tags = set(o.get("rowdeps") or ()), set(o.get("rowtags") or ())
        for c in NEED:
            seen = any(d.startswith(f"tab[{c}]") for d in deps)
            if any(t in tags for x in NEED for t in ("isnan:" + x, "isfinite:" + x)) or f"tab[{c}].mask" in deps: seen = "isfinite:" + c in tags or "isnan:" + c in tags
            inv = "isnan:" + c in tags
            r.oblige("sources without measured motion are dropped", f"{cat} {c} {o.id}", seen and not inv)
            if not seen or inv:
                r.find("motion-not-required", f"{cat}:{c}", f"catalogue query {cat}",
                       f"with an epoch given the query returns sources " + (f"that have no {c}" if not inv else f"only without {c}"))


GOOD = """
from tweakwcs.imalign import align_wcs
class TweakregError(BaseException):
    pass
def check(a, b):
    if not a > 1.4142135623730951 * b:
        raise TweakregError("x")
def relative_align(correctors, o):
    check(o.separation, o.tolerance)
    try:
        align_wcs(correctors)
    except ValueError as e:
        if str(e).startswith("Too few"):
            raise TweakregError("few") from e
        raise
    if correctors[0].size > o.searchrad + o.tolerance:
        raise TweakregError("large")
    return correctors
"""
BAD = GOOD.replace("    check(o.separation, o.tolerance)\n", "").replace("startswith(\"Too few\")", "startswith(\"few\")")
MINI_SRC = """
from stcal.tweakreg.selftest import relative_align

def drive(correctors, o):
    return relative_align(correctors, o)
"""
BADCAT = """
from astropy.table import Table

def drive(ra, dec, radius, timeout, epoch):
    t = Table.read("x")
    mask = t["pmra"].mask
    return t[mask]
"""


class MiniEn:
    source = MINI_SRC; roots = ["correctors", "o"]; specs = ENT["tweakreg:relative"].specs


def selftests(rep):
    for src, name, want in ((GOOD, "quiet on a checked alignment", 0), (BAD, "separation check and error translation", 2)):
        r = Result("selftest"); p = mini("stcal.tweakreg.selftest", src)
        order("tweakreg:relative", r, p, MiniEn)
        failure("relative-few", r, p, MiniEn)
        rules = {f.rule for f in r.findings.values()}
        rep.selftest(name, (rules == {"effect-before-check", "failure-not-reported"}) if want else not rules)
    r = Result("selftest"); motions("selftest", r, Project(), BADCAT)
    rep.selftest("motion filter", len(r.findings) == 2)


def unit(u, r, project):
    k, _, a = u.partition(" ")
    {"order": order, "failure": failure, "network": network, "motion": motions}[k](a, r, project)


def run(rep):
    project = Project()
    selftests(rep)
    units = ["order " + n for n in DRIVERS] + ["failure " + k for k in FAIL] + ["network " + e for e in ("ConnectionError", "Timeout", "RequestException")] + \
            ["motion GAIADR3", "motion GAIADR3_S3"]
    run_units(rep, units, unit, project)
    rep.rules += ["every alignment call and every change to a corrector is preceded on all paths by the separation and source-count checks, whose refusal raises the alignment error",
                  "a failure of the alignment library with a documented message, simulated at the call, leaves the driver as the alignment error; other failures are not swallowed",
                  "a failure of the catalogue service leaves the query as the same kind of error",
                  "tables returned for an epoch are selected by the presence of both proper motion columns"]
    rep.assumptions += ["tweakwcs reports too few images and source confusion with its documented messages", "catalogue tables mark missing values in column masks"]
    rep.floor("separation checked before an effect", 3)
    rep.floor("number of reference sources checked before an effect", 2)
    rep.floor("failure of the alignment library", 8)
    rep.floor("failure of the catalogue service", 3)
    rep.floor("sources without measured motion are dropped", 4)
    rep.floor("large corrections are refused", 1)
