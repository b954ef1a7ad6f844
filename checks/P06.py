"""P06: row sections tile the image: consecutive, disjoint, complete, and written back to the rows they came from."""
import ast
from sa import entries
from sa.project import Project
from sa.runner import run_units, run_entry, functions_of, Result
from sa.values import Lin, DEFS, struct
from sa import axes as A

ENT = dict(entries.ENTRIES)
MED = '''
from stcal.outlier_detection.median import MedianComputer
def drive(img1, img2, cube, o):
    mc = MedianComputer(cube.shape, False, o.buffer_size, o.odtype, o.tempdir)
    mc.append(img1, 0)
    mc.append(img2, 1)
    return mc.evaluate()
'''
ENT["median:sections"] = entries.Entry("median:sections", MED, ["img1", "img2", "cube", "o"], ENT["median:disk"].specs, step="median")
UNITS = [n for n in ENT if n.startswith(("jump:", "ramp:", "linearity:")) or n == "median:sections"]
SPLIT = "o.buffer_size"
ONE, ZERO = Lin.const(1), Lin.const(0)
NY = Lin.sym("NY")


REL = {">": lambda x: x > 0, ">=": lambda x: x >= 0, "<": lambda x: x < 0, "<=": lambda x: x <= 0, "==": lambda x: x == 0, "!=": lambda x: x != 0}


class Slice:
    def __init__(self, ev, ip):
        self.where = ev.where(); self.line = ev.line; self.path = ev.path(); self.qual = ev.qual
        self.lo = ev.lo.sym if ev.lo is not None else ZERO
        self.hi = ev.hi.sym if ev.hi is not None else NY
        self.facts = ev.facts; self.store = ev.store


def counters(ip, p):
    """counter symbols (also those inside structured symbols) of a polynomial"""
    out = set()
    for s in p.symbols():
        if s in DEFS and s not in ip.counts:
            for a in DEFS[s][1]: out |= counters(ip, a)
        elif s in ip.counts: out.add(s)
    return out


def uncap(p):
    """the bound a capped end would have: min(x, NY) -> x"""
    d = DEFS.get(p.only()) if p is not None and p.only() else None
    if d is not None and d[0] == "min" and NY in d[1]:
        rest = [a for a in d[1] if a != NY]
        if len(rest) == 1: return rest[0], True
    if d is not None and d[0].startswith("sel:") and NY in d[1] and len(d[1]) == 2:
        rest = [a for a in d[1] if a != NY]
        if len(rest) == 1: return rest[0], "last"
    return p, False


def sign(p, zero=()):
    """'0', '+' (positive for some size), '-' (never positive) or '?'"""
    if not p.t: return "0"
    v = p.value()
    if v is not None: return "+" if v > 0 else "-"
    for z in zero:
        for c in (1, -1):
            if p == z or p == -z: return "0"
    opaque = any(s.startswith(("phi:", "end:")) for s in p.symbols())
    for s in p.symbols():
        d = DEFS.get(s)
        if d is None or len(d[1]) != 2: continue
        n, b = d[1]
        if d[0] == "//": rem = n - b * Lin.sym(s)          # 0 <= rem < b
        elif d[0] == "ceil": rem = b * Lin.sym(s) - n      # 0 <= rem < b
        else: continue
        for c in (1, -1):
            rest = p - rem if c == 1 else p + rem           # p = rest + c*rem
            if c == 1 and all(k > 0 for _, k in rest.t): return "+"
            if c == -1 and all(k < 0 for _, k in rest.t): return "-"
            if c == -1 and all(k > 0 for _, k in (rest - b).t): return "+"
            if c == 1 and all(k < 0 for _, k in (rest + b).t): return "-"
    if not opaque and all(c > 0 for _, c in p.t): return "+"
    if not opaque and all(c < 0 for _, c in p.t): return "-"
    return "?"


def zeros(facts):
    """quantities a branch says are not positive (they are counts, hence zero)"""
    return [p for p, rel, want in facts if (rel, want) in ((">", False), ("!=", False), ("==", True), ("<=", True), (">=", None))]


def judge(group, ip, r, step, name):
    """one family of row sections of one array in one place"""
    key = f"{step}:{name}"
    def bad(sl, rule, text): r.find(rule, f"{key}:{sl.qual.rsplit('.', 1)[-1]}", sl.where, f"step '{step}': {text}", sl.path)
    phis = [s for s in group if s.lo.only() in ip.recs and ip.recs[s.lo.only()][0] is not None]
    rest = [s for s in group if s not in phis]
    # the first pass over a loop sees the starting value of a carried bound
    for p in phis:
        sym = p.lo.only(); init = ip.recs[sym][0]
        rest = [s for s in rest if not (s.line == p.line and s.lo == init)]
    loops = [s for s in rest if counters(ip, s.lo)]
    tail = [s for s in rest if s not in loops]
    ok = True
    for s in phis:
        init, nxt, _, times = ip.recs[s.lo.only()]
        hi, capped = uncap(s.hi)
        if init.value() not in (None, 0): bad(s, "section-start", f"the first row section starts at row {init}, not at row 0"); ok = False
        n2, _ = uncap(nxt)
        if sign(n2 - hi) in "+-" or any(x in str(n2 - hi) for x in ("elem:",)) and set((n2 - hi).symbols()) <= set(ip.elems):
            bad(s, "section-gap", f"a row section ends at {show(hi)} but the next starts at {show(n2)}"); ok = False
        stepp = hi - s.lo
        r.oblige("row section", f"{s.where} {show(s.lo)} {show(s.hi)}", True)
        e = ip.elems.get(stepp.only())
        if e is not None and not capped:
            ks = counters(ip, e[1])
            n = ip.counts.get(next(iter(ks))) if len(ks) == 1 else None
            for oid in e[0]:
                o = ip.last_state.heap.get(oid)
                if o is None: continue
                ll, ls, zf = o.get("llen"), o.get("lsum"), zeros(o.get("lfacts") or ())
                if ls is not None:
                    d = NY - ls - init
                    sg = sign(d, zf)
                    r.oblige("sections cover all rows", f"{s.where} {oid}", sg != "+")
                    if sg == "+" or (sg == "-" and d.value() is not None):
                        bad(s, "rows-uncovered", f"the row sections together have {show(ls)} rows, not {show(NY)}"); ok = False
                if ll is not None and n is not None and (n - ll).value() not in (None, 0):
                    bad(s, "rows-uncovered", f"{show(n)} row sections are processed, not {show(ll)}"); ok = False
        elif not capped and times is not None and not counters(ip, stepp) and not any(x.startswith(("phi:", "elem:", "end:")) for x in stepp.symbols()):
            d = NY - init - times * stepp
            sg = sign(d)
            r.oblige("sections cover all rows", f"{s.where} {show(stepp)}", sg != "+")
            if sg == "+":
                bad(s, "rows-uncovered", f"the row sections together have {show(times * stepp)} rows, not {show(NY)}"); ok = False
    for s in loops:
        es = [x for x in (s.lo * ONE).symbols() if x in ip.elems]
        if es and s.lo.only() is None and any(len(m) > 1 and set(m) & set(es) for m, _ in s.lo.t):
            bad(s, "section-gap", f"the start of a row section is a multiple of its own length ({show(s.lo)}), but the sections differ in length"); ok = False
            continue
        ks = counters(ip, s.lo)
        if len(ks) != 1: continue
        k = next(iter(ks)); n = ip.counts.get(k)
        inc = s.lo.subst(k, Lin.sym(k) + ONE) - s.lo
        if inc.value() in (1, -1) or not inc.t: continue          # a window sliding along the rows, not a section
        r.oblige("row section", f"{s.where} {show(s.lo)} {show(s.hi)}", True)
        lo0 = s.lo.subst(k, ZERO)
        if sign(lo0) in "+-" and not any(t.hi == lo0 for t in tail):
            bad(s, "section-start", f"the first row section starts at row {show(lo0)}, not at row 0"); ok = False
        at = [(p, want) for p, rel, want in s.facts if k in p.symbols() and rel in ("==", "!=") and (rel == "==") == want]
        hi, capped = uncap(s.hi)
        if at:
            p = at[-1][0]; c = p.d().get((k,), 0)
            if c in (1, -1) and n is not None:
                pos = (Lin.sym(k) - p) if c == 1 else (p + Lin.sym(k))
                dv = (pos - n + ONE).value()
                if dv not in (None, 0):
                    bad(s, "section-last", f"the special case for the last row section applies to section {show(pos)} of {show(n)}"); ok = False
            continue
        delta = s.lo.subst(k, Lin.sym(k) + ONE) - hi
        if k in delta.symbols() or sign(delta) in "+-":
            same = [t for t in loops if t is not s and t.lo == s.lo]
            if hi != NY or not same:
                word = "overlap: one" if sign(-delta) == "+" else "do not meet: one"
                bad(s, "section-gap", f"row sections {word} ends at {show(hi)} and the next starts at {show(s.lo.subst(k, Lin.sym(k) + ONE))}"); ok = False
            continue
        # where does the last one end?
        if n is None: continue
        end = hi.subst(k, n - ONE)
        finals = [t for t in tail if t.hi == NY or sign(t.hi - NY) == "0"]
        if capped == "last": r.oblige("sections cover all rows", s.where, True); continue
        special = [t for t in loops if t is not s and t.lo == s.lo and uncap(t.hi)[0] == NY]
        if tail:
            for t in tail:
                if counters(ip, t.hi): continue
                d = t.lo - end
                if sign(d) in "+-" and not (d.t and any(x in y for y in d.symbols() for x in ("end:",))):
                    bad(t, "section-gap", f"the last row section starts at {show(t.lo)} but the one before it ends at {show(end)}"); ok = False
            if finals: r.oblige("sections cover all rows", s.where, True); continue
        if special: r.oblige("sections cover all rows", s.where, True); continue
        d = NY - end
        sg = sign(d)
        r.oblige("sections cover all rows", s.where, sg != "+")
        if sg == "+":
            bad(s, "rows-uncovered", f"the last row section ends at {show(end)}, not at the last row {show(NY)}"); ok = False
    return ok


def agree(groups, ip, r, step):
    """arrays cut to the same run of rows for one worker are cut at the same row"""
    fam = {}
    for (qual, oid, store), g in groups.items():
        for s in g.values():
            hi, _ = uncap(s.hi)
            n = hi - s.lo
            if n.value() is not None or not (set(n.symbols()) & set(ip.elems)): continue
            fam.setdefault((qual, store, n), {}).setdefault(oid, {})[s.lo] = s
    for (qual, store, n), lines in fam.items():
        top = set().union(*map(set, lines.values()))
        for line, los in lines.items():
            good = set(los) == top
            s = next(iter(los.values()))
            r.oblige("arrays cut at the same rows", f"{s.where} {show(n)}", good)
            if not good:
                other = next(iter(top - set(los)))
                r.find("rows-disagree", f"{step}:{qual.rsplit('.', 1)[-1]}", s.where,
                       f"step '{step}': this array is cut at row {', '.join(sorted({show(x) for x in los}))} while others handed over with it are cut at row {show(other)}", s.path)


def show(p):
    s = str(p)
    for a in sorted(p.symbols() | {y for x in p.symbols() if x in DEFS for b in DEFS[x][1] for y in b.symbols()}, key=len, reverse=True):
        short = a.split("@")[0].split("(")[0] if a not in DEFS else None
        if a.startswith("k@"): short = "k"
        elif a.startswith("elem:"): short = "n[k]"
        elif a.startswith("len:"): short = "count"
        if short: s = s.replace(a, short)
    return s.replace(" ", "")[:80]


def norm(ip, s):
    """the section as a function of its number, with names of counters removed"""
    lo, hi = s.lo, s.hi
    if lo.only() in ip.recs: 
        st = uncap(hi)[0] - lo
        e = ip.elems.get(st.only())
        return ("carried", e[0] if e else show(st))
    for k in counters(ip, lo) | counters(ip, hi): lo, hi = lo.subst(k, Lin.sym("K")), hi.subst(k, Lin.sym("K"))
    return (str(lo), str(uncap(hi)[0]))


def analyse(en, r, project):
    groups = {}; marks = []
    def setup(ip):
        def h(ev):
            if ev.label is not None and (not A.known(ev.label) or A.base(ev.label) != "Y"): 
                if ev.label != "?" or not en.name.startswith("median"): return
            if (ev.lo is not None and ev.lo.sym is None) or (ev.hi is not None and ev.hi.sym is None): return
            s = Slice(ev, ip)
            ow = ip.owner(ev.st, ev.obj)
            g = groups.setdefault((ev.qual, (ow or ev.obj).id, s.store), {})
            g[(s.line, s.lo, s.hi, s.facts)] = s
        ip.on("rowslice", h)
        def m(ev):
            if ev.label is None or not A.known(ev.label) or A.base(ev.label) != "Y" or ev.x.sym is None or not ev.store: return
            marks.append((ev.qual, ev.x.sym, ev.where(), ev.path(), ev.facts))
        ip.on("rowat", m)
        def c(ev):
            refuses = any(isinstance(x, ast.Raise) for x in ev.node.body + ev.node.orelse)
            if not refuses or not isinstance(ev.test, ast.Compare) or len(ev.test.ops) != 1 or not isinstance(ev.test.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)): return
            save = ip.handlers; ip.handlers = {}
            try:
                vs = [ip.eval(x, ev.st) for x in (ev.test.left, ev.test.comparators[0])]
                a, b = (frozenset() if v.deps <= {"o", SPLIT} else frozenset(ip.alldeps(ev.st, v)) for v in vs)     # the option itself may be validated
            finally: ip.handlers = save; ip._dead = False
            for x, y in ((a, b), (b, a)):
                bad = SPLIT in x and len(x) > 1 and SPLIT not in y
                if bad: r.find("refused-by-split", f"{en.step}:{ev.qual}", ev.where(), f"whether an input is refused depends on how the rows are split into sections: {ast.unparse(ev.test)}", ev.path())
            r.oblige("refusal independent of the split", ev.where(), not any(SPLIT in x and len(x) > 1 and SPLIT not in y for x, y in ((a, b), (b, a))))
        if en.name.startswith("median"): ip.on("if", c)
    ip, res, st = run_entry(project, en, setup)
    r.functions |= functions_of(ip)
    ip.last_state = st
    shapes = {}
    for (qual, oid, store), g in groups.items():
        fam = list(g.values())
        sect = [s for s in fam if s.lo.only() in ip.recs or any((s.lo.subst(k, Lin.sym(k) + ONE) - s.lo).value() not in (0, 1, -1) for k in counters(ip, s.lo))]
        if not sect: continue
        judge(fam, ip, r, en.step, en.step)
        for s in sect: shapes.setdefault((store,), {}).setdefault(norm(ip, s), s)
    # rows next to a boundary
    agree(groups, ip, r, en.step)
    starts = {}
    for (qual, oid, store), g in groups.items():
        for s in g.values():
            for k in counters(ip, s.lo):
                if (s.lo.subst(k, Lin.sym(k) + ONE) - s.lo).value() in (0, 1, -1): continue
                starts.setdefault((qual, k), set()).add(s.lo)
    for qual, x, where, path, facts in marks:
        for k in counters(ip, x):
            ls = starts.get((qual, k))
            if not ls: continue
            d = {(x - l).value() for l in ls}
            okb = bool(d & {0, -1})
            r.oblige("row next to a section boundary", f"{where} {show(x)}", okb)
            for p, rel, want in facts:
                if k in p.symbols():
                    one = p.subst(k, ONE).value()
                    if one is not None and REL[rel](one) != want:
                        r.oblige("row next to a section boundary", f"{where} {show(x)} first", False)
                        r.find("boundary-skipped", f"{en.step}:{qual.rsplit('.', 1)[-1]}", where,
                               f"step '{en.step}': flags crossing the boundary between the first two row sections are not put into row {show(x)}", path)
            if not okb and None not in d:
                r.find("boundary-row", f"{en.step}:{qual.rsplit('.', 1)[-1]}", where,
                       f"step '{en.step}': flags crossing a section boundary are put into row {show(x)}, which is not next to the boundary at {show(next(iter(ls)))}", path)
    # results go back to the rows they came from
    ins, outs = shapes.get((False,), {}), shapes.get((True,), {})
    if ins and outs:
        for f, s in outs.items():
            good = f in ins or (f[1] == "NY" and any(g[0] == f[0] for g in ins))
            r.oblige("section written back", f"{en.name} {s.where}", good)
            if not good:
                r.find("written-elsewhere", f"{en.step}:{s.qual.rsplit('.', 1)[-1]}", s.where,
                       f"step '{en.step}': results are put into rows {show(s.lo)}..{show(s.hi)}, but no section was cut from these rows", s.path)


def unit(name, r, project): analyse(ENT[name], r, project)


EXAMPLE = '''
import numpy as np
def drive(img1, img2, cube, o):
    ny, nx = img1.shape
    n = min([ny, 5, o.buffer_size])
    step = ny // n
    out = np.zeros((ny, nx))
    parts = []
    for i in range(n): parts.append(img1[i * step:(i + 1) * step])
    for i in range(n): parts.append(img2[i * step:(i + 1) * step + 1])
    for i in range(n - 1): parts.append(cube[:, i * step:(i + 1) * step])
    parts.append(cube[:, (n - 1) * step:])
    if nx > ny // o.buffer_size: raise ValueError
    if nx > ny: raise ValueError
    if o.buffer_size < 1: raise ValueError
    for i in range(0, ny, 16): parts.append(o.buffer_size * img1[i:min(i + 16, ny)])
    return out
'''


def run(rep):
    p = Project()
    rep.rules.append("row bounds are tracked as polynomials over image height, section count and loop counters (with whole-number division, "
                     "minimum and loop-carried recurrences); for every family of row sections: first starts at 0, each ends where the next "
                     "starts, the last reaches the last row, results are stored to rows that were cut, and flags crossing a boundary go to the adjoining rows")
    run_units(rep, UNITS, unit, p)
    for c, n in (("row section", 6), ("sections cover all rows", 8), ("section written back", 3)): rep.floor(c, n)
    r = Result("selftest")
    analyse(entries.Entry("median:selftest", EXAMPLE, ["img1", "img2", "cube", "o"], ENT["median:disk"].specs, step="median"), r, p)
    rep.selftest("refusal by the number of sections", [f.where.rsplit(":", 1)[1].split(" ")[0] for f in r.findings.values() if f.rule == "refused-by-split"] == ["13"])
    got = sorted({(f.rule, int(f.where.rsplit(":", 1)[1].split(" ")[0])) for f in r.findings.values() if f.rule != "refused-by-split"})
    rep.selftest("uncovered rows and overlap reported, complete tilings not", got == [("rows-uncovered", 9), ("section-gap", 10)])
    rep.assumptions += ["bounds that cannot be expressed as such polynomials are not judged", "an end beyond the last row is cut by numpy slicing"]
