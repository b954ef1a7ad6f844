"""C part of P08: what a pixel accumulates in the structure shared by all pixels is cleared for each pixel."""
from sa.cfront import CUnit, c_ast as A, strip, callname, show, params, walk
from sa.cinterp import CInterp


class Types:
    def __init__(self, u):
        self.u = u; self.ip = CInterp(u); self.fr = {}

    def frame(self, fd):
        n = fd.decl.name
        if n not in self.fr:
            a = fd.decl.type.args
            t = {p.name: p.type for p in (a.params if a else []) if isinstance(p, A.Decl)}
            for d in walk(fd.body):
                if isinstance(d, A.Decl): t[d.name] = d.type
            self.fr[n] = {"types": t}
        return self.fr[n]

    def of(self, e, fd): return self.ip.typeof(e, self.frame(fd))

    def struct(self, t):
        """structure a (pointer or array of) type is about"""
        n = 0
        while t is not None and n < 5:
            s = self.ip.struct_of(t)
            if s: return s
            t = self.ip.elem(t); n += 1
        return None

    def field(self, e, fd):
        """(structure, member, member...) an access is about, through array elements and nested structures"""
        e = strip(e)
        if isinstance(e, A.ArrayRef): return self.field(e.name, fd)
        if isinstance(e, A.UnaryOp) and e.op in ("*", "&"): return self.field(e.expr, fd)
        if not isinstance(e, A.StructRef): return None
        up = self.field(e.name, fd)
        if up: return up + (e.field.name,)
        bt = self.of(e.name, fd)
        s = self.struct(bt) if bt is not None else None
        return (s, e.field.name) if s else None


def owned(ty, root):
    """structures kept inside the root structure: by value or as arrays, without list nodes"""
    out, todo = set(), [root]
    while todo:
        s = todo.pop()
        if s in out: continue
        m = ty.u.structs.get(s) or {}
        if any(ty.struct(t) == s for t in m.values()): continue          # a list node: made anew
        out.add(s)
        todo += [x for x in (ty.struct(t) for t in m.values()) if x and x in ty.u.structs]
    return out


def has_call(n): return [c for c in walk(n) if isinstance(c, A.FuncCall)]


def pixel_loops(ty, root):
    """outermost loops whose body hands the shared structure to a function, in functions not called from such a loop"""
    u = ty.u; found = []
    for fn, fd in u.funcs.items():
        def go(n):
            for _, c in n.children():
                if isinstance(c, (A.For, A.While, A.DoWhile)):
                    inner = [x for x in walk(c.stmt) if isinstance(x, (A.For, A.While))]
                    calls = [x for x in has_call(c.stmt) if x.args and any(ty.struct(ty.of(strip(a), fd)) == root for a in x.args.exprs if ty.of(strip(a), fd) is not None) and callname(x) in u.funcs]
                    if calls: found.append((fn, fd, c, calls))
                    continue
                go(c)
        go(fd.body)
    inside = set()
    for fn, fd, c, calls in found:
        todo = [callname(x) for x in has_call(c.stmt)]
        seen = set()
        while todo:
            g = todo.pop()
            if g in seen or g not in u.funcs: continue
            seen.add(g); todo += [callname(x) for x in has_call(u.funcs[g].body)]
        inside |= seen
    return [f for f in found if f[0] not in inside]


def names(e):
    return frozenset(x.field.name for x in walk(e) if isinstance(x, A.StructRef)) if e is not None else frozenset()


class Means:
    """members a variable, parameter or call is made from, through assignments, arguments and results"""
    def __init__(self, u):
        self.u = u; self.var = {}; self.ret = {}
        for _ in range(4):
            before = sum(map(len, self.var.values())) + sum(map(len, self.ret.values()))
            for fn, fd in u.funcs.items():
                for n in walk(fd.body):
                    if isinstance(n, A.Assignment) and isinstance(strip(n.lvalue), A.ID): self.add(fn, strip(n.lvalue).name, self.of(n.rvalue, fd))
                    if isinstance(n, A.Decl) and n.init is not None and n.name: self.add(fn, n.name, self.of(n.init, fd))
                    if isinstance(n, A.Return) and n.expr is not None: self.ret[fn] = self.ret.get(fn, frozenset()) | self.of(n.expr, fd)
                    if isinstance(n, A.If) and any(isinstance(x, A.Return) for x in walk(n)): self.ret[fn] = self.ret.get(fn, frozenset()) | self.of(n.cond, fd)
                    if isinstance(n, A.FuncCall) and callname(n) in u.funcs and n.args:
                        g = u.funcs[callname(n)]; ps = g.decl.type.args.params if g.decl.type.args else []
                        for p, a in zip(ps, n.args.exprs):
                            if isinstance(p, A.Decl) and p.name: self.add(callname(n), p.name, self.of(a, fd))
            if before == sum(map(len, self.var.values())) + sum(map(len, self.ret.values())): break
        self.guard = {}
        for fn, fd in u.funcs.items(): self.guards(fd.body, fd, frozenset())

    def guards(self, n, fd, cond):
        """members the conditions around the assignments to a variable look at"""
        if n is None: return
        if isinstance(n, (A.If, A.TernaryOp)):
            c = cond | self.of(n.cond, fd)
            for b in (n.iftrue, n.iffalse): self.guards(b, fd, c)
            return
        if isinstance(n, A.Assignment) and isinstance(strip(n.lvalue), A.ID):
            k = (fd.decl.name, strip(n.lvalue).name); self.guard[k] = self.guard.get(k, frozenset()) | cond
            for x in walk(n.rvalue):
                if isinstance(x, A.TernaryOp): self.guard[k] |= self.of(x.cond, fd)
        if isinstance(n, A.Decl) and n.init is not None and n.name:
            for x in walk(n.init):
                if isinstance(x, A.TernaryOp): self.guard[fd.decl.name, n.name] = self.guard.get((fd.decl.name, n.name), frozenset()) | self.of(x.cond, fd)
        for _, c in n.children(): self.guards(c, fd, cond)

    def under(self, e, fd): return frozenset().union(*[self.guard.get((fd.decl.name, x.name), frozenset()) for x in walk(e) if isinstance(x, A.ID)])

    def add(self, fn, v, s): self.var[fn, v] = self.var.get((fn, v), frozenset()) | s

    def of(self, e, fd):
        if e is None: return frozenset()
        out = names(e)
        for x in walk(e):
            if isinstance(x, A.ID): out |= self.var.get((fd.decl.name, x.name), frozenset())
            if isinstance(x, A.FuncCall): out |= self.ret.get(callname(x), frozenset())
        return out


class Walk:
    def names(self, e, fd): return names(e)

    def __init__(self, ty, own, root):
        self.ty = ty; self.own = own; self.root = root; self.grown = {}; self.flags = {}; self.reset = set(); self.given = {}; self.read = {}; self.here = [set()]; self.funcs = set()

    def visit(self, n, fd, cond, stack):
        if n is None: return
        if isinstance(n, A.If):
            self.visit(n.cond, fd, cond, stack)
            c = cond + (self.names(n.cond, fd),)
            got = []
            for b in (n.iftrue, n.iffalse):
                self.here.append(set()); self.visit(b, fd, c, stack); got.append(self.here.pop())
            both = got[0] & got[1]
            self.here[-1] |= both
            if not cond: self.reset |= both
            return
        if isinstance(n, (A.Switch, A.TernaryOp)):
            for _, c in n.children(): self.visit(c, fd, cond + (self.names(n.cond, fd),), stack)
            return
        if isinstance(n, A.Assignment):
            self.visit(n.rvalue, fd, cond, stack)
            f = self.ty.field(n.lvalue, fd)
            if f and f[0] in self.own:
                at = (n, fd, stack, cond)
                if n.op != "=": self.grown.setdefault(f, []).append(at)
                elif any(self.ty.field(x, fd) == f for x in walk(n.rvalue) if isinstance(x, A.StructRef)):
                    if not isinstance(strip(n.rvalue), A.TernaryOp): self.grown.setdefault(f, []).append(at)
                elif cond:
                    self.here[-1].add(f)
                    self.flags.setdefault(f, []).append(at)
                    if not isinstance(strip(n.rvalue), A.Constant): self.given.setdefault(f, []).append(cond)
                else: self.reset.add(f)
            else:
                t = self.ty.of(strip(n.lvalue), fd) if n.op == "=" else None
                s = self.ty.ip.struct_of(t) if t is not None else None
                if s in self.own and not cond: self.reset.add((s,))
            return
        if isinstance(n, A.UnaryOp) and n.op in ("p++", "++", "p--", "--"):
            f = self.ty.field(n.expr, fd)
            if f and f[0] in self.own: self.grown.setdefault(f, []).append((n, fd, stack, cond))
            return
        if isinstance(n, A.FuncCall):
            name = callname(n)
            args = n.args.exprs if n.args else []
            for a in args: self.visit(a, fd, cond, stack)
            if name == "memset" and args:
                if not cond: self.whole(strip(args[0]), fd)
                return
            if name == "memcpy" and args:
                if not cond: self.whole(strip(args[0]), fd)
                return
            if name in self.ty.u.funcs and name not in stack:
                self.funcs.add(name)
                self.visit(self.ty.u.funcs[name].body, self.ty.u.funcs[name], cond, stack + (name,))
            return
        if isinstance(n, (A.StructRef, A.ArrayRef)) and not cond:
            f = self.ty.field(n, fd)
            if f and f[0] in self.own: self.read.setdefault(f, []).append((n, fd, stack, cond))
        for _, c in n.children(): self.visit(c, fd, cond, stack)

    def whole(self, d, fd):
        f = self.ty.field(d, fd)
        if f:
            self.reset.add(f)
            return
        t = self.ty.of(d, fd)
        s = self.ty.struct(t) if t is not None else None
        if s in self.own: self.reset.add((s,))

    def last(self, f):
        """the structure the last member belongs to"""
        s = f[0]
        for m in f[1:-1]: s = self.ty.struct((self.ty.u.structs.get(s) or {}).get(m))
        return s

    def cleared(self, f):
        s = self.last(f)
        for x in self.reset:
            if f[:len(x)] == x or x in ((s,), (s, f[-1])): return True
            # counted through a pointer: cleared wherever such a structure is cleared
            if len(f) == 2 and f[0] != self.root and len(x) > 1 and (x[-1] == f[-1] and self.last(x) == s or self.inside(x) == s): return True
        uses = [at[3] for at in self.grown.get(f, [])]
        # filled under the condition under which it is used
        return bool(uses) and any(all(all(any(c & d for d in u) for c in g) for u in uses) for g in self.given.get(f, []))

    def inside(self, x):
        s = self.last(x)
        return self.ty.struct((self.ty.u.structs.get(s) or {}).get(x[-1]))


def check(u, r, root="pixel_ramp"):
    if root not in u.structs: return
    ty = Types(u); own = owned(ty, root)
    for fn, fd, loop, calls in pixel_loops(ty, root):
        w = Walk(ty, own, root)
        w.visit(loop.stmt, fd, (), (fn,))
        for g in w.funcs | {fn}: r.functions.add((u.rel if hasattr(u, "rel") else "slope_fitter.c", g))
        for f in sorted((set(w.read) & set(w.flags)) - set(w.grown)):
            ok = w.cleared(f)
            n, g, stack, _ = w.read[f][0]
            r.oblige("member read for each pixel", ".".join(f), ok)
            if not ok:
                r.find("pixel-not-cleared", ".".join(f), f"{u.where(n)} ({g.decl.name})",
                       f"'{'.'.join(f[1:])}' of struct {f[0]} is read for each pixel of the loop at {u.where(loop)} but set only on some paths and not cleared for a new pixel: on the others it is the previous pixel's value",
                       " > ".join(stack))
        for f in sorted(set(w.grown) | {k for k, at in w.flags.items() if all(isinstance(n.rvalue, A.Constant) for n, *_ in at)}):
            ok = w.cleared(f)
            n, g, stack, _ = (w.grown.get(f) or w.flags.get(f))[0]
            r.oblige("member accumulated for each pixel", ".".join(f), ok)
            if not ok:
                r.find("pixel-not-cleared", ".".join(f), f"{u.where(n)} ({g.decl.name})",
                       f"'{'.'.join(f[1:])}' of struct {f[0]} is accumulated for each pixel of the loop at {u.where(loop)} but not cleared on every path for a new pixel: the previous pixel's value stays in it",
                       " > ".join(stack))


# ---------------------------------------------------------------- data quality of the fitted products (P02, P03)
FLAGS = {"attr:flags_do_not_use": "DO_NOT_USE", "attr:flags_jump_det": "JUMP_DET", "attr:flags_no_gain_val": "NO_GAIN_VALUE", "attr:flags_persistence": "PERSISTENCE",
         "attr:flags_saturated": "SATURATED", "attr:flags_unreliable_slope": "UNRELIABLE_SLOPE", "attr:flags_chargeloss": "CHARGELOSS"}
OWN = {"DO_NOT_USE", "JUMP_DET", "NO_GAIN_VALUE", "PERSISTENCE", "SATURATED"}
WHAT = {0: "the rate image", 1: "the rates of the integrations"}


def dq_planes(run):
    """(which product, value, where stored) of each DQ plane the fitter returns"""
    ct = run.contents()
    for pos, items, where in run.products().values():
        for arr in items.get("dq", ()):
            if pos in WHAT and arr in ct:
                for v, at, _, path in ct[arr][2]: yield pos, v, at, path


def lost(run, r):
    for pos, v, at, path in dq_planes(run):
        ok = "attr:pixeldq" in (v.keep or ())
        r.oblige("returned DQ plane", f"fitter {pos} {at}", ok)
        if not ok: r.find("dq-bits-lost", f"fitter:{pos}", at, f"the DQ plane of {WHAT[pos]} may lack bits of the pixel DQ it was given", path)


def foreign(run, r):
    got = {}
    for pos, v, at, path in dq_planes(run):
        bits = {FLAGS.get(b, b) for b in v.bits}
        got.setdefault(pos, [set(), at, path])[0].update(bits)
        for b in sorted(bits):
            ok = b in OWN
            r.oblige("flag in a returned plane", f"fitter {pos} {b}", ok)
            if not ok: r.find("foreign-flag", f"fitter:{pos}:{b}", at, f"{b} can be raised in the DQ plane of {WHAT[pos]}, which ramp fitting is not specified to raise there", path)
    for pos, (bits, at, path) in got.items():
        for b in sorted(OWN):
            ok = b in bits
            r.oblige("specified flag can be raised", f"fitter {pos} {b}", ok)
            if not ok: r.find("flag-never-raised", f"fitter:{pos}:{b}", at, f"{b} is never raised in the DQ plane of {WHAT[pos]}", path)


class Raise(Walk):
    """conditions under which a member gets a flag or is set"""
    def __init__(self, ty, own, root):
        super().__init__(ty, own, root); self.raised = []; self.made = {}; self.means = Means(ty.u)

    def names(self, e, fd): return self.means.of(e, fd)

    def visit(self, n, fd, cond, stack):
        if isinstance(n, A.Assignment):
            f = self.ty.field(n.lvalue, fd)
            if f and f[0] in self.own:
                if n.op == "|=" and f[-1] == "dq":
                    for x in walk(n.rvalue):
                        if isinstance(x, A.StructRef) and x.field.name in ("jump", "pers"): self.raised.append((x.field.name, f, cond, n, fd, stack))
                elif cond: self.made.setdefault(f[-1], set()).update(*cond)
        if isinstance(n, A.UnaryOp) and n.op in ("p++", "++") and cond:
            f = self.ty.field(n.expr, fd)
            if f: self.made.setdefault(f[-1], set()).update(*cond)
        super().visit(n, fd, cond, stack)


def own_condition(u, r, root="pixel_ramp"):
    """jump and persistence flags are raised under a condition that looks at just these flags"""
    if root not in u.structs: return
    ty = Types(u)
    for fn, fd, loop, calls in pixel_loops(ty, root):
        w = Raise(ty, owned(ty, root), root)
        w.visit(loop.stmt, fd, (), (fn,))
        for flag, f, cond, n, g, stack in w.raised:
            seen, todo = set(), [x for c in cond for x in c]
            if not all(cond) or not cond: continue              # decided by something other than members
            while todo:
                x = todo.pop()
                if x in seen: continue
                seen.add(x); todo += w.made.get(x, ())
            looks = seen & {"jump", "pers", "sat", "dnu", "chargeloss"}
            ok = flag in looks or not looks
            r.oblige("flag raised under its own condition", f"{u.where(n)} {flag}", ok)
            if not ok:
                r.find("flag-under-foreign-condition", f"{'.'.join(f)}:{flag}", f"{u.where(n)} ({g.decl.name})",
                       f"'{flag}' is raised in '{'.'.join(f[1:])}' under a condition that looks at {', '.join(sorted(looks))} only", " > ".join(stack))


# ---------------------------------------------------------------- unusable groups stay out of the fit (P04)
def expand(u):
    """flag members made from others (invalid = dnu | sat)"""
    made = {}
    for fd in u.funcs.values():
        for n in walk(fd.body):
            if isinstance(n, A.Assignment) and n.op == "=" and isinstance(n.lvalue, A.StructRef) and isinstance(n.rvalue, A.BinaryOp) and n.rvalue.op == "|":
                made.setdefault(n.lvalue.field.name, set()).update(names(n.rvalue))
    return made


class Samples(Walk):
    def __init__(self, ty, own, root):
        super().__init__(ty, own, root); self.put = {}; self.means = Means(ty.u)

    def names(self, e, fd): return self.means.of(e, fd)

    def visit(self, n, fd, cond, stack):
        if isinstance(n, A.Assignment) and n.op == "=":
            f = self.ty.field(n.lvalue, fd)
            if f and f[0] == self.root and isinstance(strip(n.lvalue), (A.ArrayRef, A.UnaryOp)): self.put.setdefault(f, []).append((n, fd, cond + tuple(self.names(x.cond, fd) for x in walk(n.rvalue) if isinstance(x, A.TernaryOp)) + (self.means.under(n.rvalue, fd),), stack))
        super().visit(n, fd, cond, stack)


def excluded(u, r, root="pixel_ramp"):
    if root not in u.structs: return
    ty = Types(u); more = expand(u); means = Means(u)
    def flags(ns):
        out = set(ns)
        for x in ns: out |= more.get(x, set())
        return out & {"sat", "dnu", "jump", "pers", "chargeloss", "ngval"}
    reached = {}
    for fn, fd, loop, calls in pixel_loops(ty, root):
        w = Samples(ty, owned(ty, root), root)
        w.visit(loop.stmt, fd, (), (fn,))
        reached.update({g: u.funcs[g] for g in w.funcs})
        for f, puts in w.put.items():
            loads = [p for p in puts if "get_data" in means.of(p[0].rvalue, p[1]) or any(isinstance(x, A.StructRef) and ty.field(x, p[1]) == ("ramp_data", "data") for x in walk(p[0].rvalue))]
            if not loads or f[-1] != "data": continue
            seen = flags({x for p in puts for c in p[2] for x in c})
            ok = "sat" in seen
            n, g, _, stack = loads[0]
            r.oblige("sample taken over for the fit", f"{u.where(n)}", ok)
            if not ok: r.find("unexcluded-sample", f"fitter:{f[-1]}:SATURATED", f"{u.where(n)} ({g.decl.name})", "group values enter the fit without a test for SATURATED", " > ".join(stack))
    r.functions |= {("src/stcal/ramp_fitting/src/slope_fitter.c", g) for g in reached}
    for name, fd in reached.items():
        ps = {p.name: show(p.type) for p in (fd.decl.type.args.params if fd.decl.type.args else []) if isinstance(p, A.Decl) and p.name}
        reals = [k for k, t in ps.items() if "real_t" in t and "*" in t]
        dqs = [k for k, t in ps.items() if ("uint8_t" in t or "uint32_t" in t) and "*" in t]
        # samples copied next to their DQ
        cop = [n for n in walk(fd.body) if isinstance(n, A.Assignment) and n.op == "=" and isinstance(n.lvalue, A.ArrayRef) and any(isinstance(x, A.ArrayRef) and isinstance(x.name, A.ID) and x.name.name in reals for x in walk(n.rvalue))
               and not (isinstance(n.lvalue.name, A.ID) and n.lvalue.name.name in reals)]
        if cop and dqs:
            seen = set()
            todo = [(fd, set(dqs))]; done = set()
            while todo:
                g, qs = todo.pop()
                if g.decl.name in done: continue
                done.add(g.decl.name)
                for _ in range(3):
                    qs |= {x.lvalue.name for x in walk(g.body) if isinstance(x, A.Assignment) and isinstance(x.lvalue, A.ID) and any(isinstance(y, A.ID) and y.name in qs for y in walk(x.rvalue))}
                    qs |= {x.name for x in walk(g.body) if isinstance(x, A.Decl) and x.init is not None and any(isinstance(y, A.ID) and y.name in qs for y in walk(x.init))}
                for x in walk(g.body):
                    if isinstance(x, A.BinaryOp) and x.op == "&" and any(isinstance(y, A.ID) and y.name in qs for y in walk(x)): seen |= flags(means.of(x, g))
                    if isinstance(x, A.BinaryOp) and x.op in ("==", "!=") and any(isinstance(y, A.ID) and y.name in qs for y in walk(x)) and any(isinstance(y, A.Constant) and y.value == "0" for y in (x.left, x.right)): seen |= {"dnu", "sat", "jump"}
                    if isinstance(x, A.FuncCall) and callname(x) in u.funcs and x.args:
                        h = u.funcs[callname(x)]
                        pn = [p.name for p in h.decl.type.args.params] if h.decl.type.args else []
                        sub = {pn[i] for i, a in enumerate(x.args.exprs) if i < len(pn) and any(isinstance(y, A.ID) and y.name in qs for y in walk(a))}
                        if sub: todo.append((h, sub))
            for fl, word in (("dnu", "DO_NOT_USE"), ("jump", "JUMP_DET")):
                ok = fl in seen
                r.oblige("samples copied for an estimate", f"{name} {word}", ok)
                if not ok: r.find("unexcluded-sample", f"fitter:{name}:{word}", f"{u.where(cop[0])} ({name})", f"group values are copied for an estimate without a test for {word}")
        # group DQ walked through a local pointer: which groups make up a segment
        base = {n.lvalue.name for n in walk(fd.body) if isinstance(n, A.Assignment) and isinstance(n.lvalue, A.ID) and names(n.rvalue) & {"groupdq", "orig_gdq"}}
        base |= {d.name for d in walk(fd.body) if isinstance(d, A.Decl) and d.init is not None and names(d.init) & {"groupdq", "orig_gdq"}}
        if not base: continue
        masks = {}
        def off(e):
            """flags an expression removes from what it is ANDed with"""
            e = strip(e)
            if isinstance(e, A.UnaryOp) and e.op == "~": return flags(means.of(e.expr, fd))
            if isinstance(e, A.ID): return masks.get(e.name, set())
            return set()
        for d in walk(fd.body):
            if isinstance(d, A.Decl) and d.init is not None: masks[d.name] = off(d.init)
            if isinstance(d, A.Assignment) and isinstance(d.lvalue, A.ID): masks.setdefault(d.lvalue.name, set()); masks[d.lvalue.name] |= off(d.rvalue)
        drop = set()
        for x in walk(fd.body):
            if isinstance(x, A.BinaryOp) and x.op == "&":
                for a, b in ((x.left, x.right), (x.right, x.left)):
                    if any(isinstance(y, A.ID) and y.name in base for y in walk(a)): drop |= off(b)
        bad = drop & {"sat", "dnu", "jump"}
        r.oblige("group DQ looked at in full", name, not bad)
        if bad: r.find("unexcluded-sample", f"fitter:{name}:{'+'.join(sorted(bad))}", f"{u.where(fd.decl)} ({name})", f"{', '.join(sorted(bad))} is masked off the group DQ before usable groups are chosen")
        var = set(base)
        for _ in range(3):
            var |= {n.lvalue.name for n in walk(fd.body) if isinstance(n, A.Assignment) and isinstance(n.lvalue, A.ID) and any(isinstance(y, A.ID) and y.name in var for y in walk(n.rvalue))}
            var |= {d.name for d in walk(fd.body) if isinstance(d, A.Decl) and d.init is not None and any(isinstance(y, A.ID) and y.name in var for y in walk(d.init))}
        for loop in [x for x in walk(fd.body) if isinstance(x, (A.For, A.While)) and has_call(x.stmt)]:
            full, tested = False, set()
            for x in walk(loop.stmt):
                if not isinstance(x, (A.BinaryOp, A.UnaryOp, A.If, A.TernaryOp)): continue
                if isinstance(x, A.BinaryOp) and x.op in ("==", "!=") and any(isinstance(y, A.Constant) and y.value.rstrip("uUlL") == "0" for y in (x.left, x.right)) and any(isinstance(y, A.ID) and y.name in var for y in walk(x)) \
                        and not any(isinstance(y, A.BinaryOp) and y.op == "&" and flags(names(y)) - {"pers"} for y in walk(x)): full = True
                if isinstance(x, A.UnaryOp) and x.op == "!" and isinstance(strip(x.expr), (A.ID, A.ArrayRef)) and any(isinstance(y, A.ID) and y.name in var for y in walk(x)): full = True
                if isinstance(x, (A.If, A.TernaryOp)) and isinstance(strip(x.cond), (A.ID, A.ArrayRef)) and any(isinstance(y, A.ID) and y.name in var for y in walk(x.cond)): full = True
                if isinstance(x, A.BinaryOp) and x.op == "&" and any(isinstance(y, A.ID) and y.name in var for y in walk(x)): tested |= flags(means.of(x, fd) - set().union(*[means.var.get((name, v), frozenset()) for v in var]))
            if not full and not tested: continue
            ok = full or {"sat", "dnu"} <= tested
            r.oblige("groups chosen for segments", f"{name}:{u.where(loop)}", ok)
            if not ok: r.find("unexcluded-sample", f"fitter:{name}:segments", f"{u.where(loop)} ({name})", f"groups are chosen for segments by {', '.join(sorted(tested))} alone, not by DO_NOT_USE and SATURATED")
