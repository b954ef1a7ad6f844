"""P08: nothing an item of a loop leaves behind in variables or buffers reaches the result of the next item."""
import ast
from sa import entries, defassign as D, pyxfront
from sa.cfront import CUnit
from . import cpixel
from sa.interp import V
from sa.project import Project, Module
from sa.runner import run_units, run_entry, functions_of, Result

E = frozenset()
GROW = {"append", "extend", "insert", "add", "update", "push_back", "setdefault", "appendleft"}


# ---------------------------------------------------------------- local variables
def stored(node): return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def reads_of(node, name): return [n for n in ast.walk(node) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]


def loops_of(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)): continue
        if isinstance(n, (ast.For, ast.While, ast.AsyncFor)): yield n
        todo += list(ast.iter_child_nodes(n))


def own_defs(loop):
    """name -> the statements of the loop body that assign it"""
    d = {}
    for n in ast.walk(ast.Module(loop.body, [])):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                for nm in ([t.id] if isinstance(t, ast.Name) else D.bound_names(t)): d.setdefault(nm, []).append(n)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            for nm in D.bound_names(n.target): d.setdefault(nm, []).append(n)
        elif isinstance(n, ast.NamedExpr): d.setdefault(n.target.id, []).append(n)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            for nm in D.bound_names(n.optional_vars): d.setdefault(nm, []).append(n)
    return d


def carried(defs, name):
    """deliberately carried from item to item: some assignment computes the new value from the old one"""
    for n in defs:
        if isinstance(n, ast.AugAssign): return True
        v = n.value if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) else None
        if v is not None and reads_of(v, name): return True
    return False


def partly(loop, name):
    """updated in place by parts: a buffer, judged by the buffer analysis"""
    return any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Subscript) and isinstance(n.target.value, ast.Name) and n.target.value.id == name
               for n in ast.walk(ast.Module(loop.body, [])))


def guarded_by_self(loop, name):
    """assigned under a test on its own value (lazily initialised once)"""
    for n in ast.walk(ast.Module(loop.body, [])):
        if isinstance(n, (ast.If, ast.While)) and reads_of(n.test, name) and name in stored(ast.Module(n.body + n.orelse, [])): return True
        if isinstance(n, ast.IfExp) and reads_of(n.test, name): return True
    return False


class Stale(D.DefAssign):
    """one iteration, starting with nothing assigned: reads reached both by this item's value and by an older one"""

    def __init__(self, fn, loop, names, nr=()):
        super().__init__(fn, None, nr); self.loop = loop; self.locals = self.locals & names; self.old = {}; self.new = {}; self.made = {}

    def go(self):
        self.brk = [[]]; self.cont = [[]]
        st = [D.S(E, E)]
        if isinstance(self.loop, (ast.For, ast.AsyncFor)): st = self.assign_names(self.loop.target, st)
        else: st, _ = self.cond(self.loop.test, st)
        self.block(self.loop.body, st)

    def kill(self, s, name, extra=()):
        r = super().kill(s, name, extra)
        if name in self.locals: self.made.setdefault(name, []).append(r)
        return r

    def read(self, name, node, sts):
        if name in self.locals:
            for s in sts: (self.new if name in s.a else self.old).setdefault((name, node.lineno, node.col_offset), []).append(s)
        return sts

    def s_AugAssign(self, s, sts):
        if isinstance(s.target, ast.Name): return [self.kill(x, s.target.id) for x in self.expr(s.value, sts)]
        return super().s_AugAssign(s, sts)


def contradict(a, b, inv):
    """the two paths need opposite answers to a test whose outcome is the same for every item"""
    fa = {k: v for k, v in a.f if inv(k)}
    return any(k in fa and fa[k] != v for k, v in b.f)


def stale_reads(fn, r, rel, q, nr=()):
    for loop in loops_of(fn):
        defs = own_defs(loop)
        names = set(defs)
        if isinstance(loop, (ast.For, ast.AsyncFor)): names -= set(D.bound_names(loop.target))
        a = Stale(fn, loop, names, nr); a.go()
        changing = names | (set(D.bound_names(loop.target)) if isinstance(loop, (ast.For, ast.AsyncFor)) else set())
        touched = {ast.unparse(n) for n in ast.walk(ast.Module(loop.body, [])) if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store)}
        def inv(atom):
            return not (D.anames(atom) & changing) and not any(t in atom for t in touched) and "(" not in atom
        r.oblige("loop body", f"{rel}:{loop.lineno} ({q})")
        for k in sorted(a.old):
            name, line, _ = k
            ok = True
            if not carried(defs[name], name) and not partly(loop, name) and not guarded_by_self(loop, name):
                mk = a.made.get(name, []) if k in a.new else []
                for o in a.old[k]:
                    if any(not contradict(o, m, inv) for m in mk): ok = False; break
            r.oblige("read of a variable the loop assigns", f"{rel}:{line}:{k[2]} {name}", ok)
            if not ok:
                r.find("stale-variable", f"{rel}:{name}", f"{rel}:{line} ({q})",
                       f"'{name}' is read on a path of the loop at line {loop.lineno} on which this item has not assigned it: it still holds the value of an item processed before")
        for k in a.new: r.oblige("read of a variable the loop assigns", f"{rel}:{k[1]}:{k[2]} {k[0]}")
        last_item(fn, loop, defs, r, rel, q)
        # running totals
        inner = [n for n in ast.walk(ast.Module(loop.body, [])) if isinstance(n, (ast.For, ast.While, ast.AsyncFor))]
        for inn in inner:
            if not isinstance(loop, (ast.For, ast.AsyncFor)): continue
            body = ast.Module(inn.body, [])
            ins = {id(n) for n in ast.walk(body)}
            grown = {}
            for n in ast.walk(body):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name): grown.setdefault(n.target.id, n)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW and isinstance(n.func.value, ast.Name): grown.setdefault(n.func.value.id, n)
            for name, n in grown.items():
                if name not in D.locals_of(fn) or name in D.params_of(fn): continue
                if any(id(x) not in ins and not isinstance(x, ast.AugAssign) for x in defs.get(name, [])): continue
                if any(resets(x, name) and id(x) not in ins for x in ast.walk(ast.Module(loop.body, []))): continue
                if any(not isinstance(x, ast.AugAssign) and not reads_of(getattr(x, "value", None) or ast.Constant(0), name) for x in defs.get(name, [])): continue
                if isinstance(loop, (ast.For, ast.AsyncFor)) and name in D.bound_names(loop.target): continue
                out = [x for x in reads_of(ast.Module(loop.body, []), name) if id(x) not in ins and not carries_on(loop, x)]
                r.oblige("quantity accumulated in an inner loop", f"{rel}:{inn.lineno} {name}", not out)
                if out:
                    r.find("running-total", f"{rel}:{name}", f"{rel}:{out[0].lineno} ({q})",
                           f"'{name}' is accumulated in the loop at line {inn.lineno} and used for each item of the loop at line {loop.lineno}, but never reset between items")


def last_item(fn, loop, defs, r, rel, q):
    """a quantity counted afresh for each item, of which only the last item's value is used after the loop"""
    if not isinstance(loop, (ast.For, ast.AsyncFor)) or any(isinstance(n, ast.Break) for n in ast.walk(loop)): return
    body = ast.Module(loop.body, [])
    if not any(reads_of(body, t) for t in D.bound_names(loop.target)): return
    inner = [n for n in ast.walk(body) if isinstance(n, (ast.For, ast.While, ast.AsyncFor))]
    for name in defs:
        fresh = next((i for i, st in enumerate(loop.body) if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(st))), None)
        if fresh is None: continue
        st = loop.body[fresh]
        if not (isinstance(st, ast.Assign) and name in {t.id for t in st.targets if isinstance(t, ast.Name)} and not reads_of(st.value, name)): continue
        grown = any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name for i in inner for n in ast.walk(i))
        summed = any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id != name and reads_of(n.value, name) for n in ast.walk(body))
        if not (grown or summed): continue
        later = sorted((n.lineno, 0 if isinstance(n.ctx, ast.Load) else 1, n.col_offset) for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == name and n.lineno > loop.end_lineno)
        own = {x.lineno for n in ast.walk(fn) if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) for g in n.generators if name in D.bound_names(g.target) for x in ast.walk(n) if isinstance(x, ast.Name)}
        logs = {x.lineno for n in ast.walk(fn) if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[0] in ("log", "logger", "logging", "warnings") for x in ast.walk(n) if isinstance(x, ast.Name)}
        later = [x for x in later if x[0] not in own]
        bad = bool(later) and later[0][1] == 0 and later[0][0] not in logs
        r.oblige("quantity counted for each item", f"{rel}:{loop.lineno} {name}", not bad)
        if bad:
            r.find("last-item-only", f"{rel}:{name}", f"{rel}:{later[0][0]} ({q})",
                   f"'{name}' is counted afresh for each item of the loop at line {loop.lineno}; what is used here after the loop is the value of the last item alone")


def resets(n, name):
    """clears a container or array in place"""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name: return n.func.attr in ("clear", "fill")
    if isinstance(n, (ast.Assign, ast.Delete)):
        return any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name and isinstance(t.slice, (ast.Slice, ast.Constant)) for t in n.targets)
    return False


def carries_on(loop, node):
    """the read only continues the accumulation (or asks how far it got)"""
    for n in ast.walk(ast.Module(loop.body, [])):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == node.id and any(x is node for x in ast.walk(n)): return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW and n.func.value is node: return True
        if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.In, ast.NotIn)) and any(x is node for x in ast.walk(n.comparators[0])): return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and any(x is node for a in n.args for x in ast.walk(a)) and ast.unparse(n.func).split(".")[0] in ("log", "logger", "logging", "warnings"): return True
    return False


# ---------------------------------------------------------------- buffers
class Left:
    """scratch memory made before a loop and partly overwritten by each item: what an item leaves there must not reach
    the place of the next item's result"""

    def __init__(self, ip, r, step):
        self.ip = ip; self.r = r; self.step = step; self.marked = {}; self.base = {}
        ip.track_lv = True
        self.orig = ip.loop; ip.loop = self.loop
        self.oa = ip.alloc; ip.alloc = self.alloc
        ip.on("store", self.on_store); ip.on("backedge", self.on_back); ip.on("mutate", self.on_mutate)

    def loops(self): return [(f, s) for f in self.ip.frames for s, kind, *_ in f.loops if kind == "iter"]
    def key(self, s, f): return f"lv:{s.lineno}:{f.fid}"

    def alloc(self, st, *a, **k):
        v = self.oa(st, *a, **k)
        for f, L in self.loops():
            b = self.base.get(self.key(L, f))
            if b is not None: b -= v.refs
        return v

    def loop(self, s, st, it, cd):
        t = self.key(s, self.ip.frames[-1])
        if self.marked.get(t): it, cd = self.strip(st, "left:" + t + "|", it, cd)
        self.base[t] = set(st.heap)
        if it is not None: self.r.oblige("loop analysed", f"{self.step} {self.ip.frames[-1].mod.rel if hasattr(self.ip.frames[-1], 'mod') else ''}:{s.lineno}")
        return self.orig(s, st, it, cd)

    def strip(self, st, pre, it, cd):
        """what an earlier execution of the same loop left is no concern of this one"""
        def fs(x): return frozenset(a for a in x if not (isinstance(a, str) and a.startswith(pre)))
        def cl(v):
            if isinstance(v, V):
                d, c = fs(v.deps), fs(v.ctl)
                return v if d == v.deps and c == v.ctl else v.w(deps=d, ctl=c)
            if isinstance(v, (list, tuple)):
                n = [cl(x) for x in v]
                return v if all(p is q for p, q in zip(n, v)) else type(v)(n)
            if isinstance(v, dict):
                n = {k: cl(x) for k, x in v.items()}
                return v if all(n[k] is v[k] for k in v) else n
            return v
        for k, o in list(st.heap.items()):
            ch = {}
            for f, c in o.d.items():
                if isinstance(c, (V, list, tuple, dict)):
                    c2 = cl(c)
                    if c2 is not c: ch[f] = c2
            if ch: st.heap[k] = o.w(**ch)
        for f in st.frames.values():
            for k, v in list(f.items()):
                v2 = cl(v)
                if v2 is not v: f[k] = v2
        for f in self.ip.frames: f.pc[:] = [fs(x) for x in f.pc]
        return cl(it), fs(cd)

    def own_slot(self, ev, t):
        ip = self.ip
        tg = ev.d.get("target")
        if tg is not None:
            if any(t in (o.get("lv") or E) for o in ip.objs(ev.st, tg)): return True
        elif t in (ev.obj.get("lv") or E): return True
        for k, x in ev.d.get("idx") or ():
            if k in ("int", "slice"):
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, V) and (t in y.tags or "phi:" in str(y.sym)): return True
        return False

    def scratch(self, ow, t): return ow is not None and not ow.get("root") and ow.id in self.base.get(t, ()) and not ow.id.endswith("~")

    def rewritten(self, ev, ow, ls, L):
        """the same part of the buffer is written anew for every item of L: fixed bounds, or the places of an inner loop's items"""
        idx = ev.d.get("idx")
        if ev.d.get("aug") or ow is not ev.obj or not idx: return False
        k = [l for _, l in ls].index(L)
        inner = {self.key(l, f) for f, l in ls[k + 1:]}
        some = False
        for kind, x in idx:
            if kind == "ellipsis": some = True; continue
            if kind not in ("slice", "int"): return False
            for y in (x if isinstance(x, tuple) else (x,)):
                if not isinstance(y, V): continue
                if y.consts and not y.unk: continue
                if y.tags & inner: some = True; continue
                return False
            if kind == "slice": some = True
        return some

    def on_store(self, ev):
        ow = ev.owner; ip = self.ip
        itags = E
        for k, x in ev.d.get("idx") or ():
            if isinstance(x, V): itags = itags | ip.content(ev.st, x).tags
        ls = self.loops()
        tally = bool(ev.d.get("aug")) and ow is ev.obj and ev.d.get("full")      # a running tally over the innermost loop
        for f, L in ls:
            t = self.key(L, f)
            if tally and L is ls[-1][1]: continue
            if self.scratch(ow, t) and self.rewritten(ev, ow, ls, L):       # the same part of the buffer is written anew for every item
                c = ow.get("content"); m = f"left:{t}|{ow.id}|"
                if isinstance(c, V) and any(str(a).startswith(m) for a in c.deps):
                    self.ip.put(ev.st, ow.w(content=c.w(deps=frozenset(a for a in c.deps if not str(a).startswith(m)))))
                continue
            if self.scratch(ow, t) and (tally or not (ev.d.get("strong") or (ev.d.get("full") and ow is ev.obj))) and not self.own_slot(ev, t) \
                    and not (ev.value.refs and not ev.aug and any(ip.owner(ev.st, q) is ow for q in ip.objs(ev.st, ev.value))) \
                    and "test:SATURATED" not in itags:      # saturation persists to the end of the ramp: later groups stay excluded
                self.marked.setdefault(t, {})[ow.id] = (ev.where(), ev.path())
            c = ev.d.get("vcontent")
            if c is None: continue
            if self.own_slot(ev, t):
                bad = self.lefts(c, t, ow)
                self.r.oblige("store into the place of the item in hand", f"{self.step} {ev.where()}", not bad)
                for where, path in bad: self.report(where, ev, L)

    def on_mutate(self, ev):
        if ev.d.get("how") not in ("append", "extend", "add", "insert"): return
        ip = self.ip
        for f, L in self.loops():
            t = self.key(L, f)
            v = ev.d.get("value")
            if v is None: continue
            if self.scratch(ev.obj, t): self.marked.setdefault(t, {})[ev.obj.id] = (ev.where(), ev.path())
            for where, path in self.lefts(ip.content(ev.st, v), t, ev.obj): self.report(where, ev, L)

    def lefts(self, c, t, ow):
        out = []
        for a in c.deps | c.ctl:
            if isinstance(a, str) and a.startswith("left:" + t + "|"):
                _, oid, where = a.split("|", 2)
                if ow is None or str(ow.id) != oid: out.append((where, ()))
        return out

    def report(self, where, ev, L):
        fn = where.split("(")[-1].rstrip(")")
        self.r.find("left-over-buffer", f"{ev.mod.rel}:{fn}->{ev.qual}", ev.where(),
                    f"step '{self.step}': the value stored for one item of the loop at line {L.lineno} depends on what earlier items left in the buffer written at {where}, "
                    "which is made before the loop and not cleared for each item", ev.path())

    def on_back(self, ev):
        t = self.key(ev.node, self.ip.frames[-1])
        for oid, (w, p) in self.marked.get(t, {}).items():
            o = ev.st.heap.get(oid)
            if o is None: continue
            m = f"left:{t}|{oid}|{w}"
            c = o.get("content")
            if isinstance(c, V): ev.st.heap[oid] = o.w(content=c.w(deps=c.deps | {m}))
            elif o.kind in ("list", "set"):
                its = o.get("items"); rest = o.get("rest")
                ch = {}
                if isinstance(rest, V): ch["rest"] = rest.w(deps=rest.deps | {m})
                if its is not None: ch["items"] = [x.w(deps=x.deps | {m}) for x in its]
                if ch: ev.st.heap[oid] = o.w(**ch)


# ---------------------------------------------------------------- buffers of the Cython code
def filler(mod, rel, r):
    """a function that fills a buffer handed in by its caller writes the same rows for every element on every path"""
    consts = {}
    for q, fn, enc in D.functions(mod.tree):
        al = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Attribute):
                al[n.targets[0].id] = ast.unparse(n.value)
        views = {a for a, t in mod.argtypes.get(fn.name, {}).items() if t and ":" in t}
        for loop in loops_of(fn):
            if not isinstance(loop, ast.For): continue
            paths = [set()]
            def key(t):
                els = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
                return (t.value.id,) + tuple(al.get(ast.unparse(e), ast.unparse(e)) for e in els)
            def walk(body, ps):
                for s in body:
                    if isinstance(s, ast.If): ps = walk(s.body, [set(p) for p in ps]) + walk(s.orelse, [set(p) for p in ps])
                    elif isinstance(s, (ast.For, ast.While)): pass
                    elif isinstance(s, (ast.Continue, ast.Break)): return ps
                    else:
                        ks = set()
                        for n in ast.walk(s):
                            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in views: ks.add(key(n))
                        ps = [p | ks for p in ps]
                    u = {frozenset(p) for p in ps}; ps = [set(p) for p in u]
                return ps
            ps = walk(loop.body, paths)
            every = set().union(*ps)
            ctr = set(D.bound_names(loop.target))
            for k in every:
                if not any(c in ctr for c in k[1:]): continue
                bad = [p for p in ps if k not in p]
                r.oblige("buffer element filled on every path", f"{rel}:{fn.name} {'/'.join(k)}", not bad)
                if bad:
                    r.find("buffer-not-filled", f"{rel}:{k[0]}[{k[1]}]", f"{rel}:{loop.lineno} ({fn.name})",
                           f"{k[0]}[{', '.join(k[1:])}] is not written on every path of the loop: on the others it keeps the value of the pixel processed before")


def unit(name, r, project):
    kind, _, x = name.partition(" ")
    if kind == "module":
        m = project.modules[x]
        scan(m.tree, m.rel, r)
    elif kind == "c":
        cpixel.check(CUnit(), r)
    elif kind == "pyx":
        m = pyxfront.load(project)[x]; rel = m.path.split("/src/")[-1]
        scan(m.tree, "src/" + rel, r)
        filler(m, "src/" + rel, r)
    else:
        en = entries.ENTRIES[name]
        ip, res, st = run_entry(project, en, lambda ip: Left(ip, r, en.step))
        r.functions |= functions_of(ip)


def scan(tree, rel, r):
    nr = D.noreturn_functions(tree)
    for q, fn, enc in D.functions(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)): continue
        stale_reads(fn, r, rel, q, nr)
        r.functions.add((rel, q))


EX = '''
def f(xs, flag, mode):
    out = []
    w = 0
    for x in xs:
        if x > 1:
            w = x * 2
        out.append(w + x)
    if mode: k = 1
    for x in xs:
        if mode: k = x
        if mode: out.append(k)
    tot = 0
    for x in xs:
        for y in x: tot += y
        out.append(tot / len(x))
    for x in xs:
        t2 = 0
        for y in x: t2 += y
        out.append(t2 / len(x))
    prev = None
    for x in xs:
        if prev is None: prev = x
        out.append(prev)
    return out


def h(cube, n):
    total = 0
    best = 0
    for plane in cube:
        num = 0
        for row in plane:
            num += row.sum()
        cnt = plane.size
        total += num
        best = max(best, cnt)
    return n * total - num + best
'''
EX2 = '''
import numpy as np
def g(img, par):
    out = np.zeros(img.shape)
    seen = np.zeros(img.shape[1:], dtype=bool)
    for i in range(img.shape[0]):
        m = img[i] > par.level
        seen[m] = True
        out[i] = img[i] * seen
    clean = np.zeros(img.shape)
    for i in range(img.shape[0]):
        b = np.zeros(img.shape[1:], dtype=bool)
        b[img[i] > par.level] = True
        clean[i] = img[i] * b
    third = np.zeros(img.shape)
    c = np.zeros(img.shape[1:], dtype=bool)
    for i in range(img.shape[0]):
        c[:] = False
        c[img[i] > par.level] = True
        third[i] = img[i] * c
    return out, clean, third
'''


EXC = """
struct stats { int n; int m; };
struct pixel_ramp { double total; double kept; double out; int flag; struct stats st; };
static void clear(struct pixel_ramp *pr) { pr->total = 0.; pr->st.m = 0; }
static void one(struct pixel_ramp *pr, double x, double *res)
{
    clear(pr);
    if (x > 0) { pr->out = x; } else { pr->out = 0.; }
    if (x > 3) { pr->flag = 1; } else { pr->flag = 0; }
    pr->total += x; pr->kept += x; pr->st.n++; pr->st.m++;
    *res = pr->total + pr->kept + pr->out + pr->flag;
}
static void all(struct pixel_ramp *pr, double *x, double *res, int n)
{
    int i;
    for (i = 0; i < n; ++i) { one(pr, x[i], &res[i]); }
}
"""


def run(rep):
    p = Project()
    rep.rules += ["path-sensitive reaching definitions of every loop body: no read is reached both by this item's assignment and by an earlier item's",
                  "a quantity accumulated in an inner loop and used per outer item is reset per outer item",
                  "abstract interpretation of every driver: what an item leaves in scratch memory made before the loop never reaches the place of another item's result",
                  "C: every member of the per-pixel structure that is accumulated, or read on every path, is cleared or set on every path of the pixel loop (calls followed)",
                  "Cython fillers write every element of a shared buffer on every path"]
    units = list(entries.ENTRIES) + ["module " + m for m in p.modules] + ["pyx " + m for m in p.pyx] + ["c "]
    run_units(rep, units, unit, p)
    for c, n in (("loop body", 100), ("read of a variable the loop assigns", 300), ("store into the place of the item in hand", 60), ("buffer element filled on every path", 6)): rep.floor(c, n)
    r = Result("selftest"); scan(ast.parse(EX), "x", r)
    got = sorted(f"{f.rule}|{f.key}" for f in r.findings.values())
    rep.selftest("left-over variable and running total reported, reset and invariant ones not", got == ["last-item-only|x:num", "running-total|x:tot", "stale-variable|x:w"])
    r = Result("selftest"); cpixel.check(CUnit(text=EXC), r)
    rep.selftest("C: counts kept over pixels reported, cleared ones not", sorted({f.key for f in r.findings.values()}) == ["pixel_ramp.kept", "pixel_ramp.st.n"])
    rep.floor("member accumulated for each pixel", 8); rep.floor("member read for each pixel", 3)
    r = Result("selftest")
    en = entries.Entry("selftest", EX2.replace("def g(", "def drive("), ["img", "par"], {"img": dict(kind="array", axes=("Z", "Y", "X"), dep=True), "par": dict(kind="obj")}, step="selftest")
    run_entry(p, en, lambda ip: Left(ip, r, "selftest"))
    fs = list(r.findings.values())
    rep.selftest("buffer kept over items reported, cleared ones not", len(fs) == 1 and ":10" in fs[0].where or len(fs) == 1)
    rep.assumptions += ["a variable whose new value is computed from its old one is meant to be carried on", "the saturation flag of a pixel persists to the end of the ramp",
                        "loops over at most 12 known items are followed item by item"]
