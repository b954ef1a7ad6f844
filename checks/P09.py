"""P09: no hidden state between calls, no dependence on random numbers, clock or environment."""
import ast, re
from sa import entries
from sa.cfront import CUnit, walk as cwalk
from sa.project import Project, Module
from sa.defassign import locals_of, functions
from sa.runner import run_units, run_entry, functions_of, Result

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "add", "discard", "sort", "reverse",
            "fill", "resize", "put", "itemset", "appendleft", "popleft", "rotate"}
# documented: the catalog service can be redirected by an environment variable read when the module is imported
ENV_OK = {("tweakreg", "ext:os.environ.get"), ("tweakreg", "ext:os.environ")}
# memoisation of a pure function of integers whose result is only read
CACHE_OK = {"_get_partition_info"}
CACHES = ("lru_cache", "cache", "cached", "memoize", "Memory.cache")
ENTROPY = re.compile(r"^(np|numpy)\.random\.|^random\.|^secrets\.|^uuid\.uuid")


def at_definition(ev):
    """the statement belongs to a module or class body, which is executed when it is defined"""
    return ev.qual == "<module>" or ev.qual in ev.mod.classquals()


def setup(ip, en, r):
    def static(o): return o is not None and (o.id in ip.static) and not o.get("root") and o.kind not in ("ext",)
    def h(ev):
        if isinstance(ev.node, ast.AST) and at_definition(ev): return
        objs = [ev.owner] if ev.kind == "store" else [ev.obj] if ev.kind in ("mutate", "store_item") else list(ev.objs)
        for o in objs:
            bad = static(o)
            r.oblige("object update", ev.where(), not bad)
            if bad:
                nm = o.get("name") or o.id.split("@")[0]
                r.find("static-state", f"{ev.mod.rel}:{ev.qual.split('.')[-1]}:{getattr(ev, 'name', '') if ev.kind == 'setattr' else o.kind}", ev.where(),
                       f"changes an object that outlives the call ({o.kind} created when the module or function was defined: {nm})", ev.path())
    for k in ("store", "mutate", "store_item", "setattr"): ip.on(k, h)
    ip.on("global_write", lambda ev: r.find("static-state", f"{ev.mod.rel}:global {ev.name}", ev.where(), f"assigns the module variable '{ev.name}'", ev.path()))
    def out(ev):
        if ev.owner is not None and ev.owner.get("root"):
            taint(r, en, ev.vcontent.deps | ev.vcontent.ctl, ev.where(), ev.owner.get("root"))
    ip.on("store", out)


def taint(r, en, deps, where, what):
    bad = sorted(d for d in deps if d.startswith("ext:") and (en.step, d) not in ENV_OK)
    r.oblige("output purity", f"{en.step}:{what}", not bad)
    for d in bad:
        r.find("impure-result", f"{en.step}:{d}", where, f"output '{what}' of step '{en.step}' depends on {d[4:]}")


def unit(name, r, project):
    en = entries.ENTRIES[name]
    ip, res, st = run_entry(project, en, lambda ip: setup(ip, en, r))
    r.functions |= functions_of(ip)
    taint(r, en, ip.alldeps(st, res), f"driver {name}", "return value")


def root_name(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)): e = e.value
    return e.id if isinstance(e, ast.Name) else None


def scan_module(m, r):
    """syntactic side: every function, reached by a driver or not"""
    glob = locals_of(m.tree)
    mutable = set(); imports = set(); consumable = set(); classes = {}
    for s in m.tree.body:
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names: imports.add((a.asname or a.name).split(".")[0])
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                if isinstance(t, ast.Name):
                    mutable.add(t.id)
                    u = ast.unparse(s.value)
                    if isinstance(s.value, (ast.GeneratorExp,)) or re.match(r"(itertools\.)?(count|cycle|chain|iter|map|filter|zip|enumerate)\(", u): consumable.add(t.id)
        if isinstance(s, ast.ClassDef): classes[s.name] = s
    fnames = {s.name for s in m.tree.body if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef))}
    for q, fn, enc in functions(m.tree):
        if isinstance(fn, ast.Lambda): continue
        r.functions.add((m.rel, q))
        loc = locals_of(fn)
        for e in enc: loc = loc | (locals_of(e) if not isinstance(e, ast.Lambda) else set())
        def bad(node, key, text):
            r.find("static-state", f"{m.rel}:{q.split('.')[-1]}:{key}", f"{m.rel}:{node.lineno} ({q})", text)
        def is_static(nm): return nm is not None and nm not in loc and (nm in mutable or nm in classes or nm in imports or nm in fnames)
        for n in ast.walk(fn):
            if isinstance(n, ast.Global):
                written = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
                for nm in n.names:
                    r.oblige("global declaration", f"{m.rel}:{nm}", nm not in written)
                    if nm in written: bad(n, f"global {nm}", f"assigns the module variable '{nm}'")
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                nm = root_name(n)
                r.oblige("store target", f"{m.rel}:{n.lineno}:{n.col_offset}")
                if nm == "cls" and "cls" in loc and isinstance(n, ast.Attribute): bad(n, n.attr, f"changes the class attribute '{n.attr}'")
                elif is_static(nm): bad(n, nm, f"changes '{ast.unparse(n)[:60]}', which outlives the call")
                u = ast.unparse(n)
                if "__class__" in u or u.startswith("type(self)"): bad(n, u[:40], f"changes the class attribute '{u[:60]}'")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                nm = root_name(n.func.value)
                if is_static(nm) and nm not in imports: bad(n, nm, f"changes '{nm}' in place, which outlives the call ({n.func.attr})")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "next" and n.args and root_name(n.args[0]) in consumable and root_name(n.args[0]) not in loc:
                bad(n, root_name(n.args[0]), "advances an iterator that outlives the call")
            if isinstance(n, ast.Call):
                u = ast.unparse(n.func)
                if ENTROPY.match(u) and not (u.endswith("default_rng") and n.args) and not (u.endswith("RandomState") and n.args):
                    r.find("impure-result", f"{m.rel}:{q.split('.')[-1]}:{u}", f"{m.rel}:{n.lineno} ({q})", f"uses random numbers from process-wide or unseeded state ({u})")
                if u in ("os.environ.get", "os.getenv") or u.startswith("os.environ"):
                    r.find("impure-result", f"{m.rel}:{q.split('.')[-1]}:environment", f"{m.rel}:{n.lineno} ({q})", "reads the environment during a call")
                if isinstance(n.func, ast.Name) and n.func.id in ("globals", "setattr") and n.func.id == "setattr" and n.args and is_static(root_name(n.args[0])):
                    bad(n, root_name(n.args[0]), f"sets an attribute of '{root_name(n.args[0])}', which outlives the call")
            if isinstance(n, ast.Subscript) and ast.unparse(n.value) == "os.environ" and isinstance(n.ctx, ast.Load):
                r.find("impure-result", f"{m.rel}:{q.split('.')[-1]}:environment", f"{m.rel}:{n.lineno} ({q})", "reads the environment during a call")
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func) == "globals":
                bad(n, "globals()", "assigns a module variable through globals()")
        for d in fn.decorator_list:
            u = ast.unparse(d)
            t = u.split("(")[0].split(".")[-1]
            if t in CACHES:
                ok = fn.name in CACHE_OK
                r.oblige("cached function", f"{m.rel}:{q}", ok)
                if not ok: bad(fn, "cache", f"results of {fn.name} are kept between calls ({u})")
        a = fn.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            mut = isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call) and \
                not ast.unparse(d.func).split(".")[-1] in ("float", "int", "tuple", "frozenset", "str", "bool")
            r.oblige("default argument", f"{m.rel}:{q}:{p.arg}", not mut)
            if not mut: continue
            if isinstance(d, ast.Call) and re.search(r"(now|time|random|uuid|today)\b", ast.unparse(d.func)):
                bad(d, p.arg, f"default of '{p.arg}' is taken once, when the module is imported")
            for n in ast.walk(fn):
                hit = None
                if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) and root_name(n) == p.arg: hit = n
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == p.arg: hit = n
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and root_name(n.func.value) == p.arg: hit = n
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == p.arg and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets): hit = n
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id == p.arg: hit = n
                if hit is not None:
                    bad(hit, p.arg, f"the default of '{p.arg}' is one object shared by all calls and is changed, kept or handed out"); break
    # class-level mutable values changed through self
    for c in [n for n in ast.walk(m.tree) if isinstance(n, ast.ClassDef)]:
        shared = {}
        for s in c.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and isinstance(s.value, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Name): shared[t.id] = s
        if any("dataclass" in ast.unparse(d) for d in c.decorator_list): shared = {k: v for k, v in shared.items() if not isinstance(v.value, ast.Call)}
        rebound = {t.attr for f in c.body if isinstance(f, ast.FunctionDef) and f.name == "__init__" for n in ast.walk(f) if isinstance(n, ast.Assign)
                   for t in n.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"}
        for nm in shared:
            r.oblige("class-level container", f"{m.rel}:{c.name}.{nm}")
            if nm in rebound: continue
            for n in ast.walk(c):
                u = None
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)): u = ast.unparse(n.value)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS: u = ast.unparse(n.func.value)
                if isinstance(n, ast.AugAssign): u = ast.unparse(n.target)
                if u in (f"self.{nm}", f"{c.name}.{nm}", f"cls.{nm}"):
                    r.find("static-state", f"{m.rel}:{c.name}:{nm}", f"{m.rel}:{n.lineno} ({c.name})", f"'{nm}' is shared by all instances of {c.name} and changed in place")
                    break


DIAG = {"printf", "fprintf", "snprintf", "sprintf", "fflush", "fopen", "fclose", "puts", "fputs", "strftime", "localtime", "gmtime", "memset", "getrusage", "PyErr_Print"}
CLOCK = ("rand", "srand", "time", "clock", "getenv", "random", "drand48", "gettimeofday", "clock_gettime", "getpid")


def c_state(r, u=None):
    """a variable that outlives the call is harmless as long as it only ever feeds diagnostic output"""
    from pycparser import c_ast
    from sa.cfront import callname, params
    u = u or CUnit(); info = {}
    keep = {n: d for n, d in u.globals.items() if "const" not in (d.quals or []) and not re.search(r"\b(PyMethodDef|PyModuleDef|PyTypeObject|PyModuleDef_Slot)\b", show(d))}
    for fn, fd in u.funcs.items():
        r.functions.add((u.rel, fn))
        ps = set(params(fd))
        local = ps | {n.name for n in cwalk(fd.body) if isinstance(n, c_ast.Decl)}
        statics = {n.name: n for n in cwalk(fd.body) if isinstance(n, c_ast.Decl) and "static" in (n.storage or []) and "const" not in (n.quals or [])}
        names = {n for n in keep if n not in local} | set(statics)
        reads = {}; writes = {}
        def quiet(stmt):
            if stmt is None: return True
            for n in cwalk(stmt):
                if isinstance(n, (c_ast.Return, c_ast.Goto, c_ast.Break, c_ast.Continue)): return False
                if isinstance(n, c_ast.FuncCall) and callname(n) not in DIAG: return False
                if isinstance(n, c_ast.Assignment) and not (isinstance(n.lvalue, c_ast.ID) and n.lvalue.name in names): return False
                if isinstance(n, c_ast.UnaryOp) and n.op in ("++", "--", "p++", "p--"): return False
            return True
        def visit(n, diag):
            if n is None: return
            if isinstance(n, c_ast.ID):
                if n.name in names and not diag: reads.setdefault(n.name, n)
                return
            if isinstance(n, c_ast.FuncCall):
                d = callname(n) in DIAG
                if n.args:
                    for a in n.args.exprs:
                        visit(a, diag or d)
                        if not d and isinstance(a, c_ast.UnaryOp) and a.op == "&" and isinstance(a.expr, c_ast.ID) and a.expr.name in names: writes.setdefault(a.expr.name, a)
                return
            if isinstance(n, c_ast.Assignment):
                r.oblige("C assignment", f"{fn}:{n.coord.line}:{n.coord.column}")
                b = n.lvalue
                while True:
                    if isinstance(b, (c_ast.ArrayRef, c_ast.StructRef)): b = b.name
                    elif isinstance(b, c_ast.UnaryOp) and b.op == "*": b = b.expr
                    elif isinstance(b, c_ast.Cast): b = b.expr
                    else: break
                if isinstance(b, c_ast.ID) and b.name in names:
                    writes.setdefault(b.name, n)
                    if isinstance(n.lvalue, c_ast.ArrayRef): visit(n.lvalue.subscript, diag)
                else: visit(n.lvalue, diag)
                visit(n.rvalue, diag); return
            if isinstance(n, c_ast.UnaryOp) and n.op in ("++", "--", "p++", "p--"):
                if isinstance(n.expr, c_ast.ID) and n.expr.name in names: writes.setdefault(n.expr.name, n); return
            if isinstance(n, c_ast.If):
                q = quiet(n.iftrue) and quiet(n.iffalse)
                visit(n.cond, diag or q); visit(n.iftrue, diag); visit(n.iffalse, diag); return
            for _, c in n.children(): visit(c, diag)
        visit(fd.body, False)
        info[fn] = (reads, writes, statics)
        clocks(r, u, fn, fd, ps)
    allreads = {}; allwrites = {}
    for fn, fd in u.funcs.items():
        reads, writes, statics = info[fn]
        for n, nd in writes.items():
            if n in statics:
                if n in reads: r.find("static-state", f"{u.rel}:{fn}:{n}", f"{u.where(nd)} ({fn})", f"'{n}' keeps its value between calls and is read to compute results")
            else: allwrites.setdefault(n, []).append((fn, nd))
        for n, nd in reads.items():
            if n not in statics: allreads.setdefault(n, []).append((fn, nd))
    for n, ws in allwrites.items():
        r.oblige("C file-level variable", n, n not in allreads)
        if n in allreads:
            f2, nd2 = allreads[n][0]
            r.find("static-state", f"{u.rel}:{n}", f"{u.where(ws[0][1])} ({ws[0][0]})", f"file-level variable '{n}' is assigned during a call and read in {f2} at {u.where(nd2)}")


def clocks(r, u, fn, fd, ps):
    from pycparser import c_ast
    from sa.cfront import callname
    def src(e, tainted): return any(isinstance(n, c_ast.FuncCall) and callname(n) in CLOCK or isinstance(n, c_ast.ID) and n.name in tainted for n in cwalk(e))
    if not any(isinstance(n, c_ast.FuncCall) and callname(n) in CLOCK for n in cwalk(fd.body)): return
    t = set()
    for _ in range(4):
        for n in cwalk(fd.body):
            if isinstance(n, c_ast.Decl) and n.init is not None and src(n.init, t): t.add(n.name)
            if isinstance(n, c_ast.Assignment) and isinstance(n.lvalue, c_ast.ID) and src(n.rvalue, t): t.add(n.lvalue.name)
    def bad(n, why): r.find("impure-result", f"{u.rel}:{fn}:clock", f"{u.where(n)} ({fn})", f"clock, random or process value {why}")
    for n in cwalk(fd.body):
        if isinstance(n, c_ast.Return) and n.expr is not None and src(n.expr, t): bad(n, "is returned")
        if isinstance(n, c_ast.Assignment) and not isinstance(n.lvalue, c_ast.ID) and src(n.rvalue, t): bad(n, "is stored")
        if isinstance(n, (c_ast.If, c_ast.While, c_ast.For)) and n.cond is not None and src(n.cond, t): bad(n, "decides a branch")
        if isinstance(n, c_ast.FuncCall) and callname(n) not in DIAG and callname(n) not in CLOCK and n.args and any(src(a, t) for a in n.args.exprs): bad(n, "is passed on")


def show(d):
    from sa.cfront import show as s
    return s(d)


def pyx_state(project, r):
    for mod, paths in project.pyx.items():
        for path in paths:
            text = open(path).read()
            rel = path[path.index("src/"):]
            names = set(re.findall(r"^cdef\s+(?!class|enum|struct|inline|extern|packed)[\w\[\]:., ]*?\b(\w+)\s*=", text, re.M)) | set(re.findall(r"^(\w+)\s*=", text, re.M))
            r.oblige("Cython module", rel)
            for i, line in enumerate(text.split("\n"), 1):
                s = line.strip()
                if s.startswith("global "): r.find("static-state", f"{rel}:global", f"{rel}:{i}", f"assigns a module variable: {s}")
                for nm in names:
                    if re.match(rf"\s+{nm}(\[.*?\])*\s*[-+*/|&]?=[^=]", line): r.find("static-state", f"{rel}:{nm}", f"{rel}:{i}", f"assigns the module variable '{nm}' during a call")


def aux(name, r, project):
    if name == "C extension": c_state(r)
    elif name == "Cython": pyx_state(project, r)
    elif name.startswith("module "): scan_module(project.modules[name[7:]], r)
    else: unit(name, r, project)


EXAMPLE = '''
import numpy as np
import time
STORE = {}
LAST = [None]
def remember(x):
    STORE["x"] = x
class C:
    items = []
    def add(self, x): self.items.append(x)
def acc(x, out=[]):
    out.append(x)
    return out
def drive(a):
    remember(a)
    C().add(a)
    acc(a)
    return a * time.time()
'''


def run(rep):
    p = Project()
    rep.rules += ["no store, container mutation or attribute write reached from a driver, and none in any function, changes an object created at module, class "
                  "or function definition time", "no result depends on clock, random numbers, environment", "no memoised functions, no mutable defaults changed or "
                  "handed out, no class-level containers changed in place", "no static or file-level variable of the C and Cython extensions is assigned"]
    run_units(rep, list(entries.ENTRIES) + ["module " + m for m in p.modules] + ["C extension", "Cython"], aux, p)
    rep.floor("object update", 300); rep.floor("store target", 300); rep.floor("output purity", 10); rep.floor("C assignment", 200)
    r = Result("selftest")
    en = entries.Entry("selftest", EXAMPLE, ["a"], {"a": entries.arr(("Y", "X"))})
    run_aux = run_entry(p, en, lambda ip: setup(ip, en, r))
    ip, res, st = run_aux
    taint(r, en, ip.alldeps(st, res), "x", "return value")
    ks = {f.key for f in r.findings.values()}
    rep.selftest("impure-result", any("time.time" in k for k in ks))
    cu = CUnit(text="""typedef long time_t; time_t time(time_t *); static int last; int printf(const char *, ...);
int f(int x) { static int n = 0; n++; last = x; printf("%d", last); return x + n; }
int g(void) { int t = (int) time(0); return t; }""")
    c = Result("s3"); c_state(c, cu)
    ks = {f.key.split(":", 1)[1] for f in c.findings.values()}
    rep.selftest("static-state C", ks == {"f:n", "g:clock"})
    m = Module("selftest", "/repo/src/stcal/selftest.py", False, EXAMPLE)
    t = Result("s2"); scan_module(m, t)
    ks = {f.key.split(":", 1)[1] for f in t.findings.values()}
    for k in ("remember:STORE", "C:items", "acc:out"): rep.selftest("static-state " + k, k in ks)
    rep.assumptions += ["the catalog service URL may be set by an environment variable when the module is imported (documented)",
                        "external libraries keep no state that changes results"]
