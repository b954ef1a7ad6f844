"""P12: resources are released and ambient / borrowed state restored on every way out."""
import ast
from sa.names import Names
from sa.project import Project, Module
from sa.resources import Res, Walk, KINDNAME, acquire_kind, warning_calls, enclosing_fn, last, RELEASE, in_with
from sa.runner import Result
from sa import defassign as D


def tok_text(t):
    if "|" in t:
        o, k = t.split("|", 1)
        return f"{KINDNAME[k]} '{o}'" if k in KINDNAME else f"{k} of the caller's '{o}'"
    return t


def walk_fn(pj, m, q, fn, r, start=(), explicit=False, exempt=()):
    found = {}
    def rep(tok, how, node, info, facts):
        if tok in exempt and how == "normal return": return
        found.setdefault((tok, how), (node, info, facts))
    w = Walk(fn, m, pj, rep, start, explicit)
    w.run_tokens()
    r.functions.add((m.rel, q))
    for t in w.tokens: r.oblige("acquisition or change", f"{m.rel}:{q}:{t}", not any(k[0] == t for k in found))
    for i in range(w.exits): r.oblige("exit path class", f"{m.rel}:{q}:{i}")
    return w, found


def scan(pj, m, q, fn, cls, r):
    exempt = ()
    enter = cls is not None and fn.name in ("__enter__", "__aenter__")
    w, found = walk_fn(pj, m, q, fn, r)
    for (tok, how), (node, info, facts) in found.items():
        if enter and how == "normal return": continue
        if "|" not in tok and how == "normal return" and paired_elsewhere(pj, cls, fn, tok): continue
        at = info[0].lineno if info else fn.lineno
        verb = "released" if "|" in tok and tok.split("|")[1] in KINDNAME else "restored"
        via = f"an exception at line {node.lineno}" if how == "exception" else "a return"
        kind = tok.split("|")[1] if "|" in tok else tok
        r.find("not-" + verb, f"{m.rel}:{fn.name}:{kind}", f"{m.rel}:{at} ({q})",
               f"{tok_text(tok)} is not {verb} when {q} is left through {via}", "; ".join(facts[:6]))
    if enter:
        ex = next((s for s in cls.body if isinstance(s, ast.FunctionDef) and s.name == "__exit__"), None)
        for tok in w.normal_held:
            if ex is None: continue
            w2, f2 = walk_fn(pj, m, q.replace("__enter__", "__exit__"), ex, r, start=[tok], explicit=True)
            r.oblige("enter/exit pair", f"{m.rel}:{cls.name}:{tok}", not f2)
            for (t, how), (node, info, facts) in f2.items():
                r.find("not-restored", f"{m.rel}:{cls.name}:{t}", f"{m.rel}:{ex.lineno} ({cls.name}.__exit__)",
                       f"{tok_text(t)} taken in __enter__ is not given back when __exit__ is left through "
                       + (f"the exception raised at line {node.lineno}" if how == "exception" else "a return"))
    # clean-up code after the yield of a context manager
    if any("contextmanager" in ast.unparse(d) for d in fn.decorator_list):
        for n in ast.walk(fn):
            for body in (getattr(n, "body", None), getattr(n, "orelse", None)):
                if not isinstance(body, list): continue
                for i, s in enumerate(body[:-1]):
                    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) and not isinstance(s, (ast.Try, ast.With)):
                        rest = [x for x in body[i + 1:] if not isinstance(x, (ast.Return, ast.Pass))]
                        guarded = False
                        p = s
                        if rest and not guarded:
                            r.find("not-restored", f"{m.rel}:{fn.name}:yield", f"{m.rel}:{rest[0].lineno} ({q})",
                                   "clean-up after the yield of a context manager is skipped when the body raises")
        r.oblige("context manager", f"{m.rel}:{q}")


def paired_elsewhere(pj, cls, fn, tok):
    """a start/stop style pair of methods or functions of the same module"""
    from sa.resources import ambient
    m = pj.where[fn][0] if fn in pj.where else None
    if m is None: return False
    if cls is None: return False
    for n in ast.walk(cls):
        if isinstance(n, ast.Call):
            a = ambient(n)
            if a and a[0] == tok and a[1] == "give": return True
    return False


def owned(pj, project, r):
    """objects that own a temporary resource: released by a method, and that method called on every way out of its users"""
    owners = {}
    for m in project.modules.values():
        for c in ast.walk(m.tree):
            if not isinstance(c, ast.ClassDef): continue
            fields = {}
            for f in c.body:
                if not isinstance(f, ast.FunctionDef): continue
                loc = {}
                for n in ast.walk(f):
                    if isinstance(n, ast.Assign):
                        k = acquire_kind(n.value) or pj.returns_resource(m, n.value)
                        for t in n.targets:
                            if isinstance(t, ast.Name) and k: loc[t.id] = k
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                                kk = k or (loc.get(n.value.id) if isinstance(n.value, ast.Name) else None)
                                if kk: fields[t.attr] = (kk, n)
            for fld, (k, n) in fields.items():
                rel = release_methods(c, fld)
                r.oblige("owned resource", f"{m.rel}:{c.name}.{fld}", bool(rel))
                if not rel:
                    r.find("not-released", f"{m.rel}:{c.name}:{fld}", f"{m.rel}:{n.lineno} ({c.name})",
                           f"{KINDNAME[k]} kept in self.{fld} is released by no method of {c.name}")
                    continue
                if "__exit__" in rel or "__del__" in rel: continue
                owners[c.name] = (m, c, rel)
    # users of owners: the release has to be reached also when something before it raises
    for m, q, fn, cls in project.functions():
        for name, (om, oc, rel) in owners.items():
            creates = [n for n in ast.walk(fn) if isinstance(n, ast.Call) and last(n.func) == name]
            if cls is not None and cls is not oc:
                fields = {t.attr for f in ast.walk(cls) if isinstance(f, ast.Assign) for t in f.targets if isinstance(t, ast.Attribute)
                          and any(isinstance(x, ast.Call) and last(x.func) == name for x in ast.walk(f.value))}
                # self.x = local; local = Owner(...)
                for f in ast.walk(cls):
                    if isinstance(f, ast.FunctionDef):
                        loc = {t.id for a in ast.walk(f) if isinstance(a, (ast.Assign, ast.AnnAssign)) and a.value is not None
                               for t in (a.targets if isinstance(a, ast.Assign) else [a.target]) if isinstance(t, ast.Name)
                               and any(isinstance(x, ast.Call) and last(x.func) == name for x in ast.walk(a.value))}
                        for a in ast.walk(f):
                            if isinstance(a, (ast.Assign, ast.AnnAssign)) and isinstance(a.value, ast.Name) and a.value.id in loc:
                                for t in (a.targets if isinstance(a, ast.Assign) else [a.target]):
                                    if isinstance(t, ast.Attribute): fields.add(t.attr)
                if fn.name == "__init__" or creates:
                    for fld in fields:
                        rm = [f for f in cls.body if isinstance(f, ast.FunctionDef) and calls_release(f, fld, rel)]
                        r.oblige("owner of an owner", f"{m.rel}:{cls.name}.{fld}", bool(rm))
                        if not rm:
                            r.find("not-released", f"{m.rel}:{cls.name}:{fld}", f"{m.rel}:{fn.lineno} ({cls.name})",
                                   f"nothing in {cls.name} releases self.{fld} ({name}.{'/'.join(sorted(rel))} is never called)")
                for fld in fields:
                    if calls_release(fn, fld, rel): release_reached(m, q, fn, f"self.{fld}", rel, pj, r)
            elif creates and cls is not oc:
                # local owner object
                for n in ast.walk(fn):
                    if isinstance(n, ast.Assign) and n.value in creates and isinstance(n.targets[0], ast.Name):
                        o = n.targets[0].id
                        if calls_release_local(fn, o, rel): release_reached(m, q, fn, o, rel, pj, r)


def release_methods(c, fld):
    out = set()
    for f in c.body:
        if not isinstance(f, ast.FunctionDef): continue
        for n in ast.walk(f):
            if isinstance(n, ast.Call):
                u = ast.unparse(n.func)
                if u.startswith(f"self.{fld}.") and last(n.func) in RELEASE: out.add(f.name)
                if last(n.func) in RELEASE | {"finalize"} and any(f"self.{fld}" in ast.unparse(a) for a in n.args): out.add(f.name)
    # methods that call a releasing method
    for _ in range(3):
        for f in c.body:
            if isinstance(f, ast.FunctionDef):
                for n in ast.walk(f):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and ast.unparse(n.func.value) == "self" and n.func.attr in out: out.add(f.name)
    return out


def calls_release(f, fld, rel):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in rel and
               ast.unparse(n.func.value) == f"self.{fld}" for n in ast.walk(f)) or \
        any(isinstance(n, ast.Call) and any(ast.unparse(a) == f"self.{fld}" for a in n.args) and last(n.func) in ("closing", "ExitStack", "callback") for n in ast.walk(f))


def calls_release_local(f, o, rel):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in rel and
               ast.unparse(n.func.value) == o for n in ast.walk(f))


def release_reached(m, q, fn, o, rel, pj, r):
    """every statement of the block that uses the object before it releases it is covered by the release"""
    r.oblige("release on every exit", f"{m.rel}:{q}:{o}")
    for n in ast.walk(fn):
        for body in (getattr(n, "body", None), getattr(n, "orelse", None)):
            if not isinstance(body, list): continue
            idx = [i for i, s in enumerate(body) if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and
                   isinstance(s.value.func, ast.Attribute) and s.value.func.attr in rel and ast.unparse(s.value.func.value) == o]
            if not idx: continue
            if isinstance(n, ast.Try) and body is n.finalbody: continue
            for s in body[:idx[0]]:
                used = [x for x in ast.walk(s) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and ast.unparse(x.func.value) == o]
                if used and not protected(s, o, rel):
                    r.find("not-released", f"{m.rel}:{fn.name}:{o}", f"{m.rel}:{body[idx[0]].lineno} ({q})",
                           f"{o}.{'/'.join(sorted(rel))} is skipped when the call at line {used[0].lineno} raises")


def protected(s, o, rel):
    for n in ast.walk(s):
        if isinstance(n, ast.Try):
            for part in n.finalbody + [b for h in n.handlers for b in h.body]:
                for x in ast.walk(part):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in rel and ast.unparse(x.func.value) == o: return True
    return False


def warn_scope(pj, project, r):
    """every change of the warning filters happens inside catch_warnings, possibly in a caller"""
    calls = list(warning_calls(project))
    bad_fns = {}
    def callers(fn):
        for m, q, call, callee, _ in pj.n.calls():
            if callee is fn: yield m, call
    def covered(fn, depth=0):
        if fn is None or depth > 4: return False
        cs = list(callers(fn))
        if not cs: return False
        return all(in_with(c, "catch_warnings") or stack_catch(c) or covered(enclosing_fn(c), depth + 1) for _, c in cs)
    for m, fn, call, inside in calls:
        ok = inside or stack_catch(call) or covered(fn)
        r.oblige("warning filter change", f"{m.rel}:{call.lineno}", ok)
        if not ok:
            r.find("not-restored", f"{m.rel}:{fn.name if fn else '<module>'}:warning filters", f"{m.rel}:{call.lineno}" + (f" ({fn.name})" if fn else ""),
                   "warning filters are changed outside warnings.catch_warnings and stay changed for the caller")


def stack_catch(n):
    fn = enclosing_fn(n)
    return fn is not None and any(isinstance(x, ast.Call) and last(x.func) == "enter_context" and "catch_warnings" in ast.unparse(x) for x in ast.walk(fn))


def run_on(project, rep_result):
    nm = Names(project)
    pj = Res(project, nm)
    for m, q, fn, cls in project.functions(): scan(pj, m, q, fn, cls, rep_result)
    owned(pj, project, rep_result)
    warn_scope(pj, project, rep_result)


EX = '''
import warnings, tempfile, tracemalloc
from contextlib import contextmanager
def pool_leak(ctx, n, work):
    pool = ctx.Pool(n)
    r = pool.starmap(f, work)
    pool.close()
    return r
def pool_ok(ctx, n, work):
    pool = ctx.Pool(n)
    try:
        return pool.starmap(f, work)
    finally:
        pool.terminate()
def bbox_leak(w, flag):
    saved = w.bounding_box
    w.bounding_box = None
    x = compute(w)
    w.bounding_box = saved
    return x
def bbox_ok(w, flag):
    saved = w.bounding_box
    if flag and saved is not None: w.bounding_box = None
    try:
        return compute(w)
    finally:
        if saved is not None: w.bounding_box = saved
def warn_leak(x):
    warnings.simplefilter("ignore")
    return compute(x)
def warn_helper(): warnings.simplefilter("ignore")
def warn_ok(x):
    with warnings.catch_warnings():
        warn_helper()
        return compute(x)
@contextmanager
def cm_leak(w):
    setup(w)
    yield
    teardown(w)
class Own:
    def __init__(self): self.t = tempfile.TemporaryDirectory()
    def clean(self): self.t.cleanup()
    def work(self): return 1
class User:
    def __init__(self): self.o = Own()
    def run(self):
        x = self.o.work()
        self.o.clean()
        return x
class T:
    def __enter__(self):
        tracemalloc.start()
    def __exit__(self, *a):
        if self.bad: raise ValueError
        tracemalloc.stop()
'''


def run(rep):
    p = Project()
    rep.rules += ["path-sensitive walk of every function with an exceptional exit at every call: pools, files, temporary files, tracing, numpy error "
                  "settings, environment, and temporarily changed attributes of parameters are given back on every exit",
                  "objects owning a temporary resource have a releasing method that their users reach on every exit",
                  "warning filters change only inside catch_warnings (also when the change is in a helper)"]
    r = rep.new("all functions")
    run_on(p, r)
    rep.floor("exit path class", 200); rep.floor("warning filter change", 10); rep.floor("acquisition or change", 3)

    class P2: pass
    m = Module("selftest", "/repo/src/stcal/selftest.py", False, EX)
    p2 = Project.__new__(Project)
    p2.modules = {"selftest": m}; p2.pyx = {}; p2.src = p.src; p2.pkg = "selftest"
    t = Result("selftest"); run_on(p2, t)
    keys = {f.key.split(":", 1)[1] for f in t.findings.values()}
    for k in ("pool_leak:pool", "bbox_leak:attribute bounding_box", "warn_leak:warning filters", "cm_leak:yield", "run:self.o", "T:tracing of memory (tracemalloc)"):
        rep.selftest(k, k in keys)
    rep.selftest("released/restored code is quiet", not any(x.split(":")[0].endswith("_ok") or "warn_helper" in x for x in keys))
    rep.assumptions += ["attribute assignment and logging do not raise", "handlers for Exception catch everything that calls raise"]
