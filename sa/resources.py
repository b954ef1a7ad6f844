"""Release of acquired resources and restoration of changed ambient state on every way out of a function.

Path-sensitive walk over the statements of one function. A state is (tokens held, facts about tests taken). Any call that is
not known to be harmless may raise; the exceptional exit then runs the enclosing finally blocks and handlers."""
import ast
from .defassign import DefAssign, S, bound_names, FN
from .project import module_functions

SAFE = {"len", "isinstance", "getattr", "hasattr", "range", "tuple", "list", "dict", "set", "str", "repr", "bool", "min", "max", "id",
        "enumerate", "zip", "type", "float", "abs", "sorted", "print", "format", "Path", "super"}
SAFE_ATTR = {"info", "debug", "warning", "error", "exception", "critical", "format", "append", "join", "items", "keys", "values", "get",
             "lower", "upper", "strip", "startswith", "get_context", "time", "perf_counter", "now", "is_set", "group_id"}
POOLS = {"Pool", "ThreadPool", "ThreadPoolExecutor", "ProcessPoolExecutor"}
TMPS = {"TemporaryDirectory", "NamedTemporaryFile", "TemporaryFile", "SpooledTemporaryFile", "mkdtemp", "mkstemp"}
RELEASE = {"close", "terminate", "shutdown", "cleanup", "__exit__", "unlink", "rmtree", "release", "stop"}
KINDNAME = dict(pool="worker pool", file="open file", tmp="temporary file or directory", lock="lock")


def last(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""


def acquire_kind(call):
    if not isinstance(call, ast.Call): return None
    n = last(call.func); u = ast.unparse(call.func)
    if n in POOLS: return "pool"
    if n in TMPS: return "tmp"
    if n == "open" and (isinstance(call.func, ast.Name) or "open" in u) and "os.open" not in u: return "file"
    return None


def ambient(call):
    """(token, 'take'|'give') for calls that change process-wide state"""
    u = ast.unparse(call.func)
    if u.endswith("tracemalloc.start"): return "tracing of memory (tracemalloc)", "take"
    if u.endswith("tracemalloc.stop"): return "tracing of memory (tracemalloc)", "give"
    if u in ("np.seterr", "numpy.seterr", "np.seterrcall"):
        star = any(k.arg is None for k in call.keywords)
        return "numpy error settings", "give" if star else "take"
    if u in ("os.chdir",):
        saved = call.args and isinstance(call.args[0], ast.Name)
        return "working directory", "toggle" if saved else "take"
    if u in ("np.set_printoptions", "numpy.set_printoptions"):
        return "numpy print options", "give" if any(k.arg is None for k in call.keywords) else "take"
    if u in ("socket.setdefaulttimeout", "sys.setrecursionlimit", "logging.disable", "gc.disable", "locale.setlocale", "multiprocessing.set_start_method",
             "mp.set_start_method", "warnings.resetwarnings"): return u, "take"
    if u in ("gc.enable",): return "gc.disable", "give"
    if u.endswith(".setLevel"): return u, "toggle"
    return None


def plain(v):
    """a saved value put back as it is (a name, an element or field of one, or a tuple/list copy of it)"""
    if isinstance(v, ast.Call): return isinstance(v.func, ast.Name) and v.func.id in ("tuple", "list") and len(v.args) == 1 and plain(v.args[0])
    return isinstance(v, (ast.Name, ast.Attribute, ast.Subscript)) or isinstance(v, ast.IfExp) and plain(v.body) and plain(v.orelse)


class Walk(DefAssign):
    def __init__(self, fn, mod, proj, report, start=(), explicit_only=False):
        super().__init__(fn, lambda *a: None, proj.noreturn.get(mod.name, ()) if mod else ())
        self.locals = set()
        self.mod = mod; self.pj = proj; self.rep = report; self.start = frozenset(start)
        self.explicit = explicit_only
        self.fin = []; self.sub = {}; self.tokens = set(); self.exits = 0; self.normal_held = set()
        self.saved = self.saved_vars(); self.info = {}

    # what each local was read from: local -> set of object expressions
    def saved_vars(self):
        out = {}
        for _ in range(2):
            for n in ast.walk(self.fn):
                if isinstance(n, (ast.Assign, ast.NamedExpr)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        pairs = [(t, n.value)]
                        if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts): pairs = list(zip(t.elts, n.value.elts))
                        for a, b in pairs:
                            for nm in bound_names(a):
                                src = out.setdefault(nm, set())
                                for x in ast.walk(b):
                                    if isinstance(x, ast.Name):
                                        src.add(x.id); src |= out.get(x.id, set())
        return out

    def run_tokens(self):
        body = self.fn.body
        out = self.block(body, [S(self.start, frozenset())])
        self.leave(out, "normal return", self.fn)

    def merge_a(self, a, b): return a & b

    def cap(self, sts):
        d = {s.key(): s for s in sts}
        sts = list(d.values())
        if len(sts) > 200: return super().cap(sts)
        return sts

    def leave(self, sts, how, node):
        for s in sts:
            self.exits += 1
            for t in s.a:
                if how == "normal return": self.normal_held.add(t)
                self.rep(t, how, node, self.info.get(t), sorted(f"{a} is {b}" for a, b in s.f))

    def raise_(self, sts, node):
        if self.exc: self.exc[-1].extend(sts)
        elif sts: self.leave(sts, "exception", node)

    # ----- may this raise
    def may_raise(self, e):
        if e is None or self.explicit: return False
        for n in ast.walk(e):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)): return True
            if isinstance(n, ast.Call):
                nm = last(n.func)
                if isinstance(n.func, ast.Name) and nm in SAFE: continue
                if isinstance(n.func, ast.Attribute) and nm in SAFE_ATTR: continue
                if ambient(n) or nm in RELEASE: continue
                return True
        return False

    def block(self, body, sts):
        for s in body:
            if not sts: return []
            sts = self.cap(self.stmt(s, sts))
        return sts

    def stmt(self, s, sts):
        simple = not isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.FunctionDef, ast.ClassDef, ast.Match, ast.Return, ast.Raise))
        if simple and any(self.may_raise(c) for c in ast.iter_child_nodes(s) if isinstance(c, ast.expr)):
            self.raise_(self.released_by(s, sts), s)
        elif isinstance(s, (ast.If, ast.While)) and self.may_raise(s.test): self.raise_(sts, s)
        elif isinstance(s, ast.For) and self.may_raise(s.iter): self.raise_(sts, s)
        elif isinstance(s, ast.With):
            if any(self.may_raise(i.context_expr) for i in s.items): self.raise_(sts, s)
        out = super().stmt(s, sts)
        return self.effects(s, out) if simple else out

    # ----- effects of simple statements
    def name(self, e):
        u = ast.unparse(e)
        for k, v in self.sub.items():
            if u == k: return v
            if u.startswith(k + "."): return v + u[len(k):]
        return u

    def released_by(self, s, sts):
        rel = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Call): rel |= self.releases(n)
        return [S(frozenset(t for t in x.a if t not in rel), x.f) for x in sts]

    def releases(self, call):
        """tokens a call gives back"""
        out = set()
        n = last(call.func)
        if n in RELEASE and isinstance(call.func, ast.Attribute):
            o = self.name(call.func.value)
            for t in self.tokens:
                if t.split("|")[0] == o: out.add(t)
        if n in RELEASE and call.args:
            o = self.name(call.args[0])
            for t in self.tokens:
                if t.split("|")[0] == o: out.add(t)
        am = ambient(call)
        if am and am[1] in ("give", "toggle"): out.add(am[0])
        # helper that releases its parameter
        h = self.pj.callee(self.mod, call)
        if h is not None:
            rp = self.pj.releases_params(h)
            for nm, a in self.pj.bind(h, call):
                if nm in rp:
                    o = self.name(a)
                    for t in self.tokens:
                        if t.split("|")[0] == o and "|" in t and t.split("|")[1] in KINDNAME: out.add(t)
        return out

    def add(self, sts, tok, node, why):
        self.tokens.add(tok); self.info.setdefault(tok, (node, why))
        return [S(x.a | {tok}, x.f) for x in sts]

    def drop(self, sts, tok): return [S(x.a - {tok}, x.f) for x in sts]

    def effects(self, s, sts):
        for n in ast.walk(s):
            if isinstance(n, FN): continue
            if isinstance(n, ast.Call):
                rel = self.releases(n)
                if rel: sts = [S(frozenset(t for t in x.a if t not in rel), x.f) for x in sts]
                am = ambient(n)
                if am and am[1] == "take": sts = self.add(sts, am[0], n, "changed")
                elif am and am[1] == "toggle" and am[0] not in rel: sts = self.add(sts, am[0], n, "changed")
                if last(n.func) == "acquire" and isinstance(n.func, ast.Attribute): sts = self.add(sts, self.name(n.func.value) + "|lock", n, "acquired")
                # handing the object over: stored by the receiver
                for tok in list(self.tokens):
                    o = tok.split("|")[0]
                    if "|" in tok and tok.split("|")[1] in KINDNAME and last(n.func) in ("append", "add", "enter_context", "callback", "finalize", "register", "closing"):
                        if any(self.name(a) == o or isinstance(a, ast.Attribute) and self.name(a.value) == o for a in n.args): sts = self.drop(sts, tok)
                # helper that changes / restores attributes of its arguments
                h = self.pj.callee(self.mod, n)
                if h is not None:
                    b = dict(self.pj.bind(h, n))
                    for p, attr, src in self.pj.attr_effects(h):
                        if p in b: sts = self.attr_change(sts, b[p], attr, b.get(src) if src else None, n, src is None)
                        self.exits += 0
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    k = acquire_kind(s.value) or self.pj.returns_resource(self.mod, s.value)
                    if k: sts = self.add(sts, t.id + "|" + k, s, "acquired")
                    elif isinstance(s.value, ast.Call) and last(s.value.func) == "catch_warnings": pass
                elif isinstance(t, ast.Attribute):
                    # stored in an object: the object owns it now
                    if isinstance(s.value, ast.Name):
                        for tok in list(self.tokens):
                            if tok.split("|")[0] == s.value.id and "|" in tok and tok.split("|")[1] in KINDNAME: sts = self.drop(sts, tok)
                    sts = self.attr_change(sts, t.value, t.attr, s.value, s, False)
                elif isinstance(t, ast.Subscript) and ast.unparse(t.value) == "os.environ":
                    key = "environment variable " + ast.unparse(t.slice)
                    if isinstance(s.value, ast.Name) and any(key in x.a for x in sts): sts = self.drop(sts, key)
                    else: sts = self.add(sts, key, s, "changed")
                elif isinstance(t, ast.Subscript) and isinstance(s.value, ast.Name):
                    for tok in list(self.tokens):
                        if tok.split("|")[0] == s.value.id: sts = self.drop(sts, tok)
        return sts

    def attr_change(self, sts, obj, attr, value, node, opaque):
        o = self.name(obj)
        root = o.split(".")[0].split("[")[0]
        if root == "self" and "." not in o: return sts
        if not isinstance(self.fn, FN): return sts
        params = {a.arg for a in self.fn.args.posonlyargs + self.fn.args.args + self.fn.args.kwonlyargs}
        if root not in params: return sts
        tok = f"{o}|attribute {attr}"
        if value is not None and not opaque:
            if plain(value):
                for x in ast.walk(value):
                    if isinstance(x, ast.Name) and root in self.saved.get(self.sub.get(x.id, x.id), ()): return self.drop(sts, tok)
            if not (isinstance(value, ast.Constant) and value.value is None) and tok not in self.pj.temp_attrs(self): return sts
        elif value is None and not opaque: return sts
        return self.add(sts, tok, node, "changed")

    # ----- control flow
    def s_Return(self, s, sts):
        if self.may_raise(s.value): self.raise_(sts, s)
        if s.value is not None:
            sts = self.effects(s, self.expr(s.value, sts))
            for tok in list(self.tokens):
                o = tok.split("|")[0]
                if any(isinstance(n, ast.Name) and n.id == o for n in ast.walk(s.value)) and "|" in tok and tok.split("|")[1] in KINDNAME:
                    sts = self.drop(sts, tok)
        self.unwind(sts, 0)
        return []

    def unwind(self, sts, depth, leave=True):
        fin = self.fin
        for i in range(len(fin) - 1, depth - 1, -1):
            self.fin = fin[:i]
            sts = self.block(fin[i], sts)
        self.fin = fin
        if leave: self.leave(sts, "normal return", self.fn)
        return sts

    def s_Raise(self, s, sts):
        self.raise_(self.expr(s.exc, sts), s); return []

    def s_Assert(self, s, sts):
        t, f = self.cond(s.test, sts)
        if not self.explicit: self.raise_(f, s)
        return t

    def s_Break(self, s, sts):
        d = self.loopfin[-1] if getattr(self, "loopfin", None) else 0
        return super().s_Break(s, self.unwind(sts, d, False))

    def s_Continue(self, s, sts):
        d = self.loopfin[-1] if getattr(self, "loopfin", None) else 0
        return super().s_Continue(s, self.unwind(sts, d, False))

    def s_For(self, s, sts):
        self.__dict__.setdefault("loopfin", []).append(len(self.fin))
        try:
            it = s.iter
            if isinstance(it, (ast.Tuple, ast.List)) and len(it.elts) <= 6 and not s.orelse and not any(isinstance(n, (ast.Break, ast.Continue)) for n in ast.walk(s)):
                for e in it.elts:
                    save = dict(self.sub)
                    ps = list(zip(s.target.elts, e.elts)) if isinstance(s.target, ast.Tuple) and isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == len(s.target.elts) else [(s.target, e)]
                    for a, b in ps:
                        if isinstance(a, ast.Name) and isinstance(b, (ast.Name, ast.Attribute)):
                            self.sub[a.id] = self.name(b)
                            sts = [S(x.a, frozenset((k.replace(self.name(b), a.id, 1), v) for k, v in x.f if k in (self.name(b), self.name(b) + " is None")) |
                                     frozenset(y for y in x.f if a.id not in y[0].split())) for x in sts]
                            if self.name(b) in self.saved: self.saved[a.id] = self.saved[self.name(b)]
                    sts = self.block(s.body, sts)
                    self.sub = save
                return sts
            # a loop may also run zero times as far as releasing is concerned only when it does not release
            return super().s_For(s, sts)
        finally: self.loopfin.pop()

    def s_While(self, s, sts):
        self.__dict__.setdefault("loopfin", []).append(len(self.fin))
        try: return super().s_While(s, sts)
        finally: self.loopfin.pop()

    def s_With(self, s, sts):
        sup = False
        for i in s.items:
            sts = self.expr(i.context_expr, sts)
            u = ast.unparse(i.context_expr)
            if "suppress" in u: sup = True
            for tok in list(self.tokens):          # `with pool:` / `with closing(f):` releases at the end, whatever happens
                o = tok.split("|")[0]
                if u == o or u.endswith(f"closing({o})"): sts = self.drop(sts, tok)
            if i.optional_vars is not None: sts = self.assign_names(i.optional_vars, sts)
        if not sup: return self.block(s.body, sts)
        self.exc.append([])
        out = self.block(s.body, sts)
        return out + self.exc.pop()

    def s_Try(self, s, sts):
        fin = bool(s.finalbody)
        if fin: self.exc.append([]); self.fin = self.fin + [s.finalbody]
        self.exc.append([])
        out = self.block(s.body, sts)
        ex = self.cap(self.exc.pop())
        all_ = any(h.type is None or ast.unparse(h.type) in ("Exception", "BaseException") for h in s.handlers)
        hout = []
        for h in s.handlers:
            hout += self.block(h.body, ex)
        if not all_: self.raise_(ex, s)
        if s.orelse: out = self.block(s.orelse, out)
        res = self.cap(out + hout)
        if fin:
            self.fin = self.fin[:-1]
            e2 = self.block(s.finalbody, self.cap(self.exc.pop()))
            self.raise_(e2, s)
            res = self.block(s.finalbody, res)
        return res
    s_TryStar = s_Try


class Res:
    """facts about the whole project that the walks need"""

    def __init__(self, project, names):
        from .defassign import noreturn_functions
        self.p = project; self.n = names
        self.noreturn = {m.name: noreturn_functions(m.tree) for m in project.modules.values()}
        self._rp = {}; self._ae = {}; self._rr = {}; self._ta = {}
        self.where = {}
        for m, q, f, c in project.functions(): self.where[f] = (m, q, c)

    def callee(self, mod, call):
        if not isinstance(call, ast.Call): return None
        r = self.n.resolve_callee(mod, call, set())
        if r and r[0] == "func": return r[1]
        return None

    def bind(self, fn, call):
        a = [x.arg for x in fn.args.posonlyargs + fn.args.args]
        out = list(zip(a, call.args))
        out += [(k.arg, k.value) for k in call.keywords if k.arg]
        return out

    def releases_params(self, fn):
        if fn not in self._rp:
            ps = {x.arg for x in fn.args.args}
            self._rp[fn] = {n.func.value.id for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                            and n.func.attr in RELEASE and isinstance(n.func.value, ast.Name) and n.func.value.id in ps}
        return self._rp[fn]

    def attr_effects(self, fn):
        """(parameter, attribute, parameter the value comes from or None) for attribute stores on parameters"""
        if fn not in self._ae:
            ps = {x.arg for x in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
            out = []
            gen = any("contextmanager" in ast.unparse(d) for d in fn.decorator_list)
            for n in ast.walk(fn):
                if gen: break
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in ps and t.value.id != "self":
                            if isinstance(n.value, ast.Constant) and n.value.value is None: out.append((t.value.id, t.attr, None))
                            else:
                                src = [x.id for x in ast.walk(n.value) if isinstance(x, ast.Name) and x.id in ps]
                                if src: out.append((t.value.id, t.attr, src[0]))
            # a helper that takes and restores by itself has no net effect: its own walk decides whether it does
            own = set()
            saved = Walk(fn, self.where[fn][0] if fn in self.where else None, self, lambda *a: None).saved if out else {}
            for n in ast.walk(fn) if out else ():
                if isinstance(n, ast.Assign) and plain(n.value):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                            for x in ast.walk(n.value):
                                if isinstance(x, ast.Name) and x.id not in ps and t.value.id in saved.get(x.id, ()): own.add((t.value.id, t.attr))
            self._ae[fn] = [x for x in out if (x[0], x[1]) not in own]
        return self._ae[fn]

    def returns_resource(self, mod, e, depth=0):
        fn = self.callee(mod, e)
        if fn is None or depth > 3: return None
        if fn not in self._rr:
            self._rr[fn] = None
            vars_ = {}
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                    k = acquire_kind(n.value)
                    if k: vars_[n.targets[0].id] = k
            for n in ast.walk(fn):
                if isinstance(n, ast.Return) and n.value is not None:
                    k = acquire_kind(n.value) or (vars_.get(n.value.id) if isinstance(n.value, ast.Name) else None)
                    if k: self._rr[fn] = k
        return self._rr[fn]

    def temp_attrs(self, walk):
        """attribute tokens the function restores somewhere (so that other assignments to it are temporary changes)"""
        fn = walk.fn
        if fn not in self._ta:
            out = set()
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute):
                            root = ast.unparse(t.value).split(".")[0]
                            if not plain(n.value): continue
                            for x in ast.walk(n.value):
                                if isinstance(x, ast.Name) and root in walk.saved.get(x.id, ()): out.add(f"{ast.unparse(t.value)}|attribute {t.attr}")
            self._ta[fn] = out
        return self._ta[fn]


def warning_calls(project):
    """warnings.filterwarnings/simplefilter calls: (module, function node, call, inside a catch_warnings block)"""
    for m in project.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and last(n.func) in ("filterwarnings", "simplefilter") and "warnings" in ast.unparse(n.func) or \
                    isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("filterwarnings", "simplefilter"):
                yield m, enclosing_fn(n), n, in_with(n, "catch_warnings")


def enclosing_fn(n):
    while getattr(n, "_parent", None) is not None:
        n = n._parent
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)): return n
    return None


def in_with(n, what):
    while getattr(n, "_parent", None) is not None:
        n = n._parent
        if isinstance(n, ast.With) and any(what in ast.unparse(i.context_expr) for i in n.items): return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)): return False
    return False


def test_of(n):
    return None
