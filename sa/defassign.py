"""Definite assignment per function, path sensitive: a local variable read on a feasible-looking path on which it was
never assigned. States are (names assigned, facts about tests already taken); correlated tests are therefore not confused."""
import ast, builtins

CAP = 96
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__spec__", "__loader__", "__package__",
                                 "__builtins__", "__class__", "WindowsError", "__annotations__"}
FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
SCOPES = FN + (ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def bound_names(target):
    return [n.id for n in ast.walk(target) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))]


def scope_walk(node):
    """nodes of this scope (nested scopes are yielded but not entered, except their decorators/defaults/first iterables)"""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, list) else list(node)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FN):
            a = n.args
            todo += [d for d in a.defaults + a.kw_defaults if d is not None]
            if not isinstance(n, ast.Lambda): todo += n.decorator_list
        elif isinstance(n, ast.ClassDef): todo += n.decorator_list + n.bases + [k.value for k in n.keywords]
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            todo.append(n.generators[0].iter)
            todo += [x for x in ast.walk(n) if isinstance(x, ast.NamedExpr)]
        else: todo += list(ast.iter_child_nodes(n))


def locals_of(fn):
    """names local to a function (or to a module / class body)"""
    names = set(); glob = set()
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    if isinstance(fn, FN):
        a = fn.args
        names |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if a.vararg: names.add(a.vararg.arg)
        if a.kwarg: names.add(a.kwarg.arg)
    for n in scope_walk(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): names.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                if al.name != "*": names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name: names.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)): glob |= set(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: names.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest: names.add(n.rest)
    return names - glob


def params_of(fn):
    a = fn.args
    s = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg: s.add(a.vararg.arg)
    if a.kwarg: s.add(a.kwarg.arg)
    return s


class S:
    """one path class"""
    __slots__ = ("a", "f")

    def __init__(self, a, f): self.a = a; self.f = f      # frozenset, frozenset of (atom, bool)

    def key(self): return (self.a, self.f)


def lit(e):
    """(atom, polarity) of a test literal"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        a, p = lit(e.operand); return a, not p
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        l = ast.unparse(e.left); r = ast.unparse(e.comparators[0]); op = e.ops[0]
        if isinstance(op, ast.Gt): return f"{r} < {l}", True
        if isinstance(op, ast.Lt): return f"{l} < {r}", True
        if isinstance(op, ast.GtE): return f"{l} < {r}", False
        if isinstance(op, ast.LtE): return f"{r} < {l}", False
        if isinstance(op, (ast.Eq, ast.NotEq)):
            l, r = sorted((l, r)); return f"{l} == {r}", isinstance(op, ast.Eq)
        if isinstance(op, (ast.Is, ast.IsNot)): return f"{l} is {r}", isinstance(op, ast.Is)
        if isinstance(op, (ast.In, ast.NotIn)): return f"{l} in {r}", isinstance(op, ast.In)
    return ast.unparse(e), True


def names_in(atom):
    try: return {n.id for n in ast.walk(ast.parse(atom, mode="eval")) if isinstance(n, ast.Name)}
    except SyntaxError: return set()


_names = {}


def anames(atom):
    if atom not in _names: _names[atom] = names_in(atom)
    return _names[atom]


class DefAssign:
    def __init__(self, fn, report, noreturn=(), defined=()):
        self.fn = fn; self.report = report; self.noreturn = noreturn
        self.locals = locals_of(fn) - set(defined)
        self.alias = {}
        self.brk = []; self.cont = []; self.exc = []; self.seen = set(); self.reads = 0

    def run(self):
        init = params_of(self.fn) if isinstance(self.fn, FN) else set()
        body = self.fn.body if isinstance(self.fn.body, list) else [ast.Expr(self.fn.body)]
        self.block(body, [S(frozenset(init & self.locals), frozenset())])

    # ----- helpers
    def cap(self, sts):
        d = {}
        for s in sts: d[s.key()] = s
        sts = list(d.values())
        if len(sts) > CAP:      # forget facts that do not separate assignment sets, then merge
            by = {}
            for s in sts: by.setdefault(s.a, []).append(s)
            out = []
            for a, l in by.items():
                f = l[0].f
                for s in l[1:]: f = f & s.f
                out.append(S(a, f))
            sts = out
            if len(sts) > CAP:
                a = sts[0].a; f = sts[0].f
                for s in sts[1:]: a = self.merge_a(a, s.a); f = f & s.f        # optimistic: never an alarm from the cap
                sts = [S(a, f)]
        return sts

    def merge_a(self, a, b): return a | b

    def kill(self, s, name, extra=()):
        f = frozenset(x for x in s.f if name not in anames(x[0])) | frozenset(extra)
        return S(s.a | {name} if name in self.locals else s.a, f)

    def read(self, name, node, sts):
        if name not in self.locals: return sts
        self.reads += 1
        bad = [s for s in sts if name not in s.a]
        if bad:
            if (name, node.lineno) not in self.seen:
                self.seen.add((name, node.lineno))
                facts = sorted(f"{a} is {b}" for a, b in bad[0].f)
                self.report(name, node, facts)
        return [s if name in s.a else S(s.a | {name}, s.f) for s in sts]

    # ----- expressions
    def expr(self, e, sts):
        if e is None or not sts: return sts
        if isinstance(e, ast.Name):
            return self.read(e.id, e, sts) if isinstance(e.ctx, ast.Load) else sts
        if isinstance(e, ast.NamedExpr):
            sts = self.expr(e.value, sts); return [self.kill(s, e.target.id) for s in sts]
        if isinstance(e, ast.BoolOp):
            return self.cap(sum(self.cond(e, sts), []))
        if isinstance(e, ast.IfExp):
            t, f = self.cond(e.test, sts)
            return self.cap(self.expr(e.body, t) + self.expr(e.orelse, f))
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            for x in [e.left] + e.comparators: sts = self.expr(x, sts)
            return sts
        if isinstance(e, FN):
            for d in e.args.defaults + [k for k in e.args.kw_defaults if k is not None]: sts = self.expr(d, sts)
            return sts
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            own = {n for g in e.generators for n in bound_names(g.target)}
            sts = self.expr(e.generators[0].iter, sts)
            todo = [g.iter for g in e.generators[1:]] + [c for g in e.generators for c in g.ifs]
            todo += [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            for x in todo:
                for n in ast.walk(x):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in own:
                        # names bound by lambdas / nested comprehensions inside are not ours
                        if n.id in self.locals and not _bound_inside(x, n.id): sts = self.read(n.id, n, sts)
            return sts
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr): sts = self.expr(c, sts)
            elif isinstance(c, ast.keyword): sts = self.expr(c.value, sts)
            elif isinstance(c, ast.comprehension): pass
        return sts

    def expand(self, e):
        """a test on a name that stands for an earlier test"""
        if isinstance(e, ast.Name) and e.id in self.alias and self.alias[e.id] is not None: return self.alias[e.id]
        return e

    def cond(self, e, sts, depth=0):
        """(states where e holds, states where it does not)"""
        if not sts: return [], []
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, sts, depth); return f, t
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                fs = []; cur = sts
                for v in e.values:
                    cur, f = self.cond(v, cur, depth); fs += f
                return self.cap(cur), self.cap(fs)
            ts = []; cur = sts
            for v in e.values:
                t, cur = self.cond(v, cur, depth); ts += t
            return self.cap(ts), self.cap(cur)
        if isinstance(e, ast.Constant): return (sts, []) if e.value else ([], sts)
        if isinstance(e, ast.NamedExpr):
            sts = self.expr(e, sts); e = e.target
            atom, pol = e.id, True
        else:
            sts = self.expr(e, sts)
            atom, pol = lit(e)
        t, f = [], []
        for s in sts:
            d = dict(s.f)
            v = d.get(atom)
            if v is None: v = self.implied(atom, d)
            if v is not None: (t if v == pol else f).append(s); continue
            t.append(S(s.a, s.f | {(atom, pol)} | self.also(atom, pol)))
            f.append(S(s.a, s.f | {(atom, not pol)} | self.also(atom, not pol)))
        al = self.expand(e)
        if al is not e and depth < 4:
            t, _ = self.cond(al, t, depth + 1)
            _, f = self.cond(al, f, depth + 1)
        return t, f

    @staticmethod
    def also(atom, val):
        """what a truth value says about None-ness and emptiness"""
        out = set()
        if atom.endswith(" is None") and val: out.add((atom[:-8], False))
        elif " " not in atom and val: out.add((atom + " is None", False))
        return frozenset(out)

    @staticmethod
    def implied(atom, d):
        if " == " in atom and "(" not in atom:
            l, r = atom.split(" == ", 1)
            for a, b in ((l, r), (r, l)):
                if not _const(b): continue
                for k, v in d.items():
                    if v and " == " in k:
                        x, y = k.split(" == ", 1)
                        if x == a and _const(y) and y != b: return False
                        if y == a and _const(x) and x != b: return False
        return None

    def after_call(self, e, sts):
        """a call that never returns"""
        if isinstance(e, ast.Call):
            n = ast.unparse(e.func)
            if n in self.noreturn or n in ("sys.exit", "exit", "quit", "os._exit", "pytest.skip", "pytest.fail"): return []
        return sts

    # ----- statements
    def block(self, body, sts):
        for s in body:
            if not sts: return []
            if self.exc: self.exc[-1].extend(sts)
            sts = self.cap(self.stmt(s, sts))
        return sts

    def assign_names(self, target, sts, value=None):
        for n in ast.walk(target):          # reads inside subscripts / attributes of the target
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                sts = self.expr(n.value, sts)
                if isinstance(n, ast.Subscript): sts = self.expr(n.slice, sts)
                txt = ast.unparse(n)
                sts = [S(s.a, frozenset(x for x in s.f if txt not in x[0])) for s in sts]
        names = bound_names(target)
        simple = isinstance(target, ast.Name)
        for nm in names:
            ex = ()
            if simple and value is not None:
                if isinstance(value, ast.Constant):
                    v = value.value
                    ex = {(nm, bool(v)), (f"{nm} is None", v is None)}
                    if v is not None: ex |= {(" == ".join(sorted((nm, repr(v)))), True)}
                elif isinstance(value, (ast.List, ast.Tuple, ast.Dict, ast.Set)):
                    n = len(value.keys) if isinstance(value, ast.Dict) else len(value.elts)
                    ex = {(nm, n > 0), (f"{nm} is None", False)}
                elif isinstance(value, ast.Name) and value.id != nm:
                    pass
            if simple and isinstance(value, ast.Name) and value.id != nm:
                out = []
                for s in sts:
                    d = dict(s.f)
                    e2 = {(k.replace(value.id, nm, 1), v) for k, v in s.f if k in (value.id, value.id + " is None")}
                    out.append(self.kill(s, nm, e2))
                sts = out
            else:
                sts = [self.kill(s, nm, ex) for s in sts]
            for k, v in list(self.alias.items()):
                if v is not None and any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(v)): self.alias[k] = None
            if simple and isinstance(value, (ast.Compare, ast.BoolOp)) or (simple and isinstance(value, ast.UnaryOp) and isinstance(value.op, ast.Not)):
                if nm in self.alias and self.alias[nm] is not None and ast.dump(self.alias[nm]) != ast.dump(value): self.alias[nm] = None
                elif nm not in self.alias and not any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(value)): self.alias[nm] = value
            elif nm in self.alias: self.alias[nm] = None
            else: self.alias[nm] = None
        return sts

    def stmt(self, s, sts):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m: return m(s, sts)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr): sts = self.expr(c, sts)
        return sts

    def s_Expr(self, s, sts): return self.after_call(s.value, self.expr(s.value, sts))

    def s_Assign(self, s, sts):
        sts = self.expr(s.value, sts)
        if isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            t, f = self.cond(s.value.test, sts)
            return self.assign_names(s.targets[0], t, s.value.body) + self.assign_names(s.targets[0], f, s.value.orelse)
        for t in s.targets:
            if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                for a, b in zip(t.elts, s.value.elts): sts = self.assign_names(a, sts, b if isinstance(b, ast.Constant) else None)
            else: sts = self.assign_names(t, sts, s.value)
        return sts

    def s_AnnAssign(self, s, sts):
        if s.value is None: return sts
        return self.assign_names(s.target, self.expr(s.value, sts), s.value)

    def s_AugAssign(self, s, sts):
        if isinstance(s.target, ast.Name): sts = self.read(s.target.id, s.target, sts)
        sts = self.expr(s.value, sts)
        return self.assign_names(s.target, sts)

    def s_Delete(self, s, sts):
        for t in s.targets:
            if isinstance(t, ast.Name):
                sts = self.read(t.id, t, sts)
                sts = [S(x.a - {t.id}, frozenset(y for y in x.f if t.id not in anames(y[0]))) for x in sts]
            else: sts = self.expr(t.value, sts)
        return sts

    def s_Return(self, s, sts):
        self.expr(s.value, sts); return []

    def s_Raise(self, s, sts):
        sts = self.expr(s.exc, sts); self.expr(s.cause, sts); return []

    def s_Assert(self, s, sts):
        t, f = self.cond(s.test, sts)
        self.expr(s.msg, f)
        return t

    def s_Import(self, s, sts):
        for al in s.names:
            n = (al.asname or al.name).split(".")[0]
            sts = [self.kill(x, n) for x in sts]
        return sts
    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, sts):
        for d in s.decorator_list + s.args.defaults + [k for k in s.args.kw_defaults if k is not None]: sts = self.expr(d, sts)
        return [self.kill(x, s.name) for x in sts]
    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, sts):
        for d in s.decorator_list + s.bases: sts = self.expr(d, sts)
        return [self.kill(x, s.name) for x in sts]

    def s_Global(self, s, sts): return sts
    s_Nonlocal = s_Pass = s_Global

    def s_If(self, s, sts):
        chain = self.exhaustive(s)
        t, f = self.cond(s.test, sts)
        a = self.block(s.body, t)
        if not s.orelse:
            return a + ([] if chain else f)
        if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If) and chain:
            b = self.chain_tail(s.orelse[0], f)
        else: b = self.block(s.orelse, f)
        return a + b

    def chain_tail(self, s, sts):
        if self.exc: self.exc[-1].extend(sts)
        t, f = self.cond(s.test, sts)
        a = self.block(s.body, t)
        if not s.orelse: return a           # the chain covers the types the function accepts
        if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If): return a + self.chain_tail(s.orelse[0], f)
        return a + self.block(s.orelse, f)

    def exhaustive(self, s):
        """an if/elif chain of isinstance tests on one variable"""
        subj = None; n = 0
        while True:
            t = s.test
            if not (isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and t.args): return False
            u = ast.unparse(t.args[0])
            if subj not in (None, u): return False
            subj = u; n += 1
            if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If): s = s.orelse[0]; continue
            return n >= 2 and not s.orelse

    def s_Match(self, s, sts):
        sts = self.expr(s.subject, sts); out = []; rest = sts
        irref = False
        for c in s.cases:
            cur = rest
            for n in ast.walk(c.pattern):
                nm = getattr(n, "name", None) if isinstance(n, (ast.MatchAs, ast.MatchStar)) else getattr(n, "rest", None) if isinstance(n, ast.MatchMapping) else None
                if nm: cur = [self.kill(x, nm) for x in cur]
            if c.guard is not None: cur, _ = self.cond(c.guard, cur)
            elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None: irref = True
            out += self.block(c.body, cur)
            if irref: return out
        return out + rest

    def first_facts(self, s):
        """facts about the loop variable in the first / a later iteration"""
        it = s.iter; v = None; start = "0"
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id == "range" and isinstance(s.target, ast.Name) and not (len(it.args) == 3):
                v = s.target.id
                if len(it.args) == 2: start = ast.unparse(it.args[0])
            elif it.func.id == "enumerate" and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
                v = s.target.elts[0].id
                if len(it.args) > 1: start = ast.unparse(it.args[1])
        if v is None: return set(), set()
        def fx(first):
            o = {(" == ".join(sorted((v, start))), first), (f"{start} < {v}", not first)}
            if start == "0": o |= {(v, not first), (f"{v} < 1", first)}
            return o
        return fx(True), fx(False)

    def s_For(self, s, sts):
        sts = self.expr(s.iter, sts)
        ff, lf = self.first_facts(s)
        exits = []; self.brk.append([]); self.cont.append([])
        cur = sts; known = set(); first = True; rounds = 0
        while cur and rounds < 12:
            rounds += 1
            ent = self.assign_names(s.target, cur)
            ent = [S(x.a, x.f | frozenset(ff if first else lf)) for x in ent]
            first = False
            ent = [x for x in ent if x.key() not in known]
            known |= {x.key() for x in ent}
            out = self.block(s.body, ent)
            out = self.cap(out + self.cont[-1]); self.cont[-1] = []
            exits += out; cur = out
            exits = self.cap(exits)
        brk = self.brk.pop(); self.cont.pop()
        return self.block(s.orelse, exits) + brk if s.orelse else exits + brk
    s_AsyncFor = s_For

    def s_While(self, s, sts):
        exits = []; self.brk.append([]); self.cont.append([])
        cur = sts; known = set(); rounds = 0
        while cur and rounds < 12:
            rounds += 1
            t, f = self.cond(s.test, cur)
            exits = self.cap(exits + f)
            ent = [x for x in t if x.key() not in known]
            known |= {x.key() for x in ent}
            out = self.block(s.body, ent)
            # what held about names the loop changes may not hold any more: only kept facts survive through assignment
            cur = self.cap(out + self.cont[-1]); self.cont[-1] = []
        brk = self.brk.pop(); self.cont.pop()
        return self.block(s.orelse, exits) + brk if s.orelse else exits + brk

    def s_Break(self, s, sts):
        if self.brk: self.brk[-1].extend(sts)
        return []

    def s_Continue(self, s, sts):
        if self.cont: self.cont[-1].extend(sts)
        return []

    def s_With(self, s, sts):
        sup = False
        for i in s.items:
            sts = self.expr(i.context_expr, sts)
            if "suppress" in ast.unparse(i.context_expr): sup = True
            if i.optional_vars is not None: sts = self.assign_names(i.optional_vars, sts)
        if not sup: return self.block(s.body, sts)
        self.exc.append([])
        out = self.block(s.body, sts)
        return out + self.exc.pop()
    s_AsyncWith = s_With

    def s_Try(self, s, sts):
        self.exc.append([])
        nb, nc = (len(self.brk[-1]) if self.brk else 0), 0
        out = self.block(s.body, sts)
        ex = self.cap(self.exc.pop())
        if s.finalbody: self.exc.append([])
        hout = []
        for h in s.handlers:
            cur = self.expr(h.type, ex)
            if h.name: cur = [self.kill(x, h.name) for x in cur]
            o = self.block(h.body, cur)
            if h.name: o = [S(x.a - {h.name}, x.f) for x in o]
            hout += o
        if s.orelse: out = self.block(s.orelse, out)
        res = self.cap(out + hout)
        if s.finalbody:
            ex2 = self.cap(self.exc.pop() + ([] if any(h.type is None or ast.unparse(h.type) in ("Exception", "BaseException") for h in s.handlers) else ex))
            self.block(s.finalbody, ex2)        # on the way out with an exception
            res = self.block(s.finalbody, res)
        if self.exc: self.exc[-1].extend(ex)
        return res
    s_TryStar = s_Try


def _const(t):
    return t[:1] in "'\"-0123456789" or t in ("True", "False", "None")


def _bound_inside(x, name):
    for n in ast.walk(x):
        if isinstance(n, FN) and name in params_of(n): return True
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if any(name in bound_names(g.target) for g in n.generators): return True
    return False


def noreturn_functions(tree):
    """names of functions whose body always raises"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.body and isinstance(n.body[-1], ast.Raise) and \
                not any(isinstance(x, (ast.Return, ast.Yield)) for x in ast.walk(n)) and not n.name.startswith("__"):
            if all(not isinstance(x, (ast.Pass,)) for x in n.body):
                out.add(n.name); out.add("self." + n.name)
    return out


def functions(tree):
    """(qualified name, node, enclosing function nodes) of every function of a module"""
    out = []

    def rec(n, q, enc):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((f"{q}{c.name}", c, enc)); rec(c, f"{q}{c.name}.", enc + [c])
            elif isinstance(c, ast.Lambda):
                out.append((f"{q}<lambda>", c, enc)); rec(c, f"{q}<lambda>.", enc + [c])
            elif isinstance(c, ast.ClassDef): rec(c, f"{q}{c.name}.", enc)
            else: rec(c, q, enc)
    rec(tree, "", [])
    return out


def undefined_names(tree):
    """(name, node) of every name no enclosing scope defines"""
    mod = locals_of(tree)
    for f in ast.walk(tree):
        if isinstance(f, (ast.Global,)): mod |= set(f.names)
    star = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(tree))
    if star: return
    def rec(node, scopes):
        if isinstance(node, ast.Name):
            if isinstance(node.ctx, ast.Load) and not any(node.id in s for s in scopes) and node.id not in BUILTINS: yield node.id, node
            return
        if isinstance(node, FN):
            a = node.args
            for d in a.defaults + [k for k in a.kw_defaults if k is not None]: yield from rec(d, scopes)
            if not isinstance(node, ast.Lambda):
                for d in node.decorator_list: yield from rec(d, scopes)
            inner = [s for s in scopes if not getattr(s, "is_class", False)] + [locals_of(node) | {"__class__"}]
            for b in (node.body if isinstance(node.body, list) else [node.body]): yield from rec(b, inner)
            return
        if isinstance(node, ast.ClassDef):
            for d in node.decorator_list + node.bases + [k.value for k in node.keywords]: yield from rec(d, scopes)
            c = ClassScope(locals_of(node) | {"__qualname__", "__module__"})
            for b in node.body: yield from rec(b, scopes + [c])
            return
        if isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            own = {n for g in node.generators for n in bound_names(g.target)}
            yield from rec(node.generators[0].iter, scopes)
            inner = scopes + [own]
            for i, g in enumerate(node.generators):
                if i: yield from rec(g.iter, inner)
                for c in g.ifs: yield from rec(c, inner)
            for x in ([node.key, node.value] if isinstance(node, ast.DictComp) else [node.elt]): yield from rec(x, inner)
            return
        if isinstance(node, ast.arg) : return
        if isinstance(node, ast.AnnAssign):
            if node.value is not None: yield from rec(node.value, scopes)
            yield from rec(node.target, scopes); return
        for c in ast.iter_child_nodes(node): yield from rec(c, scopes)
    yield from rec(tree, [mod])


class ClassScope(set):
    is_class = True
