"""Static name, import, call-signature and attribute checks over every module (also code no driver reaches)."""
import ast
from .project import module_functions


class Names:
    def __init__(self, project):
        self.p = project
        self.g = {m.name: self.module_globals(m) for m in project.modules.values()}

    def module_globals(self, m):
        """name -> ('func'|'class'|'import'|'module'|'value', payload)"""
        out = {}
        def visit(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)): out[s.name] = ("func", s)
                elif isinstance(s, ast.ClassDef): out[s.name] = ("class", s)
                elif isinstance(s, ast.ImportFrom):
                    src = m.resolve_relative(s)
                    for a in s.names: out[a.asname or a.name] = ("import", (src, a.name, s))
                elif isinstance(s, ast.Import):
                    for a in s.names: out[a.asname or a.name.split(".")[0]] = ("module", a.name if a.asname else a.name.split(".")[0])
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.With, ast.Delete, ast.Expr)):
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out[n.id] = ("value", s)
                    for f in ("body", "orelse"):
                        if isinstance(getattr(s, f, None), list): visit(getattr(s, f))
                elif isinstance(s, (ast.If, ast.Try, ast.While)):
                    for f in ("body", "orelse", "finalbody"): visit(getattr(s, f, []) or [])
                    for h in getattr(s, "handlers", []): visit(h.body)
        visit(m.tree.body)
        return out

    def lookup(self, mod, name, depth=0):
        """definition a module attribute resolves to inside the project: (kind, node, module) or None (not found) or '?' """
        if depth > 6: return "?"
        if mod not in self.p.modules: return "?"
        g = self.g[mod]
        if name in g:
            k, x = g[name]
            if k in ("func", "class"): return (k, x, mod)
            if k == "import":
                src, nm, _ = x
                if src in self.p.modules: 
                    r = self.lookup(src, nm, depth + 1)
                    return r
                return "?"
            return "?"
        if mod + "." + name in self.p.modules: return ("module", mod + "." + name, mod)
        if mod + "." + name in self.p.pyx or self.is_ext(mod, name): return "?"
        if name.startswith("__"): return "?"
        if any(k == "import" and x[1] == "*" for k, x in g.values()): return "?"
        if "__getattr__" in g: return "?"
        return None

    def is_ext(self, mod, name):
        return name in ("slope_fitter", "_version", "version") or name.startswith("_")

    def imports(self):
        """every `from project.module import name`: (module, node, name, found)"""
        for m in self.p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom):
                    src = m.resolve_relative(n)
                    if src not in self.p.modules: continue
                    for a in n.names:
                        if a.name == "*": continue
                        yield m, n, a.name, self.lookup(src, a.name) is not None

    def exports(self):
        for m in self.p.modules.values():
            for s in m.tree.body:
                if isinstance(s, (ast.Assign, ast.AugAssign)):
                    t = s.targets if isinstance(s, ast.Assign) else [s.target]
                    if any(isinstance(x, ast.Name) and x.id == "__all__" for x in t) and isinstance(s.value, (ast.List, ast.Tuple)):
                        for e in s.value.elts:
                            if isinstance(e, ast.Constant):
                                yield m, e, e.value, (e.value in self.g[m.name] or self.lookup(m.name, e.value) is not None)

    def resolve_callee(self, m, call, local_names):
        f = call.func
        if isinstance(f, ast.Name):
            if f.id in local_names: return None
            r = self.lookup(m.name, f.id)
            return r if isinstance(r, tuple) else None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id not in local_names:
            r = self.lookup(m.name, f.value.id)
            if isinstance(r, tuple) and r[0] == "module":
                r2 = self.lookup(r[1], f.attr)
                return r2 if isinstance(r2, tuple) else None
            k = self.g[m.name].get(f.value.id)
            if k and k[0] == "module" and k[1] in self.p.modules:
                r2 = self.lookup(k[1], f.attr)
                return r2 if isinstance(r2, tuple) else None
        return None

    def calls(self):
        """every direct call of a project function or class: (module, qual, call, callee, problem or None)"""
        from .defassign import locals_of
        for m in self.p.modules.values():
            scopes = [("<module>", m.tree, None)] + [(q, f, c) for _, q, f, c in module_functions(m)]
            for q, fn, cls in scopes:
                loc = set() if fn is m.tree else locals_of(fn)
                for n in self.own_nodes(fn):
                    if not isinstance(n, ast.Call): continue
                    r = self.resolve_callee(m, n, loc)
                    skip = 0
                    if r is None and cls is not None and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                            and n.func.value.id == "self":
                        r = self.method(m.name, cls, n.func.attr); skip = 1
                        if r is None: continue
                        if any(isinstance(d, ast.Name) and d.id in ("staticmethod", "property") for d in r[1].decorator_list): continue
                    if r is None: continue
                    kind, node, where = r
                    if kind == "class":
                        r2 = self.method(where, node, "__init__")
                        if r2 is None: continue
                        node = r2[1]; skip = 1
                    elif kind != "func": continue
                    if node.decorator_list and kind == "func" and skip == 0:
                        if not all(self.plain_decorator(d) for d in node.decorator_list): continue
                    yield m, q, n, node, self.arity(n, node, skip)

    @staticmethod
    def plain_decorator(d):
        u = ast.unparse(d)
        return "cache" in u or "jit" in u or "wraps" in u

    def own_nodes(self, fn):
        todo = list(ast.iter_child_nodes(fn))
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): continue
            yield n
            todo += list(ast.iter_child_nodes(n))

    def method(self, mod, cls, name, depth=0):
        for s in cls.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == name: return ("func", s, mod)
        for b in cls.bases:
            r = self.resolve_callee(self.p.modules[mod], ast.Call(b, [], []), set()) if isinstance(b, (ast.Name, ast.Attribute)) else None
            if r and r[0] == "class" and depth < 5:
                x = self.method(r[2], r[1], name, depth + 1)
                if x: return x
        return None

    @staticmethod
    def arity(call, fn, skip):
        a = fn.args
        if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords): return None
        pos = [x.arg for x in a.posonlyargs + a.args][skip:]
        if len(call.args) > len(pos) and not a.vararg:
            return f"{len(call.args)} positional arguments for {fn.name}({', '.join(pos)})"
        given = set(pos[:len(call.args)])
        kwo = {x.arg for x in a.kwonlyargs}
        for k in call.keywords:
            if k.arg in given: return f"argument {k.arg} of {fn.name} given twice"
            if k.arg not in pos and k.arg not in kwo and not a.kwarg: return f"{fn.name} has no argument {k.arg}"
            given.add(k.arg)
        need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
        miss = [x for x in need if x not in given] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
        return f"{fn.name} called without {', '.join(miss)}" if miss else None

    def self_attrs(self):
        """every self.x read in a class whose bases are all known: (module, class, node, name, found)"""
        # attributes stored on any object of the project from outside the class
        outside = set()
        for m in self.p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                    outside.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    outside.add(n.args[1].value)
        for m in self.p.modules.values():
            for c in ast.walk(m.tree):
                if not isinstance(c, ast.ClassDef): continue
                have = self.class_attrs(m.name, c)
                if have is None: continue
                for n in ast.walk(c):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self" \
                            and not n.attr.startswith("__"):
                        yield m, c, n, n.attr, n.attr in have or n.attr in outside

    def class_attrs(self, mod, c, depth=0):
        if depth > 5: return None
        have = set()
        for b in c.bases:
            if isinstance(b, ast.Name) and b.id == "object": continue
            r = self.resolve_callee(self.p.modules[mod], ast.Call(b, [], []), set())
            if not r or r[0] != "class": return None
            x = self.class_attrs(r[2], r[1], depth + 1)
            if x is None: return None
            have |= x
        if c.keywords: return None
        for d in c.decorator_list:
            if "dataclass" not in ast.unparse(d): return None
        for n in ast.walk(c):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name): have.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args:
                if len(n.args) > 1 and isinstance(n.args[1], ast.Constant): have.add(n.args[1].value)
                else: return None
            if isinstance(n, ast.Attribute) and n.attr == "__dict__": return None
        for s in c.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                have.add(s.name)
                if s.name in ("__getattr__", "__getattribute__"): return None
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name): have.add(n.id)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name): have.add(s.target.id)
        return have
