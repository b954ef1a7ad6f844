"""Loads the Python sources of /repo/src/stcal as ASTs and resolves names to modules."""
import ast, os, hashlib

REPO = os.environ.get("STCAL_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (an anchor vanished, a file does not parse)."""


class Module:
    def __init__(self, name, path, is_pkg, source=None):
        self.name = name
        self.path = path
        self.is_pkg = is_pkg
        self.source = source if source is not None else open(path, encoding="utf-8").read()
        try:
            self.tree = ast.parse(self.source, filename=path)
        except SyntaxError as e:
            raise AnalysisBroken(f"{path}: does not parse: {e}")
        self.rel = os.path.relpath(path, REPO)
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n

    def classquals(self):
        """qualified names of the classes of this module"""
        if not hasattr(self, "_cq"):
            self._cq = set()
            def go(n, q):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
                        qq = c.name if not q else q + "." + c.name
                        if isinstance(c, ast.ClassDef): self._cq.add(qq)
                        go(c, qq)
                    else: go(c, q)
            go(self.tree, "")
        return self._cq

    def resolve_relative(self, node):
        """dotted module named by an ImportFrom node."""
        if node.level == 0:
            return node.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[: -(node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))


class Project:
    def __init__(self, src=None, pkg="stcal"):
        self.src = src or SRC
        self.pkg = pkg
        self.modules = {}
        self.pyx = {}
        root = os.path.join(self.src, pkg)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"{root} does not exist")
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            dirs[:] = [x for x in dirs if x != "__pycache__"]
            for f in sorted(files):
                p = os.path.join(d, f)
                mod = os.path.relpath(p, self.src)[: -len(os.path.splitext(f)[1])].replace(os.sep, ".")
                if f.endswith(".py"):
                    is_pkg = f == "__init__.py"
                    if is_pkg:
                        mod = mod[: -len(".__init__")]
                    self.modules[mod] = Module(mod, p, is_pkg)
                elif f.endswith((".pyx", ".pxd")):
                    self.pyx.setdefault(mod, []).append(p)
        if len(self.modules) < 20:
            raise AnalysisBroken(f"only {len(self.modules)} modules found under {root}")

    def functions(self):
        """yield (module, qualname, node, enclosing class node or None)"""
        for m in self.modules.values():
            yield from module_functions(m)


def module_functions(m):
    def walk(node, prefix, cls):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield m, prefix + c.name, c, cls
                yield from walk(c, prefix + c.name + ".", None)
            elif isinstance(c, ast.ClassDef):
                yield from walk(c, prefix + c.name + ".", c)
            elif not isinstance(c, ast.Lambda):
                yield from walk(c, prefix, cls)
    yield from walk(m.tree, "", None)


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]
