"""C front end: preprocesses /repo's C extension against stub headers and parses it with pycparser."""
import os, re, subprocess, sys
from .project import SRC, AnalysisBroken

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path and os.path.isdir(_p): sys.path.append(_p)
try:
    from pycparser import c_parser, c_ast, c_generator
except ImportError:      # pragma: no cover
    c_ast = None

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cstubs")
CFILE = os.path.join(SRC, "stcal/ramp_fitting/src/slope_fitter.c")
# macros of the extension that must survive preprocessing as calls
KEEP = ()


def preprocess(path=None, text=None):
    cmd = None
    for cc in ("clang", "gcc", "cc"):
        from shutil import which
        if which(cc): cmd = cc; break
    if cmd is None: raise AnalysisBroken("no C preprocessor")
    args = [cmd, "-E", "-undef", "-nostdinc", "-I" + STUBS, "-D__attribute__(x)=", "-D__extension__=", "-D__inline__=", "-D__inline=inline",
            "-D__restrict=", "-D__volatile__=", "-D__builtin_va_list=char*", "-D__LINE__=0", "-Wno-everything" if cmd == "clang" else "-w"]
    args += ["-x", "c", path or "-"]
    r = subprocess.run(args, input=text, capture_output=True, text=True)
    if r.returncode: raise AnalysisBroken("preprocessing failed: " + r.stderr[:500])
    return r.stdout


class CUnit:
    def __init__(self, path=None, text=None):
        if c_ast is None: raise AnalysisBroken("pycparser is not available")
        self.path = path or ("<text>" if text else CFILE)
        self.rel = os.path.relpath(self.path, os.path.dirname(SRC)) if path or not text else "<text>"
        src = preprocess(None if text else self.path, text)
        src = re.sub(r"\b_Static_assert\s*\([^;]*\);", "", src)
        try:
            self.ast = c_parser.CParser().parse(src, filename=self.path)
        except Exception as e:
            raise AnalysisBroken(f"{self.path}: does not parse: {e}")
        self.funcs = {}
        self.structs = {}
        self.typedefs = {}
        self.globals = {}
        self.protos = {}
        self.enums = {}
        for e in self.ast.ext:
            if isinstance(e, c_ast.FuncDef): self.funcs[e.decl.name] = e
            elif isinstance(e, c_ast.Typedef): self.typedefs[e.name] = e.type
            elif isinstance(e, c_ast.Decl):
                if isinstance(e.type, c_ast.FuncDecl): self.protos[e.name] = e
                elif e.name: self.globals[e.name] = e
            self._structs(e)

    def _structs(self, node):
        if isinstance(node, c_ast.Struct) and node.decls:
            self.structs[node.name] = {d.name: d.type for d in node.decls}
        if isinstance(node, c_ast.Enum) and node.values:
            for x in node.values.enumerators: self.enums[x.name] = node.name
        for _, c in node.children(): self._structs(c)

    def where(self, node):
        c = node.coord
        return f"{self.rel}:{c.line}" if c is not None else self.rel


_gen = None


def show(node):
    global _gen
    if _gen is None: _gen = c_generator.CGenerator()
    return _gen.visit(node)


def callname(n):
    return n.name.name if isinstance(n, c_ast.FuncCall) and isinstance(n.name, c_ast.ID) else None


def walk(node, stop=()):
    yield node
    for _, c in node.children():
        if not isinstance(c, stop): yield from walk(c, stop)


def params(fd):
    t = fd.decl.type
    if t.args is None: return []
    return [p.name for p in t.args.params if getattr(p, "name", None)]


def strip(e):
    while isinstance(e, (c_ast.Cast,)): e = e.expr
    return e


def attr_readers(u):
    """functions reading a Python attribute: {function: (index of object arg, index of name arg or None, constant name or None)}"""
    readers = {"PyObject_GetAttrString": [(0, 1, None)]}
    changed = True
    while changed:
        changed = False
        for name, fd in u.funcs.items():
            ps = params(fd)
            for n in walk(fd.body):
                cn = callname(n)
                if cn in readers and n.args:
                    for oi, ai, k in list(readers[cn]):
                        if k is not None or len(n.args.exprs) <= ai: continue
                        o, a = strip(n.args.exprs[oi]), strip(n.args.exprs[ai])
                        if isinstance(o, c_ast.ID) and o.name in ps and isinstance(a, c_ast.ID) and a.name in ps:
                            t = (ps.index(o.name), ps.index(a.name), None)
                            if t not in readers.setdefault(name, []): readers[name].append(t); changed = True
    return readers


def attr_reads(u):
    """[(attribute name, reader function, call node, enclosing function)] of every attribute read by constant name"""
    rd = attr_readers(u)
    out = []
    for name, fd in u.funcs.items():
        for n in walk(fd.body):
            cn = callname(n)
            if cn in rd and n.args:
                for oi, ai, k in rd[cn]:
                    if len(n.args.exprs) <= ai: continue
                    a = strip(n.args.exprs[ai])
                    if isinstance(a, c_ast.Constant) and a.type == "string":
                        out.append((a.value.strip('"'), cn, n, name))
    return out
