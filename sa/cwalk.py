"""Path-sensitive ownership walker for the C extension.

Starting from the method-table entry every path through the C source is followed (calls into their bodies, memoised), each
allocation and each Python API call split into success and failure.  A state holds what pointers point to, the life of every
tracked heap block and the owned references of every Python object, and whether an exception is pending.  Nothing is executed:
values that are not pointers, small constants or return codes are unknown and both outcomes of a test on them are followed."""
import itertools
from .project import AnalysisBroken
from .cfront import c_ast as A, strip, callname, show

UNK = ("unk",)
NZ = ("nz",)
ZERO = ("int", 0)
NONE = ("ptr", "None")
UNINIT = ("uninit",)
ALLOC = {"malloc", "calloc", "realloc", "strdup", "aligned_alloc"}
NEWOBJ = ("PyArray_ZEROS", "PyArray_EMPTY", "PyArray_SimpleNew", "PyArray_Zeros", "PyArray_Empty", "PyArray_New", "PyArray_NewLikeArray", "PyArray_FromAny",
          "PyArray_FROM_OTF", "PyArray_FROM_OF", "PyArray_SimpleNewFromDescr", "PyArray_GETCONTIGUOUS", "PyArray_Copy", "PyArray_NewCopy", "PyObject_GetAttrString", "PyObject_GetAttr", "PyLong_FromLong",
          "PyFloat_FromDouble", "PyTuple_New", "PyList_New", "PyDict_New", "PyUnicode_FromString", "PyObject_CallObject", "PyObject_CallMethod",
          "PyObject_CallFunction", "PyNumber_Long", "PyNumber_Float", "PySequence_GetItem", "PyObject_CallFunctionObjArgs", "PyImport_ImportModule", "PyModule_Create",
          "PyArray_ContiguousFromAny", "PyArray_Cast", "PyArray_CastToType", "PyUnicode_FromFormat", "PyLong_FromSize_t", "PyLong_FromSsize_t", "PyBool_FromLong")
NUMBER = ("PyLong_AsLong", "PyLong_AsLongLong", "PyFloat_AsDouble", "PyLong_AsUnsignedLong", "PyLong_AsSsize_t", "PyObject_IsTrue", "PyLong_AsSize_t", "PyLong_AsInt")
ERRSET = ("PyErr_SetString", "PyErr_Format", "PyErr_NoMemory", "PyErr_SetObject", "PyErr_SetNone", "PyErr_BadArgument", "PyErr_SetFromErrno")
DECREF = ("Py_DECREF", "Py_XDECREF", "Py_CLEAR")
MAXSTATES = 6000


class St:
    __slots__ = ("c", "o", "exc", "failed", "trail", "depth", "faults", "facts")

    def __init__(self, c=None, o=None, exc=False, failed=None, trail=(), depth=0, faults=0, facts=frozenset()):
        self.c = c if c is not None else {}; self.o = o if o is not None else {}
        self.exc = exc; self.failed = failed; self.trail = trail; self.depth = depth; self.faults = faults; self.facts = facts

    def copy(self): return St(dict(self.c), dict(self.o), self.exc, self.failed, self.trail, self.depth, self.faults, self.facts)
    def key(self): return (frozenset(self.c.items()), frozenset(self.o.items()), self.exc, bool(self.failed), self.faults, self.facts)
# object record: (kind, status, refs, none)   kind mem|py|struct|ext   status alive|freed   none y|n|? (py only)   + default zero|uninit|unk


class Stop(Exception): pass


class CWalk:
    def __init__(self, u, entry, maxfaults=1):
        self.maxfaults = maxfaults
        self.u = u; self.entry = entry
        self.findings = {}          # (rule, key) -> (where, func, msg, trail)
        self.count = {}
        self.funcs = set()
        self.memo = {}
        self.stack = []
        self.counters = {}
        self.addrtaken = {}
        self.localtypes = {}
        self.nodestructs = {n for n, fs in u.structs.items() if n and any(self.pointee(t) == n for t in fs.values())}
        self.guardfields = self.find_guards()
        self.ptrfields = {f for fs in u.structs.values() for f, t in fs.items() if (isinstance(t, A.PtrDecl) or isinstance(self.resolve(t), A.PtrDecl)) and self.pointee(t) not in self.nodestructs}
        self.sited = set(); self.site_fn = {}

    # ---------------------------------------------------------------- types
    def resolve(self, t):
        while isinstance(t, A.TypeDecl): t = t.type
        if isinstance(t, A.IdentifierType):
            n = t.names[-1]
            if n in self.u.typedefs and n not in ("PyObject", "PyArrayObject"): return self.resolve(self.u.typedefs[n])
        return t

    def pointee(self, t):
        """struct name a pointer type points to"""
        if isinstance(t, A.TypeDecl):
            r = self.resolve(t)
            return self.pointee(r) if isinstance(r, A.PtrDecl) else None
        if not isinstance(t, A.PtrDecl): return None
        r = self.resolve(t.type)
        return r.name if isinstance(r, A.Struct) else None

    def find_guards(self):
        """struct members tested to decide whether something is allocated, released or built: their value is remembered along a path"""
        out = set()
        rel = set(ALLOC) | {"free"} | set(NEWOBJ) | set(DECREF) | {"Py_BuildValue"}
        pyret = set()
        for n, f in self.u.funcs.items():
            t = f.decl.type.type
            if isinstance(t, A.PtrDecl): pyret.add(n)
        direct = {n for n, f in self.u.funcs.items() if any(callname(c) in rel for c in walk(f.body) if isinstance(c, A.FuncCall))}

        def has(n, deep=True):
            if n is None: return False
            for c in walk(n):
                if isinstance(c, A.FuncCall) and (callname(c) in rel or callname(c) in pyret): return True
            return False

        def members(n):
            for c in walk(n):
                if isinstance(c, A.StructRef): yield c.field.name
        for f in self.u.funcs.values():
            for n in walk(f.body):
                if isinstance(n, A.If) and (has(n.iftrue) or has(n.iffalse)):
                    # only direct contents, not nested loops
                    out |= set(members(n.cond))
                if isinstance(n, A.If) and any(callname(c) in direct for c in walk(n.cond) if isinstance(c, A.FuncCall)) is False:
                    inner = [x for x in walk(n.iftrue) if isinstance(x, A.If)] if n.iftrue else []
                    if any(isinstance(c, A.FuncCall) and callname(c) in self.u.funcs and self.creates(callname(c)) for x in inner for c in walk(x.cond)): out |= set(members(n.cond))
        return out

    def creates(self, name):
        f = self.u.funcs[name]
        return any(isinstance(c, A.FuncCall) and callname(c) in NEWOBJ for c in walk(f.body))

    def fn_info(self, name):
        if name in self.counters: return
        f = self.u.funcs[name]
        cnt = set(); adr = set()
        for n in walk(f.body):
            if isinstance(n, A.UnaryOp) and n.op in ("++", "--", "p++", "p--") and isinstance(strip(n.expr), A.ID): cnt.add(strip(n.expr).name)
            if isinstance(n, A.Assignment) and n.op not in ("=", "|=", "&=") and isinstance(strip(n.lvalue), A.ID): cnt.add(strip(n.lvalue).name)
            if isinstance(n, A.UnaryOp) and n.op == "&" and isinstance(strip(n.expr), A.ID): adr.add(strip(n.expr).name)
        self.counters[name] = cnt; self.addrtaken[name] = adr

    # ---------------------------------------------------------------- reporting
    def report(self, rule, key, node, st, msg):
        k = (rule, key)
        if k not in self.findings:
            self.findings[k] = (self.u.where(node) if node is not None else self.u.rel, self.stack[-1] if self.stack else self.entry, msg, st.trail)

    def tick(self, cls, node=None):
        k = (cls, self.stack[-1] if self.stack else "", self.u.where(node) if node is not None else "")
        self.count.setdefault(cls, set()).add(k)

    @property
    def fn(self): return self.stack[-1]

    # ---------------------------------------------------------------- objects
    def new(self, st, site, kind, default="unk", refs=0, none="n", node=False):
        held = None
        k = 0
        while True:
            oid = (site, k)
            if oid not in st.o: break
            k += 1
            if k > 3: return None
        st.o[oid] = (kind, "alive", refs, none, default, node)
        return oid

    def setobj(self, st, oid, **k):
        o = list(st.o[oid])
        for a, v in k.items(): o[{"kind": 0, "status": 1, "refs": 2, "none": 3, "default": 4}[a]] = v
        st.o[oid] = tuple(o)

    def dropfields(self, st, oid, prefix=""):
        for c in [c for c in st.c if c[0] == "o" and c[1] == oid and (not prefix or c[2] == prefix or c[2].startswith(prefix + "."))]: del st.c[c]

    def gc(self, st, extra=()):
        """forget dead and unreachable untracked objects"""
        live = self.reach(st, extra)
        for oid in [o for o in st.o if o not in live and o != "None"]:
            kind, status, refs, none, d, nd = st.o[oid]
            if kind == "ext" or status == "freed" or kind == "py" and refs == 0 or kind == "struct" and oid[0][1] > st.depth:
                self.dropfields(st, oid); del st.o[oid]
        st.facts = frozenset(f for f in st.facts if f[0] in st.o)

    def reach(self, st, extra=()):
        roots = [v[1] for v in extra if v and v[0] == "ptr"]
        roots += [v[1][1] for v in extra if v and v[0] == "addr" and v[1][0] == "o"]
        fields = {}
        for c, v in st.c.items():
            t = v[1] if v[0] == "ptr" else v[1][1] if v[0] == "addr" and v[1][0] == "o" else None
            if t is None: continue
            if c[0] == "o": fields.setdefault(c[1], []).append(t)
            else: roots.append(t)
        roots += [o for o in st.o if st.o[o][0] == "struct"]
        seen = set()
        while roots:
            o = roots.pop()
            if o in seen: continue
            seen.add(o); roots += fields.get(o, [])
        return seen

    # ---------------------------------------------------------------- cells
    def rd(self, st, cell, node=None):
        if cell is None: return UNK
        v = st.c.get(cell)
        if v is not None: return v
        if cell[0] == "o":
            o = st.o.get(cell[1])
            if o is None or not self.tracked(cell): return UNK
            if o[4] == "zero": return ZERO
            if o[4] == "uninit": return UNINIT
        return UNK

    def tracked(self, cell):
        f = cell[2].rsplit(".", 1)[-1]
        return not f or f in self.ptrfields or f in self.guardfields

    def wr(self, st, cell, v, node=None):
        if v == UNINIT: v = UNK
        if cell is None:
            self.escape(st, v); return
        if cell[0] == "l":
            if v == UNK: st.c.pop(cell, None)
            elif v[0] in ("int", "nz") and cell[2] in self.counters.get(self.fn, ()): st.c.pop(cell, None)
            else: st.c[cell] = v
        elif cell[0] == "o":
            o = st.o.get(cell[1])
            if o is None: self.escape(st, v); return
            # a list node stored into another block belongs to the list from here on
            if v[0] == "ptr" and v[1] in st.o and st.o[v[1]][5]:
                self.escape(st, v); v = UNK
            elif v[0] == "ptr" and o[0] == "ext": self.escape(st, v)
            if v[0] == "dim" and v[2] != "*": st.facts = st.facts | {(v[1], v[2])}      # the bound the loops use
            if not self.tracked(cell): return
            if cell[2]: self.dropfields(st, cell[1], cell[2])
            if v == UNK and o[4] == "unk": st.c.pop(cell, None)
            else: st.c[cell] = v
        else:
            self.escape(st, v)
            st.c[cell] = v if v[0] in ("int", "nz") else UNK
            if v[0] not in ("int", "nz"): st.c.pop(cell)

    def escape(self, st, v):
        if v[0] != "ptr" or v[1] not in st.o or v[1] == "None": return
        o = st.o[v[1]]
        if o[0] == "mem": self.setobj(st, v[1], kind="ext")
        elif o[0] == "py" and o[2] > 0: self.setobj(st, v[1], refs=o[2] - 1)

    # ---------------------------------------------------------------- uses
    def deref(self, st, v, node, what):
        """False when the path ends here"""
        self.tick("pointer used", node)
        if v == ZERO:
            self.report("null-use", f"{what} in {self.fn}", node, st, f"{what} is used although it is NULL on this path"); return False
        if v == UNINIT:
            self.report("uninit-use", f"{what} in {self.fn}", node, st, f"{what} is used before it is given a value on this path"); return False
        if v[0] == "ptr" and v[1] in st.o:
            o = st.o[v[1]]
            if o[1] == "freed":
                self.report("use-after-free", f"{what} in {self.fn}", node, st, f"{what} is used after the block or object it points to was released"); return False
            if o[3] == "?" and o[0] == "ext": self.setobj(st, v[1], none="n")
        return True

    def objname(self, oid):
        s = oid[0]
        return s[2] if len(s) > 2 else s[0] + " " + s[1].rsplit(":", 1)[0].rsplit("/", 1)[-1]

    def isarray(self, st, v, node, what):
        if v[0] == "ptr" and v[1] in st.o and st.o[v[1]][0] == "py" and st.o[v[1]][3] != "a":
            self.report("unchecked-array", f"{what} in {self.fn}", node, st, f"{what} is used as an array but on this path it was never checked to be one"
                        + (" (it is None)" if st.o[v[1]][3] == "y" else "")); return False
        return True

    # ---------------------------------------------------------------- lvalues
    def lval(self, n, st):
        """list of (cell, state); no entry when the path ends"""
        n = strip(n)
        if isinstance(n, A.ID): return [(self.var(n.name, st), st)]
        if isinstance(n, A.StructRef):
            out = []
            if n.type == ".":
                for c, s in self.lval(n.name, st):
                    out.append((None if c is None else (c[0], c[1], (c[2] + "." if c[2] else "") + n.field.name) if c[0] == "o" else None, s))
                return out
            for v, s in self.ev(n.name, st):
                if not self.deref(s, v, n, show(n.name)): continue
                out.append((self.field(s, v, n.field.name), s))
            return out
        if isinstance(n, A.ArrayRef):
            out = []
            for v, s in self.ev(n.name, st):
                if not self.deref(s, v, n, show(n.name)): continue
                for _, s2 in self.ev(n.subscript, s): out.append((None, s2))
            return out
        if isinstance(n, A.UnaryOp) and n.op == "*":
            out = []
            for v, s in self.ev(n.expr, st):
                if not self.deref(s, v, n, show(n.expr)): continue
                if v[0] == "ptr" and v[1] in s.o and s.o[v[1]][0] == "struct": out.append((("o", v[1], ""), s))
                elif v[0] == "addr": out.append((v[1], s))
                else: out.append((None, s))
            return out
        return [(None, s) for _, s in self.ev(n, st)]

    def field(self, st, v, f):
        if v[0] == "ptr" and v[1] in st.o and st.o[v[1]][0] in ("mem", "struct"): return ("o", v[1], f)
        if v[0] == "addr" and v[1][0] == "o": return ("o", v[1][1], (v[1][2] + "." if v[1][2] else "") + f)
        return None

    def var(self, name, st):
        t = self.localtypes.get(self.fn, {}).get(name)
        if t is None: return ("g", name, "")
        if t == "obj": return ("o", (("var", st.depth, self.fn, name), 0), "")
        if t == "array": return None
        return ("l", st.depth, name)

    # ---------------------------------------------------------------- expressions
    def ev(self, n, st):
        """list of (value, state)"""
        n = strip(n)
        if n is None: return [(UNK, st)]
        if isinstance(n, A.Constant):
            if n.type == "string": return [(NZ, st)]
            try: return [(("int", int(n.value.rstrip("uUlL"), 0)), st)]
            except ValueError: return [(UNK, st)]
        if isinstance(n, A.ID):
            if n.name in ("Py_None", "_Py_NoneStruct"): return [(NONE, st)]
            if n.name == "NULL": return [(ZERO, st)]
            if n.name in self.u.enums: return [(UNK, st)]
            if n.name in self.u.funcs: return [(("fn", n.name), st)]
            t = self.localtypes.get(self.fn, {}).get(n.name)
            if t == "array": return [(NZ, st)]
            c = self.var(n.name, st)
            return [(self.load(st, c, n), st)]
        if isinstance(n, A.ArrayRef):
            out = []
            for b, s in self.ev(n.name, st):
                if b[0] == "dims":
                    for i, s2 in self.ev(n.subscript, s): out.append((("dim", b[1], i[1] if i[0] == "int" else "*"), s2))
                elif self.deref(s, b, n, show(n.name)): out += [(UNK, s2) for _, s2 in self.ev(n.subscript, s)]
            return out
        if isinstance(n, A.StructRef) or isinstance(n, A.UnaryOp) and n.op == "*":
            return [(self.load(s, c, n), s) for c, s in self.lval(n, st)]
        if isinstance(n, A.UnaryOp):
            if n.op == "&":
                x = strip(n.expr)
                if isinstance(x, A.ID) and x.name in self.u.funcs: return [(("fn", x.name), st)]
                out = []
                for c, s in self.lval(x, st):
                    if c is None or c[0] == "g" or c[0] == "l": out.append((NZ, s))
                    elif c[2] == "": out.append((("ptr", c[1]), s))
                    else: out.append((("addr", c), s))
                return out
            if n.op == "!": return [(("int", 0 if b else 1), s) for b, s in self.cond(n.expr, st)]
            if n.op == "sizeof": return [(UNK, st)]
            if n.op in ("++", "--", "p++", "p--"):
                out = []
                for c, s in self.lval(n.expr, st):
                    if c is not None: self.wr(s, c, UNK)
                    out.append((UNK, s))
                return out
            if n.op == "-":
                return [((("int", -v[1]) if v[0] == "int" else UNK), s) for v, s in self.ev(n.expr, st)]
            return [(UNK, s) for _, s in self.ev(n.expr, st)]
        if isinstance(n, A.BinaryOp):
            if n.op in ("&&", "||", "==", "!="): return [(("int", 1 if b else 0), s) for b, s in self.cond(n, st)]
            out = []
            for a, s in self.ev(n.left, st):
                for b, s2 in self.ev(n.right, s):
                    v = a if n.op == "+" and a[0] == "dims" else UNK
                    if n.op in ("<", ">", "<=", ">=") and a[0] == b[0] == "int": v = ("int", int(eval(f"{a[1]}{n.op}{b[1]}")))
                    elif n.op == "|" and (a == NZ or b == NZ or a[0] == "int" and a[1] or b[0] == "int" and b[1]): v = NZ
                    elif n.op == "|" and a == ZERO: v = b
                    elif n.op == "|" and b == ZERO: v = a
                    out.append((v, s2))
            return out
        if isinstance(n, A.Assignment):
            out = []
            for v, s in self.ev(n.rvalue, st):
                for c, s2 in self.lval(n.lvalue, s):
                    if n.op == "|=" and c is not None:
                        o = self.rd(s2, c)
                        v2 = NZ if (NZ in (o, v) or any(x[0] == "int" and x[1] for x in (o, v))) else o if v == ZERO else v if o == ZERO else UNK
                    else: v2 = v if n.op == "=" else UNK
                    s2 = s2.copy()
                    self.store(s2, c, v2, n)
                    out.append((v2 if v2 != UNK or c is None else self.rd(s2, c), s2))
            return out
        if isinstance(n, A.TernaryOp):
            out = []
            for b, s in self.cond(n.cond, st): out += self.ev(n.iftrue if b else n.iffalse, s)
            return out
        if isinstance(n, A.ExprList):
            cur = [(UNK, st)]
            for e in n.exprs: cur = [x for _, s in cur for x in self.ev(e, s)]
            return cur
        if isinstance(n, A.FuncCall): return self.call(n, st)
        return [(UNK, st)]

    def store(self, st, c, v, n):
        # which list pointers are NULL follows from list invariants that are not modelled: a NULL written in the source is "any" there
        if c is not None and c[0] == "l" and v == ZERO and isinstance(self.localtypes.get(self.fn, {}).get(c[2]), tuple) and self.localtypes[self.fn][c[2]][0] == "node":
            r = strip(n.rvalue if isinstance(n, A.Assignment) else n.init if isinstance(n, A.Decl) else None) if isinstance(n, (A.Assignment, A.Decl)) else None
            if r is not None and not isinstance(r, (A.FuncCall, A.ID, A.StructRef)) or isinstance(r, A.ID) and r.name == "NULL": v = UNK
        if c is not None and c[0] == "l" and v == UNK and isinstance(n, (A.Assignment, A.Decl)):
            # a pointer to a list node read from memory: its life is followed while the variable holds it
            ty = self.localtypes.get(self.fn, {}).get(c[2])
            if isinstance(ty, tuple) and ty[0] == "node":
                st.c.pop(c, None); self.gc(st)
                oid = self.new(st, ("node", self.u.where(n)), "ext", none="?", node=True)
                if oid is not None:
                    st.c[c] = ("ptr", oid); return
        self.wr(st, c, v, n)

    def load(self, st, c, n): return self.rd(st, c, n)

    def refine(self, st, cell, v):
        s = st.copy()
        if cell is not None: s.c[cell] = v
        return s

    def truth(self, v, st, cell, member, node):
        """split on the truth of v held by cell"""
        if v == UNINIT:
            self.report("uninit-use", f"{show(node)} in {self.fn}", node, st, f"{show(node)} is tested before it is given a value on this path"); return []
        if v == ZERO: return [(False, st)]
        if v[0] in ("int", "nz", "addr", "fn", "dims"): return [(True, st)]
        if v[0] in ("nd", "dim"): return [(True, st), (False, st)]
        if v[0] == "ptr":
            o = st.o.get(v[1])
            if o is not None and o[0] == "ext" and o[3] == "?":
                t = st.copy(); self.setobj(t, v[1], none="n")
                return [(True, t), (False, self.refine(st, cell, ZERO))]
            return [(True, st)]
        if cell is not None and (cell[0] == "l" or member in self.guardfields):
            if cell[0] == "l" and cell[2] in self.counters.get(self.fn, ()): return [(True, st), (False, st)]
            return [(True, self.refine(st, cell, NZ)), (False, self.refine(st, cell, ZERO))]
        return [(True, st), (False, st)]

    def cellof(self, n, st):
        n = strip(n)
        if isinstance(n, A.ID):
            if n.name in self.u.enums or n.name in self.u.funcs or n.name == "Py_None": return None, None
            return self.var(n.name, st), n.name
        if isinstance(n, A.StructRef):
            r = self.lval(n, st)
            return (r[0][0] if len(r) == 1 else None), n.field.name
        if isinstance(n, A.Assignment): return self.cellof(n.lvalue, st)
        return None, None

    def cond(self, n, st):
        n = strip(n)
        if isinstance(n, A.UnaryOp) and n.op == "!": return [(not b, s) for b, s in self.cond(n.expr, st)]
        if isinstance(n, A.BinaryOp):
            if n.op == "&&":
                out = []
                for b, s in self.cond(n.left, st): out += self.cond(n.right, s) if b else [(False, s)]
                return self.dd(out)
            if n.op == "||":
                out = []
                for b, s in self.cond(n.left, st): out += [(True, s)] if b else self.cond(n.right, s)
                return self.dd(out)
            if n.op in ("==", "!="):
                out = []
                for a, s in self.ev(n.left, st):
                    for b, s2 in self.ev(n.right, s):
                        for r, s3 in self.eq(a, b, n, s2): out.append((r if n.op == "==" else not r, s3))
                return self.dd(out)
            if n.op in ("<", ">", "<=", ">="):
                out = []
                for a, s in self.ev(n.left, st):
                    for b, s2 in self.ev(n.right, s):
                        if a[0] == b[0] == "int": out.append((bool(eval(f"({a[1]}){n.op}({b[1]})")), s2)); continue
                        c, mem = self.cellof(n.left, s2)
                        if b == ZERO and c is not None and mem in self.guardfields and n.op == ">" and c[0] == "o":
                            if a == NZ: out.append((True, s2))
                            elif a == ZERO: out.append((False, s2))
                            else: out += [(True, self.refine(s2, c, NZ)), (False, self.refine(s2, c, ZERO))]
                        else: out += [(True, s2), (False, s2)]
                return self.dd(out)
        out = []
        for v, s in self.ev(n, st):
            c, mem = self.cellof(n, s)
            out += self.truth(v, s, c, mem, n)
        return self.dd(out)

    def dd(self, out):
        if len(out) < 3: return out
        seen = {}
        for b, s in out: seen.setdefault((b, s.key()), (b, s))
        return list(seen.values())

    def eq(self, a, b, n, st):
        """[(equal?, state)]"""
        la, lb = strip(n.left), strip(n.right)
        if a in (ZERO, NONE) and b not in (ZERO, NONE) or a[0] == "int" and b[0] != "int": a, b, la, lb = b, a, lb, la
        for x, y in ((a, b), (b, a)):
            if x[0] == "nd" and y[0] == "int" and x[1] in st.o:
                known = st.o[x[1]][4]
                if isinstance(known, int): return [(known == y[1], st)]
                t = st.copy(); self.setobj(t, x[1], default=y[1])
                return [(True, t), (False, st)]
        if "dim" in (a[0], b[0]):
            t = st.copy()
            t.facts = t.facts | {(x[1], i) for x in (a, b) if x[0] == "dim" for i in ([x[2]] if x[2] != "*" else range(8))}
            return [(True, t), (False, st)]
        if b == ZERO:
            c, mem = self.cellof(la, st)
            return [(not t, s) for t, s in self.truth(a, st, c, mem, la)]
        if b == NONE:
            if a == NONE: return [(True, st)]
            if a == ZERO: return [(False, st)]
            if a[0] == "ptr" and a[1] in st.o and st.o[a[1]][0] == "py":
                no = st.o[a[1]][3]
                if no == "y": return [(True, st)]
                if no in ("n", "a"): return [(False, st)]
                y, x = st.copy(), st.copy()
                self.setobj(y, a[1], none="y"); self.setobj(x, a[1], none="n")
                return [(True, y), (False, x)]
            return [(True, st), (False, st)]
        if b[0] == "int":
            if a[0] == "int": return [(a[1] == b[1], st)]
            if a[0] in ("ptr", "addr"): return [(False, st)]
            c, mem = self.cellof(la, st)
            if c is not None and (c[0] == "l" and c[2] not in self.counters.get(self.fn, ()) or mem in self.guardfields): return [(True, self.refine(st, c, b)), (False, st)]
            return [(True, st), (False, st)]
        if a[0] == b[0] == "ptr": return [(a == b, st)] if not (st.o.get(a[1], " ")[0] == "ext" or st.o.get(b[1], " ")[0] == "ext") else [(True, st), (False, st)]
        return [(True, st), (False, st)]

    # ---------------------------------------------------------------- calls
    def args(self, n, st):
        cur = [([], st)]
        for e in (n.args.exprs if n.args else []):
            cur = [(vs + [v], s2) for vs, s in cur for v, s2 in self.ev(e, s)]
        return cur

    def fail(self, st, node, what):
        s = st.copy()
        s.faults += 1
        s.trail = (s.trail + (f"{self.u.where(node)} ({self.fn}): {what} fails",))[-6:]
        return s

    def call(self, n, st):
        name = callname(n)
        out = []
        if name == "Py_CLEAR" or name in ("Py_SETREF", "Py_XSETREF"):
            for c, s in self.lval(n.args.exprs[0], st):
                v = self.rd(s, c); s = s.copy()
                nv = ZERO
                if name != "Py_CLEAR":
                    r = self.ev(n.args.exprs[1], s); nv = r[0][0]; s = r[0][1].copy()
                if not self.decref(s, v, n, True, n.args.exprs[0]): continue
                self.wr(s, c, nv); out.append((UNK, s))
            return out
        for vs, s in self.args(n, st):
            target = name
            if target not in self.u.funcs and (target is None or target in self.localtypes.get(self.fn, {})):
                fv = self.ev(n.name, s)
                if len(fv) == 1 and fv[0][0][0] == "fn": target = fv[0][0][1]
            if target in self.u.funcs: out += self.internal(target, vs, s, n)
            else:
                r = self.external(name, vs, s, n)
                if s.faults >= self.maxfaults and len(r) > 1: r = [(v, x) for v, x in r if x.faults <= self.maxfaults]
                out += r
        return out

    def decref(self, st, v, n, xok, expr):
        what = show(expr)
        self.tick("reference released", n)
        if v == ZERO:
            if xok: return True
            self.report("null-use", f"{what} in {self.fn}", n, st, f"{what} is released with Py_DECREF although it is NULL on this path"); return False
        if v == UNINIT:
            self.report("uninit-use", f"{what} in {self.fn}", n, st, f"{what} is released before it is given a value on this path"); return False
        if v[0] == "ptr" and v[1] in st.o:
            k, status, refs, none, d, nd = st.o[v[1]]
            if k in ("py",):
                if refs <= 0:
                    self.report("over-release", f"{what} in {self.fn}", n, st, f"{what} is released although no reference to it is owned here" + (" (it was released before)" if status == "freed" else ""))
                    return False
                refs -= 1
                self.setobj(st, v[1], refs=refs)
                if refs == 0 and v[1] != "None": self.setobj(st, v[1], status="freed")
        return True

    def external(self, name, vs, st, n):
        ex = n.args.exprs if n.args else []
        if name in ALLOC:
            self.tick("allocation", n)
            f = self.fail(st, n, name); f.failed = f.trail[-1]
            s = st.copy()
            self.gc(s)
            oid = self.new(s, (name, self.u.where(n)), "mem", "zero" if name == "calloc" else "uninit", node=self.is_node(n))
            return [((("ptr", oid) if oid is not None else NZ), s), (ZERO, f)]
        if name == "free":
            v = vs[0]; s = st.copy()
            self.tick("block freed", n)
            if v == UNINIT:
                self.report("uninit-use", f"{show(ex[0])} in {self.fn}", n, st, f"{show(ex[0])} is freed before it is given a value on this path"); return []
            if v[0] == "ptr" and v[1] in s.o:
                k, status = s.o[v[1]][:2]
                if status == "freed":
                    self.report("double-free", f"{show(ex[0])} in {self.fn}", n, st, f"{show(ex[0])} is freed a second time on this path"); return []
                if k in ("struct", "py"):
                    self.report("bad-free", f"{show(ex[0])} in {self.fn}", n, st, f"{show(ex[0])} is freed but was not allocated by malloc or calloc"); return []
                owned = [c for c, w in s.c.items() if c[0] == "o" and c[1] == v[1] and w[0] == "ptr"]
                self.setobj(s, v[1], status="freed")
                self.leakfields(s, v[1], n)
            return [(UNK, s)]
        if name in DECREF:
            s = st.copy()
            return [(UNK, s)] if self.decref(s, vs[0], n, name != "Py_DECREF", ex[0]) else []
        if name in ("Py_INCREF", "Py_XINCREF", "Py_NewRef", "Py_XNewRef"):
            s = st.copy(); v = vs[0]
            self.tick("reference taken", n)
            if v == ZERO and "X" not in name: return [] if not self.deref(s, v, n, show(ex[0])) else []
            if v[0] == "ptr" and v[1] in s.o and s.o[v[1]][0] == "py": self.setobj(s, v[1], refs=s.o[v[1]][2] + 1)
            return [(v if "Ref" in name and "New" in name else UNK, s)]
        if name in ERRSET:
            s = st.copy(); s.exc = True
            return [(ZERO, s)]
        if name == "PyErr_Clear" or name == "PyErr_Print" or name == "PyErr_Fetch":
            s = st.copy(); s.exc = False
            return [(UNK, s)]
        if name == "PyErr_ExceptionMatches":
            s = st.copy(); return [(NZ, s), (ZERO, st)] if st.exc else [(ZERO, st)]
        if name == "PyErr_Occurred": return [(NZ if st.exc else ZERO, st)]
        if name and name.startswith("PyArg_Parse"):
            self.tick("Python API call that can fail", n)
            f = self.fail(st, n, name); f.exc = True
            s = st.copy()
            fmt = next((strip(e).value.strip('"') for e in ex if isinstance(strip(e), A.Constant) and strip(e).type == "string"), "")
            codes = []
            for c in fmt.split(":")[0].split(";")[0]:
                if c == "!" and codes: codes[-1] = "!"; codes.append("O!")
                elif c not in "|$": codes.append(c)
            k = next((i for i, e in enumerate(ex) if isinstance(strip(e), A.Constant) and strip(e).type == "string"), 0) + 1
            for c, v, e in zip(codes, vs[k:], ex[k:]):
                cell = v[1] if v[0] == "addr" else ("o", v[1], "") if v[0] == "ptr" and v[1] in s.o and s.o[v[1]][0] == "struct" else None
                if cell is None: continue
                if c in ("O", "O!"):
                    oid = self.new(s, ("arg", self.u.where(e)), "py", refs=0, none="?")
                    if oid and c == "O!": self.setobj(s, oid, none="a")
                    self.wr(s, cell, ("ptr", oid) if oid else UNK)
                elif c == "s": self.wr(s, cell, NZ)
                else: self.wr(s, cell, UNK)
            return [(("int", 1), s), (ZERO, f)]
        if name == "Py_BuildValue":
            self.tick("Python API call that can fail", n)
            fmt = strip(ex[0]).value.strip('"') if isinstance(strip(ex[0]), A.Constant) else ""
            codes = [c for c in fmt if c.isalpha()]
            s = st.copy(); bad = False
            for c, v, e in zip(codes, vs[1:], ex[1:]):
                if c in "NO" and v == ZERO: bad = True
                if c in "NO" and not v == ZERO and not self.deref(s, v, n, show(e)): return []
                if c == "N" and v[0] == "ptr" and v[1] in s.o and s.o[v[1]][0] == "py":
                    r = s.o[v[1]][2]
                    if r <= 0:
                        self.report("over-release", f"{show(e)} in {self.fn}", n, st, f"{show(e)} gives up a reference ('N') that is not owned here"); return []
                    self.setobj(s, v[1], refs=r - 1)
                    # the container keeps it alive: reading it through the old name is fine, releasing it is not
            f = self.fail(s, n, "Py_BuildValue"); f.exc = True
            if bad: return [(ZERO, f)]
            self.gc(s)
            oid = self.new(s, ("build", self.u.where(n)), "py", refs=1, none="n")
            return [((("ptr", oid) if oid else NZ), s), (ZERO, f)]
        if name in NEWOBJ:
            self.tick("Python API call that can fail", n)
            if vs and name.startswith("PyObject") and not self.deref(st, vs[0], n, show(ex[0])): return []
            f = self.fail(st, n, name + (" " + show(ex[1]) if name.startswith("PyObject_GetAttr") and len(ex) > 1 else "")); f.exc = True
            s = st.copy(); self.gc(s)
            oid = self.new(s, ("obj" if name.startswith("PyObject") else "made", self.u.where(n)) + ((show(ex[1]),) if name.startswith("PyObject_GetAttr") and len(ex) > 1 else ()), "py", refs=1, none="?" if name.startswith("PyObject") else "a" if name.startswith("PyArray") else "n")
            return [((("ptr", oid) if oid else NZ), s), (ZERO, f)]
        if name in NUMBER:
            self.tick("Python API call that can fail", n)
            if not self.deref(st, vs[0], n, show(ex[0])): return []
            f = self.fail(st, n, name); f.exc = True
            return [(UNK, st), (UNK, f)]
        if name in ("memset", "bzero"):
            if not self.deref(st, vs[0], n, show(ex[0])): return []
            s = st.copy(); v = vs[0]
            whole = len(ex) < 3 or "*" not in show(ex[2]).replace("(*", "").replace("sizeof(*", "").replace("sizeof *", "")
            oid, pre = (v[1], "") if v[0] == "ptr" else (v[1][1], v[1][2]) if v[0] == "addr" and v[1][0] == "o" else (None, "")
            if oid in s.o and s.o[oid][0] in ("mem", "struct"):
                self.lostfields(s, oid, pre, n)
                self.dropfields(s, oid, pre)
                if not pre: self.setobj(s, oid, default="zero")
            return [(v, s)]
        if name in ("memcpy", "memmove", "strlen", "strcpy", "strncpy", "strcmp", "snprintf", "sprintf"):
            for v, e in zip(vs, ex[:2] if name.startswith("mem") else ex[:1]):
                if not self.deref(st, v, n, show(e)): return []
            return [(UNK, st)]
        if name in ("PyArray_CompareLists", "memcmp") and len(vs) > 2 and "dims" in (vs[0][0], vs[1][0]):
            t = st.copy()
            t.facts = t.facts | {(v[1], i) for v in vs[:2] if v[0] == "dims" for i in range(8)}
            return [(("int", 1), t), (ZERO, st)] if name != "memcmp" else [(ZERO, t), (NZ, st)]
        if name in ("PyArray_Check", "PyArray_CheckExact", "PyObject_TypeCheck"):
            v = vs[0]
            if not self.deref(st, v, n, show(ex[0])): return []
            if v[0] == "ptr" and v[1] in st.o and st.o[v[1]][0] == "py":
                no = st.o[v[1]][3]
                if no == "y": return [(ZERO, st)]
                if no == "a": return [(("int", 1), st)]
                t = st.copy(); self.setobj(t, v[1], none="a")
                return [(("int", 1), t), (ZERO, st)]
            return [(("int", 1), st), (ZERO, st)]
        if name and name.startswith("PyArray_"):
            two = name in ("PyArray_SAMESHAPE",)
            for v, e in list(zip(vs, ex))[:2 if two else 1]:
                if not self.deref(st, v, n, show(e)): return []
                if not self.isarray(st, v, n, show(e)): return []
            v = vs[0] if vs else UNK
            oid = v[1] if v[0] == "ptr" and v[1] in st.o and st.o[v[1]][0] == "py" else None
            if oid is not None:
                if name == "PyArray_NDIM": return [((("int", st.o[oid][4]) if isinstance(st.o[oid][4], int) else ("nd", oid)), st)]
                if name in ("PyArray_DIMS", "PyArray_SHAPE"): return [(("dims", oid), st)]
                if name == "PyArray_DIM" and len(vs) > 1 and vs[1][0] == "int": return [(("dim", oid, vs[1][1]), st)]
                if two and vs[1][0] == "ptr" and vs[1][1] in st.o:
                    t = st.copy(); k = st.o[oid][4]; k2 = st.o[vs[1][1]][4]
                    nd = k if isinstance(k, int) else k2
                    if isinstance(nd, int):
                        for o in (oid, vs[1][1]):
                            self.setobj(t, o, default=nd)
                            t.facts = t.facts | {(o, i) for i in range(nd)}
                    return [(("int", 1), t), (ZERO, st)]
                if name.startswith("PyArray_GETPTR") and name[-1].isdigit() and oid[0][0] == "obj" or name.startswith("PyArray_GETPTR") and oid[0][0] == "arg":
                    self.tick("input array element read", n)
                    k = int(name[-1]); nd = st.o[oid][4]; what = self.uname(oid)
                    if "made" not in oid[0]:
                        if nd != k:
                            self.report("rank-unchecked", f"{self.objname(oid)}", n, st, f"{show(ex[0])} ({what}) is subscripted with {k} indices but its number of dimensions "
                                        + (f"was checked to be {nd}" if isinstance(nd, int) else "is never checked on this path")); return []
                        miss = [i for i in range(k) if (oid, i) not in st.facts]
                        if miss:
                            self.report("extent-unchecked", f"{self.objname(oid)}", n, st, f"{show(ex[0])} ({what}) is subscripted but its extent along axis {miss[0]} is never compared with the loop bounds on this path"); return []
            return [(UNK, st)]
        if name and ( name.startswith("PyObject_") or name in ("PyTuple_GetItem", "PyTuple_SetItem", "PyTuple_SET_ITEM", "PyList_SET_ITEM", "PyDict_SetItem", "PyList_SetItem", "PyDict_SetItemString")):
            for v, e in list(zip(vs, ex))[:1]:
                if not self.deref(st, v, n, show(e)): return []
            if ("SetItem" in name or "SET_ITEM" in name) and len(vs) > 2:
                s = st.copy()
                if vs[2] == NONE and "Dict" not in name: self.setobj(s, "None", refs=max(0, s.o["None"][2] - 1))
                elif "Dict" not in name: self.escape(s, vs[2])
                if "SET_ITEM" in name: return [(UNK, s)]
                f = self.fail(st, n, name); f.exc = True
                return [(ZERO, s), (("int", -1), f)]
            return [(UNK, st)]
        # unknown function: what it is given by address may be written
        s = st
        for v in vs:
            if v[0] == "addr" and v[1][0] == "o":
                s = s.copy(); self.wr(s, v[1], UNK)
            elif v[0] == "ptr" and v[1] in s.o and s.o[v[1]][0] == "struct" and s.o[v[1]][4] == "uninit":
                s = s.copy(); self.setobj(s, v[1], default="unk")
        return [(UNK, s)]

    def is_node(self, n):
        """the block allocated is a list node (sizeof names a self-referential struct)"""
        t = self.alloc_target
        return t in self.nodestructs

    alloc_target = None

    def leakfields(self, st, oid, n):
        """blocks owned only by members of a block that is freed"""
        self.leak(st, n, (), f"freeing {self.uname(oid)}")

    def lostfields(self, st, oid, pre, n): pass

    def uname(self, oid):
        s = oid[0]
        if s[0] == "var": return s[3]
        return f"{s[0]} at {s[1]}" + (f" {s[2]}" if len(s) > 2 else "")

    def internal(self, name, vs, st, n):
        f = self.u.funcs[name]
        if name in self.stack: return [(UNK, st)]
        self.fn_info(name)
        self.funcs.add(name)
        # what the callee can see
        base = st.depth
        mine = {c: v for c, v in st.c.items() if c[0] == "l"}
        heap = {c: v for c, v in st.c.items() if c[0] != "l"}
        held = frozenset(v[1] for v in mine.values() if v[0] == "ptr")
        key = (name, tuple(vs), base, frozenset(heap.items()), frozenset(st.o.items()), st.exc, bool(st.failed), st.faults, st.facts, held)
        if key not in self.memo:
            self.stack.append(name)
            s = St(dict(st.c), dict(st.o), st.exc, st.failed, (), base + 1, st.faults, st.facts)
            self.declare(name, f, s, vs)
            outs = self.block_fn(f.body, s)
            res = {}
            for v, e in outs:
                for c in [c for c in e.c if c[0] == "l" and c[1] == base + 1]: del e.c[c]
                e.depth = base
                if v and v[0] == "ptr" and v[1] in e.o and e.o[v[1]][0] == "struct" and v[1][0][0] == "var" and v[1][0][1] > base: v = NZ
                for o in [o for o in e.o if o != "None" and o[0][0] == "var" and o[0][1] > base]:
                    self.keep = o
                    st_o = e.o.pop(o)
                    self.dropfields(e, o)
                self.leak(e, f, (v,), f"return from {name}")
                self.gc(e, (v,))
                res.setdefault((v, e.key()), (v, e))
            self.stack.pop()
            self.memo[key] = [(v, frozenset((c, x) for c, x in e.c.items() if c[0] != "l"), dict((c, x) for c, x in e.c.items() if c[0] != "l"), e.o, e.exc, e.failed, e.trail, e.faults, e.facts) for v, e in res.values()]
        out = []
        for v, _, hc, ho, exc, failed, trail, faults, facts in self.memo[key]:
            c = dict(mine); c.update(hc)
            out.append((v, St(c, dict(ho), exc, failed, (st.trail + trail)[-6:], base, faults, facts)))
        return out

    def declare(self, name, f, st, vs):
        types = {}
        ps = f.decl.type.args.params if f.decl.type.args else []
        for i, p in enumerate(ps):
            if not getattr(p, "name", None): continue
            types[p.name] = self.kindof(p.type, name, p.name, param=True)
        for d in walk(f.body):
            if isinstance(d, A.Decl) and d.name and not isinstance(d.type, A.FuncDecl): types[d.name] = self.kindof(d.type, name, d.name)
        self.localtypes[name] = types
        for i, p in enumerate(ps):
            if getattr(p, "name", None) and i < len(vs):
                if types[p.name] == "obj":
                    oid = (("var", st.depth, name, p.name), 0)
                    st.o[oid] = ("struct", "alive", 0, "n", "unk", False)
                    if vs[i] != UNK: st.c[("o", oid, "")] = vs[i]
                elif types[p.name] != "array" and vs[i] != UNK: st.c[("l", st.depth, p.name)] = vs[i]

    def kindof(self, t, fn, name, param=False):
        if isinstance(t, A.ArrayDecl): return "val" if param else "array"
        r = self.resolve(t) if not isinstance(t, A.PtrDecl) else t
        if isinstance(r, A.Struct): return "obj"
        if name in self.addrtaken.get(fn, ()): return "obj"
        if isinstance(r, A.PtrDecl):
            p = self.pointee(t) or self.pointee(r)
            return ("node", p) if p in self.nodestructs else ("ptr", p)
        return "val"

    # ---------------------------------------------------------------- leaks
    def leak(self, st, node, extra, when):
        live = self.reach(st, extra)
        for oid, (k, status, refs, none, d, nd) in list(st.o.items()):
            if oid == "None" or oid in live or status != "alive": continue
            if k == "mem" or k == "py" and refs > 0:
                self.report("leak", f"{self.uname(oid).split(':')[0] if False else self.leakname(oid)}", node, st,
                            ("the block allocated by " if k == "mem" else "the object obtained by ") + f"{self.uname(oid)} is still owned but can no longer be reached ({when})")
                del st.o[oid]; self.dropfields(st, oid)

    def leakname(self, oid):
        s = oid[0]
        return f"{s[0]} in {self.site_fn.get(s[1], '?')}" + (f" {s[2]}" if len(s) > 2 else "")

    # ---------------------------------------------------------------- statements
    def block_fn(self, body, st):
        r = self.seq([body], [st])
        outs = list(r["ret"]) + [(None, s) for s in r["next"]]
        if r["goto"]: raise AnalysisBroken(f"{self.fn}: goto to a label not found: {list(r['goto'])}")
        return outs

    def uniq(self, sts):
        if len(sts) < 2: return list(sts)
        d = {}
        for s in sts: d.setdefault(s.key(), s)
        if len(d) > MAXSTATES: raise AnalysisBroken(f"{self.fn}: more than {MAXSTATES} states")
        return list(d.values())

    def seq(self, items, sts):
        """block with labels: gotos into this block are followed to a fixed point"""
        R = dict(next=[], brk=[], cont=[], ret={}, goto={})
        labels = {}
        for i, it in enumerate(items):
            x = it
            while isinstance(x, (A.Label, A.Case, A.Default)):
                if isinstance(x, A.Label):
                    labels[x.name] = i; x = x.stmt
                else: break
        pend = {0: list(sts)}
        done = [set() for _ in range(len(items) + 1)]
        while pend:
            i = min(pend)
            cur = self.uniq(pend.pop(i))
            if labels:
                cur = [s for s in cur if s.key() not in done[i]]
                done[i] |= {s.key() for s in cur}
            if not cur: continue
            if i == len(items):
                R["next"] += cur; continue
            r = self.stmt(items[i], cur)
            if r["next"]: pend.setdefault(i + 1, []).extend(r["next"])
            R["brk"] += r["brk"]; R["cont"] += r["cont"]
            for v, s in r["ret"]: R["ret"].setdefault((v, s.key()), (v, s))
            for l, ss in r["goto"].items():
                if l in labels: pend.setdefault(labels[l], []).extend(ss)
                else: R["goto"].setdefault(l, []).extend(ss)
        R["next"] = self.uniq(R["next"]); R["brk"] = self.uniq(R["brk"]); R["cont"] = self.uniq(R["cont"])
        R["ret"] = list(R["ret"].values()); R["goto"] = {l: self.uniq(s) for l, s in R["goto"].items()}
        return R

    def none(self): return dict(next=[], brk=[], cont=[], ret=[], goto={})

    def stmt(self, n, sts):
        if isinstance(n, A.Compound): return self.seq(n.block_items or [], sts)
        if isinstance(n, A.Label): return self.stmt(n.stmt, sts)
        R = self.none()
        if n is None or isinstance(n, A.EmptyStatement): R["next"] = sts; return R
        if isinstance(n, A.DeclList):
            return self.seq(n.decls, sts)
        if isinstance(n, A.Decl):
            for st in sts: R["next"] += self.decl(n, st)
            return R
        if isinstance(n, A.If):
            t, f = [], []
            for st in sts:
                for b, s in self.cond(n.cond, st): (t if b else f).append(s)
            if t: self.merge(R, self.stmt(n.iftrue, self.uniq(t)))
            if f:
                if n.iffalse is not None: self.merge(R, self.stmt(n.iffalse, self.uniq(f)))
                else: R["next"] += f
            R["next"] = self.uniq(R["next"])
            return R
        if isinstance(n, (A.While, A.For, A.DoWhile)): return self.loop(n, sts)
        if isinstance(n, A.Return):
            for st in sts:
                if n.expr is None: R["ret"].append((None, st))
                else: R["ret"] += [(v, s) for v, s in self.ev(n.expr, st)]
            R["ret"] = [(v, s.copy()) for v, s in R["ret"]]
            return R
        if isinstance(n, A.Goto): R["goto"][n.name] = sts; return R
        if isinstance(n, A.Break): R["brk"] = sts; return R
        if isinstance(n, A.Continue): R["cont"] = sts; return R
        if isinstance(n, A.Switch): return self.switch(n, sts)
        if isinstance(n, (A.Case, A.Default)): return self.seq(n.stmts or [], sts)
        for st in sts:
            self.site(n)
            R["next"] += [s for _, s in self.ev(n, st)]
        R["next"] = self.uniq(R["next"])
        return R

    def site(self, n):
        """which function and which kind of block an allocation belongs to"""
        self.alloc_target = None
        if isinstance(n, A.Assignment):
            x = strip(n.lvalue)
            if isinstance(x, A.ID):
                t = self.localtypes[self.fn].get(x.name)
                if isinstance(t, tuple): self.alloc_target = t[1]
        if isinstance(n, A.Decl): self.alloc_target = self.pointee(n.type)
        if id(n) in self.sited: return
        self.sited.add(id(n))
        for c in walk(n):
            if isinstance(c, A.FuncCall) and c.coord is not None: self.site_fn[self.u.where(c)] = self.fn

    def merge(self, R, r):
        for k in ("next", "brk", "cont", "ret"): R[k] += r[k]
        for l, s in r["goto"].items(): R["goto"].setdefault(l, []).extend(s)

    def decl(self, n, st):
        if not n.name or isinstance(n.type, A.FuncDecl): return [st]
        t = self.localtypes[self.fn].get(n.name)
        if t == "array":
            return [s for _, s in self.ev(n.init, st)] if n.init is not None and not isinstance(n.init, A.InitList) else [st]
        self.site(n)
        if t == "obj":
            oid = (("var", st.depth, self.fn, n.name), 0)
            isstruct = isinstance(self.resolve(n.type), A.Struct) if not isinstance(n.type, A.PtrDecl) else False
            ptr = isinstance(n.type, A.PtrDecl)
            out = []
            for v, s in (self.ev(n.init, st) if n.init is not None and not isinstance(n.init, A.InitList) else [(None, st)]):
                s = s.copy(); self.dropfields(s, oid)
                static = "static" in (n.storage or [])
                d = "zero" if isinstance(n.init, A.InitList) else "uninit" if n.init is None and (ptr or isstruct) and not static else "unk"
                s.o[oid] = ("struct", "alive", 0, "n", d, False)
                if v is not None and v != UNK: s.c[("o", oid, "")] = v
                out.append(s)
            return out
        cell = ("l", st.depth, n.name)
        if n.init is None:
            s = st.copy()
            s.c.pop(cell, None)
            if isinstance(t, tuple) and "static" not in (n.storage or []): s.c[cell] = UNINIT
            return [s]
        out = []
        for v, s in self.ev(n.init, st):
            s = s.copy(); s.c.pop(cell, None); self.store(s, cell, v, n); out.append(s)
        return out

    def loop(self, n, sts):
        R = self.none()
        if isinstance(n, A.For) and n.init is not None:
            r = self.stmt(n.init, sts); sts = r["next"]
        cond = n.cond
        seen = {}
        work = self.uniq(sts)
        first = isinstance(n, A.DoWhile) or self.runs_once(n)
        while work:
            body = []
            if first: body = work; first = False
            else:
                for st in work:
                    if st.key() in seen: continue
                    seen[st.key()] = st
                    if cond is None: body.append(st)
                    else:
                        for b, s in self.cond(cond, st): (body if b else R["next"]).append(s)
            if not body: break
            r = self.stmt(n.stmt, self.uniq(body))
            R["next"] += r["brk"]; R["ret"] += r["ret"]
            for l, s in r["goto"].items(): R["goto"].setdefault(l, []).extend(s)
            nxt = self.uniq(r["next"] + r["cont"])
            if isinstance(n, A.For) and n.next is not None: nxt = self.uniq([s2 for s in nxt for _, s2 in self.ev(n.next, s)])
            work = [s for s in nxt if s.key() not in seen]
            if len(seen) > MAXSTATES: raise AnalysisBroken(f"{self.fn}: more than {MAXSTATES} loop states")
        R["next"] = self.uniq(R["next"])
        return R

    def runs_once(self, n):
        """for (i = 0; i < constant; ...) has at least one pass"""
        if not isinstance(n, A.For) or n.init is None or not isinstance(n.cond, A.BinaryOp) or n.cond.op not in ("<", "<=", "!="): return False
        i = n.init.decls[0] if isinstance(n.init, A.DeclList) else n.init
        v = strip(i.init if isinstance(i, A.Decl) else i.rvalue if isinstance(i, A.Assignment) else None)
        b = strip(n.cond.right)
        try: return int(v.value, 0) < int(b.value, 0)
        except (AttributeError, ValueError, TypeError): return False

    def switch(self, n, sts):
        R = self.none()
        cur = [s for st in sts for _, s in self.ev(n.cond, st)]
        items = n.stmt.block_items or [] if isinstance(n.stmt, A.Compound) else [n.stmt]
        hasdef = any(isinstance(i, A.Default) for i in items)
        for i, it in enumerate(items):
            if isinstance(it, (A.Case, A.Default)):
                r = self.seq(items[i:], [s.copy() for s in cur])
                R["next"] += r["next"] + r["brk"]; R["cont"] += r["cont"]; R["ret"] += r["ret"]
                for l, s in r["goto"].items(): R["goto"].setdefault(l, []).extend(s)
        if not hasdef: R["next"] += cur
        R["next"] = self.uniq(R["next"])
        return R

    # ---------------------------------------------------------------- whole program
    def run(self):
        f = self.u.funcs[self.entry]
        self.fn_info(self.entry); self.funcs.add(self.entry)
        st = St()
        st.o["None"] = ("py", "alive", 0, "y", "unk", False)
        self.stack.append(self.entry)
        ps = f.decl.type.args.params if f.decl.type.args else []
        vs = []
        for p in ps:
            oid = ("arg", p.name)
            st.o[(oid, 0)] = ("py", "alive", 0, "n", "unk", False); vs.append(("ptr", (oid, 0)))
        self.declare(self.entry, f, st, vs)
        outs = self.block_fn(f.body, st)
        self.exits = len(outs)
        for v, s in outs:
            for c in [c for c in s.c if c[0] in ("l", "g")]: del s.c[c]
            for o in [o for o in s.o if o != "None" and o[0][0] == "var"]:
                s.o.pop(o); self.dropfields(s, o)
            self.count.setdefault("path outcome at the entry", set()).add((v == ZERO, s.exc, bool(s.failed)))
            nm = s.o["None"][2]
            if v is None: self.report("exit", "no result", f, s, "a path leaves the entry without a result"); continue
            if v == ZERO:
                if not s.exc: self.report("exit", "NULL without exception", f, s, "the entry returns NULL but no exception is set on this path")
            else:
                if s.exc: self.report("exit", "result with exception", f, s, "the entry returns a result although an exception is set on this path")
                elif s.failed: self.report("exit", "failure hidden", f, s, "the entry returns a result although an allocation failed on this path")
                if v[0] == "ptr" and v[1] in s.o:
                    k, status, refs = s.o[v[1]][:3]
                    if refs < 1: self.report("over-release", "result of the entry", f, s, "the entry returns an object it does not own a reference to")
                    elif refs > 1 and v[1] != "None": self.report("leak", "result of the entry", f, s, "the entry returns an object with an extra reference")
                    if v[1] == "None": nm -= 1
            if nm > 0: self.report("leak", "None", f, s, "a reference to None is never released on this path")
            self.leak(s, f, (v,), "return from the entry")
        self.stack.pop()
        return self


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        if x is None: continue
        yield x
        stack += [c for _, c in x.children()]
