"""Abstract interpreter for the C extension: one flow-sensitive, interprocedural pass (calls followed into their bodies,
struct members and heap blocks by allocation site).  A value carries
  deps / ctl   the Python inputs it is computed from / that decide which value it is
  keep         inputs whose bits it still holds (only OR-ed since)
  src          member it is an unchanged copy of
  unit         physical dimension (values.py lattice)
  kind         axis meaning of a whole number: ("L", axes) a length, ("T", terms) an index or linear offset
  ptr          what it points to: (location, offset terms)
Every event goes to listeners; nothing is executed."""
from .project import AnalysisBroken
from .cfront import c_ast as A, strip, callname, show, params, walk
from .values import U_POLY, U_TOP, NODIM, u_mul, u_pow, u_join, unit
from fractions import Fraction

E = frozenset()


class CV:
    __slots__ = ("deps", "ctl", "keep", "src", "unit", "kind", "ptr", "const", "bits", "zero")

    def __init__(self, deps=E, ctl=E, keep=None, src=None, unit=U_TOP, kind=None, ptr=E, const=None, bits=E, zero=False):
        self.deps = deps; self.ctl = ctl; self.keep = keep; self.src = src; self.unit = unit; self.kind = kind
        self.ptr = ptr; self.const = const; self.bits = bits; self.zero = zero

    def w(self, **k):
        n = CV(self.deps, self.ctl, self.keep, self.src, self.unit, self.kind, self.ptr, self.const, self.bits, self.zero)
        for a, b in k.items(): setattr(n, a, b)
        return n

    def key(self): return (self.deps, self.ctl, self.keep, self.src, self.unit, self.kind, self.ptr, self.const, self.bits, self.zero)
    def __eq__(self, o): return isinstance(o, CV) and self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def __repr__(self): return f"CV(deps={sorted(self.deps)}, unit={self.unit}, kind={self.kind}, ptr={sorted(map(str,self.ptr))}, const={self.const})"


def lit(v): return CV(unit=U_POLY, kind="poly", const=v)


UNK = CV()
ZERO = CV(unit=U_POLY, kind="poly", const=0, zero=True)
NULLP = ZERO


def kjoin(a, b):
    if a == b: return a
    if a == "poly": return b
    if b == "poly": return a
    return None


def join(a, b):
    if a == b: return a
    if a is None: return b
    if b is None: return a
    keep = a.keep if b.zero and b.keep is None else b.keep if a.zero and a.keep is None else (None if a.keep is None or b.keep is None else a.keep & b.keep)
    src = a.src if (a.src == b.src or b.const is not None) else b.src if a.const is not None else None
    return CV(a.deps | b.deps, a.ctl | b.ctl, keep, src, u_join(a.unit, b.unit), kjoin(a.kind, b.kind), a.ptr | b.ptr,
              a.const if a.const == b.const and type(a.const) == type(b.const) else None, a.bits | b.bits, a.zero and b.zero)


class State:
    __slots__ = ("m", "live", "pc", "alloc", "must", "facts")

    def __init__(self, m=None, live=True, pc=E, alloc=None, must=E, facts=E):
        self.m = m if m is not None else {}; self.live = live; self.pc = pc; self.alloc = alloc if alloc is not None else {}
        self.must = must; self.facts = facts

    def copy(self): return State(dict(self.m), self.live, self.pc, dict(self.alloc), self.must, self.facts)


def jstate(a, b):
    if a is None or not a.live: return b
    if b is None or not b.live: return a
    m = {}
    for k in a.m.keys() | b.m.keys():
        x, y = a.m.get(k), b.m.get(k)
        if x is None or y is None: m[k] = x or y
        else: m[k] = join(x, y)
    al = dict(a.alloc)
    for k, n in b.alloc.items(): al[k] = max(n, al.get(k, 0))
    return State(m, True, a.pc if a.pc == b.pc else a.pc & b.pc, al, a.must & b.must, a.facts & b.facts)


# ------------------------------------------------------------------ axis kinds
def as_terms(k):
    if k == "poly": return E
    if k is None: return None
    if k[0] == "T": return k[1]
    if k[0] == "L":
        return frozenset({(k[1][0], ())}) if len(k[1]) == 1 else None
    return None


def k_add(a, b):
    if a is None or b is None: return None
    if a == "poly": return b
    if b == "poly": return a
    if a[0] == "L" and b[0] == "L" and a == b: return a
    x, y = as_terms(a), as_terms(b)
    if x is None or y is None: return None
    return ("T", x | y)


def k_mul(a, b):
    if a == "poly" and b == "poly": return "poly"
    if a is None or b is None or a == "poly" or b == "poly": return None
    if a[0] == "L" and b[0] == "L": return ("L", tuple(sorted(a[1] + b[1])))
    if a[0] == "T" and b[0] == "L": return ("T", frozenset((x, tuple(sorted(s + b[1]))) for x, s in a[1]))
    if a[0] == "L" and b[0] == "T": return k_mul(b, a)
    return None


def layout(terms):
    """the axes in storage order when the linear index is a well formed row-major one, else None"""
    ts = sorted(terms, key=lambda t: (len(t[1]), t[1]))
    below = ()
    out = []
    for ax, stride in ts:
        if tuple(sorted(stride)) != tuple(sorted(below)): return None
        below = below + (ax,); out.append(ax)
    return tuple(reversed(out))


class CInterp:
    MAXDEPTH = 40

    def __init__(self, unit_, inputs=None):
        self.u = unit_
        self.inputs = inputs or {}
        self.listeners = {}
        self.stack = []
        self.nframe = 0
        self.counts = {}
        self.events_seen = set()
        self.assumed = {}
        self.success = True

    # ---------------------------------------------------------------- events
    def on(self, kind, fn): self.listeners.setdefault(kind, []).append(fn)

    def emit(self, kind, node, **d):
        self.counts[kind] = self.counts.get(kind, 0) + 1
        for f in self.listeners.get(kind, ()): f(node, d)

    def where(self, node): return self.u.where(node)
    def path(self): return " > ".join(f for f, _ in self.stack)

    # ---------------------------------------------------------------- types
    def base(self, t):
        n = 0
        while isinstance(t, A.TypeDecl) or (isinstance(t, A.IdentifierType) and t.names and t.names[-1] in self.u.typedefs and n < 20):
            t = t.type if isinstance(t, A.TypeDecl) else self.u.typedefs[t.names[-1]]; n += 1
        return t

    def struct_of(self, t):
        t = self.base(t)
        return t.name if isinstance(t, A.Struct) else None

    def elem(self, t):
        t = self.base(t)
        return t.type if isinstance(t, (A.PtrDecl, A.ArrayDecl)) else None

    def typeof(self, e, fr):
        e0 = e
        if isinstance(e, A.ID):
            return fr["types"].get(e.name) or (self.u.globals[e.name].type if e.name in self.u.globals else None)
        if isinstance(e, A.Cast): return e.to_type.type
        if isinstance(e, A.StructRef):
            bt = self.typeof(e.name, fr)
            if bt is not None and e.type == "->": bt = self.elem(bt)
            s = self.struct_of(bt) if bt is not None else None
            return (self.u.structs.get(s) or {}).get(e.field.name)
        if isinstance(e, A.ArrayRef):
            t = self.typeof(e.name, fr); return self.elem(t) if t is not None else None
        if isinstance(e, A.UnaryOp):
            t = self.typeof(e.expr, fr)
            if t is None: return None
            if e.op == "*": return self.elem(t)
            if e.op == "&": return A.PtrDecl([], t)
            return t
        if isinstance(e, A.FuncCall):
            n = callname(e)
            if n in self.u.funcs: return self.u.funcs[n].decl.type.type
            return None
        if isinstance(e, A.BinaryOp):
            return self.typeof(e.left, fr) or self.typeof(e.right, fr)
        return None

    def isptr(self, t):
        return t is not None and isinstance(self.base(t), (A.PtrDecl, A.ArrayDecl))

    def ctype(self, t):
        """name of the scalar type"""
        if t is None: return None
        if isinstance(t, A.TypeDecl) and isinstance(t.type, A.IdentifierType):
            n = t.type.names[-1]
            if n in ("uint8_t", "uint32_t", "npy_uint32", "npy_uint8", "int32_t", "npy_ubyte", "real_t", "npy_float", "npy_float32"):
                if n == "real_t": return self.ctype(self.u.typedefs[n])
                return {"npy_uint32": "uint32_t", "npy_uint8": "uint8_t", "npy_ubyte": "uint8_t", "npy_float": "float", "npy_float32": "float"}.get(n, n)
            if n in self.u.typedefs: return self.ctype(self.u.typedefs[n])
            return " ".join(t.type.names)
        return None

    # ---------------------------------------------------------------- locations
    def rd(self, st, loc):
        v = st.m.get(loc)
        if v is not None: return v
        # zeroed heap block or struct
        for i in range(len(loc) - 1, 1, -1):
            z = st.m.get(loc[:i] + ("<zero>",))
            if z is not None: return ZERO
        if loc[0] == "g": return UNK
        return UNK

    def wr(self, st, loc, v, strong, node):
        v = v.w(ctl=v.ctl | st.pc)
        if not strong:
            old = st.m.get(loc)
            if old is None: old = self.rd(st, loc)
            if old is not UNK: v = join(old, v)
        st.m[loc] = v
        st.must = st.must | {loc}

    def zero(self, st, loc):
        for k in [k for k in st.m if k[:len(loc)] == loc and k != loc]: del st.m[k]
        st.m[loc + ("<zero>",)] = ZERO

    def singular(self, st, loc):
        """does the location stand for a single object (not an element of an array or a repeated allocation)"""
        if "[]" in loc: return False
        if loc[0] == "h": return st.alloc.get(loc[:2], 2) == 1
        return True

    def lv(self, e, st, fr):
        """[(location)] denoted by an lvalue expression, evaluating side effects"""
        e = strip(e)
        if isinstance(e, A.ID):
            if e.name in fr["types"]: return [(("l", fr["id"], e.name), E)]
            return [(("g", e.name), E)]
        if isinstance(e, A.StructRef):
            if e.type == ".":
                return [(l + (e.field.name,), E) for l, _ in self.lv(e.name, st, fr)]
            return [(l + (e.field.name,), E) for l, off in self.deref(e.name, st, fr)]
        if isinstance(e, A.UnaryOp) and e.op == "*": return self.deref(e.expr, st, fr)
        if isinstance(e, A.ArrayRef):
            t = self.typeof(e.name, fr)
            iv = self.ev(e.subscript, st, fr)
            out = []
            for l, off in self.deref(e.name, st, fr, arr=True):
                terms = as_terms(iv.kind)
                tot = None if terms is None or off is None else off | terms
                if t is not None and not self.isstruct_elem(t):
                    self.emit("index", e, loc=l, terms=tot, iv=iv, fr=fr)
                if l[-1] == "[]" and iv.const is not None and isinstance(iv.const, int) and l[:-1] + ("#arr",) in st.m:
                    out.append((l[:-1] + (f"[{iv.const}]",), tot))
                else: out.append((l, tot))
            return out
        if isinstance(e, (A.FuncCall, A.BinaryOp, A.TernaryOp, A.Assignment)):
            return [(l, o) for l, o in self.ev(e, st, fr).ptr]
        return []

    def isstruct_elem(self, t):
        x = self.elem(t)
        return x is not None and self.struct_of(x) is not None

    def deref(self, e, st, fr, arr=False):
        v = self.ev(e, st, fr)
        if v.ptr: return sorted(v.ptr, key=str)
        t = self.typeof(strip(e), fr)
        s = self.struct_of(self.elem(t)) if t is not None and self.elem(t) is not None else None
        if s: return [(("t", s, "[]"), E)]
        return [(("u", show(strip(e)), "[]"), E)]

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        if e is None: return UNK
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is None: return UNK
        return m(e, st, fr)

    def x_Constant(self, e, st, fr):
        if e.type == "string": return CV(const=e.value.strip('"'), unit=U_TOP)
        try:
            s = e.value.rstrip("uUlLfF") if not e.value.lower().startswith("0x") else e.value.rstrip("uUlL")
            v = int(s, 0) if "." not in s and "e" not in s.lower() or s.lower().startswith("0x") else float(s)
        except ValueError:
            v = None
        c = lit(v)
        if v == 0: c = c.w(zero=True)
        return c

    def x_ID(self, e, st, fr):
        if e.name in fr["types"]:
            loc = ("l", fr["id"], e.name)
            t = fr["types"][e.name]
            if isinstance(self.base(t), A.ArrayDecl): return CV(ptr=frozenset({(loc + ("[]",), E)}))
            return self.rd(st, loc)
        if e.name in ("NAN", "INFINITY", "STUB_NAN", "STUB_INF"): return CV(unit=U_POLY, kind="poly", const=e.name)
        if e.name == "NULL": return NULLP
        if e.name in self.u.funcs: return CV(ptr=frozenset({(("fn", e.name), E)}))
        if e.name in self.u.enums or e.name in ("true", "false"): return CV(const=e.name, unit=U_POLY, kind="poly")
        if e.name in ("Py_None", "Py_True", "Py_False", "_Py_NoneStruct"): return CV(const="@" + e.name, unit=U_POLY)
        if e.name in self.u.globals:
            g = self.u.globals[e.name]
            if ("g", e.name) in st.m: return self.rd(st, ("g", e.name))
            if "const" in (g.quals or []) and g.init is not None: return self.ev(g.init, st, fr).w(src=None)
            return self.rd(st, ("g", e.name))
        return CV(const="@" + e.name, unit=U_POLY)

    def read_lv(self, e, st, fr):
        out = None
        t = self.typeof(e, fr)
        arr = t is not None and isinstance(self.base(t), A.ArrayDecl)
        for l, off in self.lv(e, st, fr):
            if arr: v = CV(ptr=frozenset({(l + ("[]",), E)}))
            else:
                v = self.rd(st, l)
                self.emit("load", e, loc=l, value=v, fr=fr)
                if v.src is None and l[0] != "l" and not v.ptr and v.const is None: v = v.w(src=l)
            out = join(out, v)
        return out if out is not None else UNK

    def x_StructRef(self, e, st, fr): return self.read_lv(e, st, fr)

    def x_ArrayRef(self, e, st, fr): return self.read_lv(e, st, fr)

    def x_Cast(self, e, st, fr):
        v = self.ev(e.expr, st, fr)
        return v

    def x_UnaryOp(self, e, st, fr):
        op = e.op
        if op == "&":
            t = self.typeof(e.expr, fr)
            return CV(ptr=frozenset((l, o) for l, o in self.lv(e.expr, st, fr)))
        if op == "*":
            x = strip(e.expr)
            v = self.ev(e.expr, st, fr)
            for l, o in v.ptr:
                if l[0] == "np":     # element of a numpy array
                    ct = self.ctype(self.elem(self.typeof(e.expr, fr)))
                    return self.np_read(e, l, ct, st)
            return self.read_lv(e, st, fr)
        if op == "sizeof": return CV(unit=U_POLY)
        v = self.ev(e.expr, st, fr)
        if op in ("p++", "p--", "++", "--"):
            n = v.w(const=None, src=None, zero=False)
            if v.const is not None and not v.ptr: n = n.w(kind=v.kind, unit=U_POLY)
            self.store(e.expr, n, st, fr, e)
            return v if op[0] == "p" else n
        if op == "-":
            return v.w(src=None, const=-v.const if isinstance(v.const, (int, float)) else None, keep=None)
        if op == "!":
            return CV(deps=v.deps, ctl=v.ctl, unit=U_POLY, kind="poly", const=(0 if v.const else 1) if isinstance(v.const, (int, float)) else None)
        if op == "~": return v.w(src=None, const=None, keep=None)
        return v.w(src=None)

    def x_TernaryOp(self, e, st, fr):
        c = self.ev(e.cond, st, fr)
        a = self.ev(e.iftrue, st, fr); b = self.ev(e.iffalse, st, fr)
        self.meet("select", e, a, b)
        v = join(a, b)
        return v.w(ctl=v.ctl | c.deps | c.ctl)

    def meet(self, op, e, a, b):
        """two quantities that must be of one dimension and one axis"""
        if a.ptr or b.ptr: return
        if a.unit not in (U_TOP, U_POLY) and b.unit not in (U_TOP, U_POLY):
            self.emit("unit_pair", e, op=op, a=a, b=b, ok=a.unit == b.unit)
        for x, y in ((a, b), (b, a)):
            pass
        if a.kind not in (None, "poly") and b.kind not in (None, "poly"):
            self.emit("kind_pair", e, op=op, a=a, b=b)

    def x_BinaryOp(self, e, st, fr):
        op = e.op
        a = self.ev(e.left, st, fr)
        if op in ("&&", "||"):
            s2 = st.copy()
            b = self.ev(e.right, s2, fr)
            for k, v in s2.m.items():
                if st.m.get(k) != v: st.m[k] = join(st.m.get(k), v)
            return CV(deps=a.deps | b.deps, ctl=a.ctl | b.ctl, unit=U_POLY, kind="poly")
        b = self.ev(e.right, st, fr)
        d = a.deps | b.deps; c = a.ctl | b.ctl
        if op in ("==", "!=", "<", ">", "<=", ">="):
            self.meet(op, e, a, b)
            k = None
            if isinstance(a.const, (int, float)) and isinstance(b.const, (int, float)):
                k = {"==": a.const == b.const, "!=": a.const != b.const, "<": a.const < b.const, ">": a.const > b.const, "<=": a.const <= b.const, ">=": a.const >= b.const}[op]
                k = int(k)
            self.emit("compare", e, op=op, a=a, b=b, fr=fr)
            return CV(deps=d, ctl=c, unit=U_POLY, kind="poly", const=k)
        if op in ("|", "&", "^"):
            keep = None
            if op == "|": keep = (a.keep or E) | (b.keep or E)
            self.emit("bitop", e, op=op, a=a, b=b)
            return CV(deps=d, ctl=c, keep=keep, unit=U_POLY, kind="poly", bits=a.bits | b.bits if op == "|" else E)
        if op in ("<<", ">>"): return CV(deps=d, ctl=c, unit=U_POLY)
        if op in ("+", "-"):
            p = a.ptr or b.ptr
            if p and not (a.ptr and b.ptr):
                off = as_terms((b if a.ptr else a).kind)
                base = a if a.ptr else b
                return base.w(ptr=frozenset((l, None if off is None or o is None else o | off) for l, o in base.ptr), const=None, zero=False)
            self.meet(op, e, a, b)
            self.emit("arith", e, op=op, a=a, b=b)
            k = None
            if isinstance(a.const, (int, float)) and isinstance(b.const, (int, float)): k = a.const + b.const if op == "+" else a.const - b.const
            return CV(deps=d, ctl=c, unit=u_join(a.unit, b.unit) if U_TOP not in (a.unit, b.unit) else (a.unit if b.unit == U_TOP and a.unit != U_POLY else b.unit if a.unit == U_TOP and b.unit != U_POLY else U_TOP),
                      kind=k_add(a.kind, b.kind), const=k)
        if op in ("*", "/"):
            k = None
            if isinstance(a.const, (int, float)) and isinstance(b.const, (int, float)) and (op == "*" or b.const): k = a.const * b.const if op == "*" else a.const / b.const
            if isinstance(k, float) and isinstance(a.const, int) and isinstance(b.const, int) and op == "/": k = int(k)
            return CV(deps=d, ctl=c, unit=u_mul(a.unit, b.unit, 1 if op == "*" else -1), kind=k_mul(a.kind, b.kind) if op == "*" else ("poly" if a.kind == b.kind == "poly" else None), const=k)
        if op == "%": return CV(deps=d, ctl=c, unit=a.unit)
        return CV(deps=d, ctl=c)

    def x_ExprList(self, e, st, fr):
        v = UNK
        for x in e.exprs: v = self.ev(x, st, fr)
        return v

    def x_Assignment(self, e, st, fr):
        if e.op == "=":
            v = self.ev(e.rvalue, st, fr)
        else:
            b = A.BinaryOp(e.op[:-1], e.lvalue, e.rvalue, e.coord)
            v = self.ev(b, st, fr)
        self.store(e.lvalue, v, st, fr, e)
        return v

    def store(self, lhs, v, st, fr, node):
        locs = self.lv(lhs, st, fr)
        t = self.typeof(strip(lhs), fr)
        for l, off in locs:
            if l[0] == "np": self.np_write(node, l, v, st, self.ctype(t)); continue
            strong = len(locs) == 1 and self.singular(st, l)
            self.emit("store", node, loc=l, value=v, old=st.m.get(l), strong=strong, fr=fr, op=getattr(node, "op", "="))
            if l[0] == "l" and v.src is None and False: pass
            # an assigned struct: copy its members
            s = self.struct_of(t) if t is not None else None
            if s and isinstance(strip(getattr(node, "rvalue", None)) if getattr(node, "rvalue", None) is not None else None, (A.ID, A.StructRef, A.ArrayRef, A.UnaryOp)):
                for l2, _ in self.lv(node.rvalue, st, fr):
                    for k in [k for k in st.m if k[:len(l2)] == l2 and len(k) > len(l2)]:
                        self.wr(st, l + k[len(l2):], st.m[k], strong, node)
                continue
            if v.ptr and ("h",) == tuple(x[0] for x, _ in v.ptr)[:1] and not v.deps: pass
            self.wr(st, l, v, strong, node)

    # ---------------------------------------------------------------- numpy arrays
    def np_read(self, node, loc, ct, st):
        """loc = ("np", array value key, index values)"""
        arr, idx = loc[1], loc[2]
        info = self.nparr.get(arr)
        self.emit("np_load", node, arr=arr, idx=idx, ctype=ct, info=info)
        if info is None: return UNK
        if info.get("made"):
            return st.m.get(("npc", arr), UNK)
        return CV(deps=frozenset({info["root"]}), unit=info.get("unit", U_TOP), keep=frozenset({info["root"]}), kind=None)

    def np_write(self, node, loc, v, st, ct=None):
        arr, idx = loc[1], loc[2]
        info = self.nparr.get(arr)
        self.emit("np_store", node, ctype=ct, arr=arr, idx=idx, value=v.w(ctl=v.ctl | st.pc), info=info, st=st)
        k = ("npc", arr)
        st.m[k] = join(st.m.get(k), v.w(ctl=v.ctl | st.pc))

    # ---------------------------------------------------------------- calls
    def x_FuncCall(self, e, st, fr):
        name = callname(e)
        if name == "sizeof" or (isinstance(e.name, A.ID) and e.name.name == "sizeof"): return CV(unit=U_POLY)
        argn = e.args.exprs if e.args is not None else []
        if name in fr["types"] or name is None:
            fv = self.ev(e.name, st, fr)
            fns = sorted({l[1] for l, _ in fv.ptr if l[0] == "fn"})
            args = [self.ev(a, st, fr) for a in argn]
            out = None
            for f in fns: out = join(out, self.call(e, f, args, argn, st, fr))
            if not fns: self.emit("unkcall", e, name=show(e.name))
            return out if out is not None else UNK
        args = [self.ev(a, st, fr) for a in argn]
        if name in self.u.funcs: return self.call(e, name, args, argn, st, fr)
        m = getattr(self, "b_" + name, None)
        self.emit("ext", e, name=name, args=args, argn=argn, st=st)
        if m is not None: return m(e, args, argn, st, fr)
        d = E; c = E
        for a in args: d = d | a.deps; c = c | a.ctl
        return CV(deps=d, ctl=c)

    def call(self, e, name, args, argn, st, fr):
        fd = self.u.funcs[name]
        if sum(1 for f, _ in self.stack if f == name) >= 2 or len(self.stack) > self.MAXDEPTH:
            self.emit("deep", e, name=name)
            return UNK
        self.emit("call", e, name=name, args=args, st=st)
        nf = self.frame(fd)
        for i, p in enumerate(params(fd)):
            st.m[("l", nf["id"], p)] = args[i] if i < len(args) else UNK
        self.stack.append((name, e))
        pc = st.pc
        nf["rets"] = []
        self.block(fd.body, st, nf)
        if st.live: nf["rets"].append((UNK, st.copy()))
        out = None; acc = None
        bad = lambda v: isinstance(v.const, (int, float)) and v.const != 0
        mixed = any(bad(v) for v, _ in nf["rets"]) and any(v.const == 0 for v, _ in nf["rets"]) and self.success
        nulls = self.success and self.isptr(fd.decl.type.type) and any(v.ptr for v, _ in nf["rets"])
        for v, s in nf["rets"]:
            out = join(out, v)
            # a failing return is not followed further (the value handed back stays undecided)
            if (mixed and bad(v)) or (nulls and v.zero and not v.ptr): continue
            acc = jstate(acc, s)
        self.stack.pop()
        # drop the frame
        if acc is None:
            st.live = False
            return UNK
        must0 = acc.must
        st.m = {k: v for k, v in acc.m.items() if not (k[0] == "l" and k[1] == nf["id"])}
        st.alloc = acc.alloc; st.live = True; st.pc = pc; st.must = must0; st.facts = acc.facts
        self.emit("exit", e, name=name, value=out, st=st)
        return out if out is not None else UNK

    def frame(self, fd):
        self.nframe += 1
        types = {}
        t = fd.decl.type
        if t.args is not None:
            for p in t.args.params:
                if getattr(p, "name", None): types[p.name] = p.type
        rv = [strip(n.expr).name for n in walk(fd.body) if isinstance(n, A.Return) and n.expr is not None and isinstance(strip(n.expr), A.ID)]
        return {"id": self.nframe, "retvar": rv[0] if len(set(rv)) == 1 else None, "types": types, "labels": {}, "rets": [], "name": fd.decl.name, "loops": []}

    # builtins
    def b_calloc(self, e, args, argn, st, fr, zero=True):
        loc = ("h", e.coord.line if e.coord else id(e), )
        key = ("h", f"{self.path()}:{getattr(e.coord, 'line', 0)}:{getattr(e.coord, 'column', 0)}")
        n = args[0] if args else UNK
        many = not (n.const == 1) if zero else True
        st.alloc[key] = 2 if many or key in st.alloc else 1
        if many: loc = key + ("[]",)
        else: loc = key
        if zero:
            if st.alloc[key] == 1 or (key + ("<zero>",)) not in st.m:
                self.zero(st, key)
        self.emit("alloc", e, loc=loc, n=n, args=args)
        return CV(ptr=frozenset({(loc, E)}))

    def b_malloc(self, e, args, argn, st, fr): return self.b_calloc(e, args, argn, st, fr, zero=False)
    def b_PyMem_Malloc(self, e, args, argn, st, fr): return self.b_calloc(e, args, argn, st, fr, zero=False)
    def b_PyMem_Calloc(self, e, args, argn, st, fr): return self.b_calloc(e, args, argn, st, fr)

    def b_memset(self, e, args, argn, st, fr):
        for l, o in args[0].ptr:
            self.emit("memset", e, loc=l, n=args[2] if len(args) > 2 else UNK)
            if l[-1] == "[]":
                # whole array when the start is the array itself
                if o == E or o is None:
                    n = args[2] if len(args) > 2 else UNK
                    if self.wholeset(argn): self.zero(st, l)
                    continue
            if self.singular(st, l):
                self.zero(st, l)
                if l in st.m: st.m[l] = ZERO
        return UNK

    def wholeset(self, argn):
        """memset over count * element size (as against one element of an array)"""
        x = strip(argn[2]) if len(argn) > 2 else None
        if isinstance(x, A.BinaryOp): return True
        d = strip(argn[0])
        return isinstance(d, A.ID) or isinstance(d, A.StructRef)

    def b_memcpy(self, e, args, argn, st, fr):
        dst, src = args[0], args[1]
        v = None
        for l, o in src.ptr:
            if l[0] == "np": v = join(v, self.np_read(e, l, None, st)); continue
            x = self.rd(st, l)
            if x.src is None and l[0] != "l" and not x.ptr and x.const is None: x = x.w(src=l)
            v = join(v, x)
            sub = [k for k in st.m if k[:len(l)] == l and len(k) > len(l) and k[-1] != "<zero>"]
            for k in sub:
                for d, _ in dst.ptr:
                    if d[0] != "np": self.wr(st, d + k[len(l):], st.m[k], False, e)
        v = v if v is not None else UNK
        so = next(iter(src.ptr), (None, E))[1]
        for d, o in dst.ptr:
            if d[0] == "np":
                t = self.typeof(strip(argn[1]), fr)
                self.np_write(e, d, v, st, self.ctype(self.elem(t)) if t is not None and self.elem(t) is not None else None)
            else:
                self.emit("store", e, loc=d, value=v, old=st.m.get(d), strong=False, fr=fr, op="memcpy")
                self.wr(st, d, v, self.singular(st, d), e)
        return UNK

    b_memmove = b_memcpy

    def b_free(self, e, args, argn, st, fr): return UNK

    def fdeps(self, args):
        d = E; c = E
        for a in args: d = d | a.deps; c = c | a.ctl
        return d, c

    def b_sqrt(self, e, args, argn, st, fr):
        d, c = self.fdeps(args)
        return CV(deps=d, ctl=c, unit=u_pow(args[0].unit, Fraction(1, 2)))
    b_sqrtf = b_sqrt

    def b_fabs(self, e, args, argn, st, fr): return args[0].w(src=None, const=None)
    b_fabsf = b_fabs

    def b_fmax(self, e, args, argn, st, fr):
        self.meet("max", e, args[0], args[1]); return join(args[0], args[1]).w(src=None, const=None)
    b_fmin = b_fmaxf = b_fminf = b_fmax

    def b_pow(self, e, args, argn, st, fr):
        d, c = self.fdeps(args)
        p = args[1].const if isinstance(args[1].const, (int, float)) else None
        for a, n in ((args[0], "base"), (args[1], "exponent")):
            if a.unit not in (U_TOP, U_POLY, NODIM) and (n == "exponent" or p is None): self.emit("dimless", e, arg=n, v=a)
        return CV(deps=d, ctl=c, unit=u_pow(args[0].unit, p) if p is not None else (args[0].unit if args[0].unit in (NODIM, U_POLY) else U_TOP))
    b_powf = b_pow

    def b_isnan(self, e, args, argn, st, fr):
        d, c = self.fdeps(args); return CV(deps=d, ctl=c, unit=U_POLY, kind="poly")
    b_isfinite = b_isinf = b_isnan

    def b_qsort(self, e, args, argn, st, fr): return UNK

    def b_PyArray_DIMS(self, e, args, argn, st, fr):
        for r in self.arrs(args[0]): return CV(ptr=frozenset({(("dims", r, "[]"), E)}))
        return UNK
    b_PyArray_SHAPE = b_PyArray_DIMS

    def b_PyArray_TYPE(self, e, args, argn, st, fr):
        return CV(src=("type", tuple(self.arrs(args[0]))), unit=U_POLY)
    b_PyArray_DESCR = b_PyArray_TYPE

    def b_strcmp(self, e, args, argn, st, fr):
        self.emit("strcmp", e, args=args)
        d, c = self.fdeps(args); return CV(deps=d, ctl=c, unit=U_POLY, kind="poly")
    b_strncmp = b_strcasecmp = b_strcmp

    def b_PyArray_DIM(self, e, args, argn, st, fr):
        for r in self.arrs(args[0]):
            ax = (self.nparr.get(r) or {}).get("axes")
            if ax and isinstance(args[1].const, int) and args[1].const < len(ax): return CV(kind=("L", (ax[args[1].const],)), unit=U_POLY, deps=frozenset({"shape"}))
        return CV(unit=U_POLY)

    def arrs(self, v): return sorted({l[1] for l, _ in v.ptr if l[0] == "arr"}, key=str)

    def getptr(self, e, args, argn, st, fr, n):
        out = set()
        for r in self.arrs(args[0]): out.add((("np", r, tuple(args[1:1 + n])), E))
        self.emit("getptr", e, arrs=self.arrs(args[0]), n=n, idx=args[1:1 + n])
        return CV(ptr=frozenset(out))

    def b_PyArray_GETPTR1(self, e, a, an, st, fr): return self.getptr(e, a, an, st, fr, 1)
    def b_PyArray_GETPTR2(self, e, a, an, st, fr): return self.getptr(e, a, an, st, fr, 2)
    def b_PyArray_GETPTR3(self, e, a, an, st, fr): return self.getptr(e, a, an, st, fr, 3)
    def b_PyArray_GETPTR4(self, e, a, an, st, fr): return self.getptr(e, a, an, st, fr, 4)

    def newarr(self, e, args, argn, st, fr):
        nd = args[0].const
        axes = None
        if isinstance(nd, int):
            axes = []
            for i in range(nd):
                v = UNK
                for l, _ in args[1].ptr: v = self.rd(st, l[:-1] + (f"[{i}]",))
                axes.append(v.kind[1][0] if isinstance(v.kind, tuple) and v.kind[0] == "L" and len(v.kind[1]) == 1 else None)
        key = ("made", f"{self.path()}:{getattr(e.coord, 'line', 0)}")
        tn = show(argn[2]) if len(argn) > 2 else None
        self.nparr[key] = {"made": True, "axes": tuple(axes) if axes else None, "nd": nd, "npy": tn, "node": e, "zeros": callname(e) in ("PyArray_ZEROS", "PyArray_SimpleNew_zeros"), "where": self.where(e)}
        self.emit("newarr", e, arr=key, info=self.nparr[key])
        return CV(ptr=frozenset({(("arr", key), E)}))
    b_PyArray_ZEROS = b_PyArray_EMPTY = newarr

    def b_PyArray_SimpleNew(self, e, args, argn, st, fr): return self.newarr(e, args, argn, st, fr)

    def b_PyObject_GetAttrString(self, e, args, argn, st, fr):
        a = args[1].const if isinstance(args[1].const, str) else None
        src = {l for l, _ in args[0].ptr if l[0] == "pyarg"}
        self.emit("getattr", e, name=a, obj=args[0])
        if a is None: return UNK
        return self.pyobj(f"attr:{a}")

    def pyobj(self, root):
        info = self.inputs.get(root)
        self.nparr.setdefault(root, {"root": root, **(info or {})})
        return CV(ptr=frozenset({(("arr", root), E)}), deps=E, src=("in", root))

    def number(self, v, fn, e):
        for r in self.arrs(v):
            info = self.inputs.get(r) or {}
            self.emit("number", e, root=r, fn=fn)
            return CV(deps=frozenset({r}), unit=info.get("unit", U_POLY), kind=info.get("kind"), src=("in", r), bits=frozenset({r}) if "flag" in r else E, keep=frozenset({r}))
        return UNK

    def b_PyLong_AsLong(self, e, a, an, st, fr): return self.number(a[0], "int", e)
    b_PyLong_AsUnsignedLong = b_PyLong_AsLongLong = b_PyLong_AsUnsignedLongMask = b_PyLong_AsSize_t = b_PyLong_AsSsize_t = b_PyLong_AsLong
    def b_PyFloat_AsDouble(self, e, a, an, st, fr): return self.number(a[0], "float", e)
    def b_PyObject_IsTrue(self, e, a, an, st, fr): return self.number(a[0], "bool", e)

    def b_PyArg_ParseTuple(self, e, args, argn, st, fr):
        fmt = args[1].const if isinstance(args[1].const, str) else ""
        codes = [c for c in fmt.split(":")[0].split(";")[0] if c.isalpha()]
        for i, (c, t) in enumerate(zip(codes, argn[2:])):
            root = f"arg:{i}"
            v = self.ev(t, st, fr)
            val = self.pyobj(root) if c == "O" else CV(deps=frozenset({root}), unit=U_POLY, kind="poly" if c != "s" else None, src=("in", root))
            self.emit("parsed", e, i=i, code=c, target=v, fmt=fmt)
            for l, _ in v.ptr: self.wr(st, l, val, True, e)
        return CV(const=None, unit=U_POLY)

    def b_Py_BuildValue(self, e, args, argn, st, fr):
        fmt = args[0].const if isinstance(args[0].const, str) else ""
        self.emit("build", e, fmt=fmt, args=args[1:], st=st)
        key = ("built", f"{self.path()}:{getattr(e.coord, 'line', 0)}")
        return CV(ptr=frozenset({(("pyo", key), E)}))

    # ---------------------------------------------------------------- statements
    def block(self, node, st, fr):
        for x in node.block_items or []:
            if not st.live and not self.haslabel(x): continue
            self.stmt(x, st, fr)

    def haslabel(self, x):
        if isinstance(x, A.Label): return True
        return any(self.haslabel(c) for _, c in x.children())

    def assign_state(self, st, n):
        st.m = n.m; st.live = n.live; st.pc = n.pc; st.alloc = n.alloc; st.must = n.must; st.facts = n.facts

    def stmt(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None: return m(s, st, fr)
        self.ev(s, st, fr)

    def s_Compound(self, s, st, fr): self.block(s, st, fr)

    def s_DeclList(self, s, st, fr):
        for d in s.decls: self.s_Decl(d, st, fr)

    def s_Decl(self, s, st, fr):
        if isinstance(s.type, A.FuncDecl) or s.name is None: return
        fr["types"][s.name] = s.type
        loc = ("l", fr["id"], s.name)
        for k in [k for k in st.m if k[:3] == loc]: del st.m[k]
        if isinstance(self.base(s.type), A.ArrayDecl): st.m[loc + ("#arr",)] = ZERO
        if s.init is not None:
            if isinstance(s.init, A.InitList): self.zero(st, loc)
            else:
                v = self.ev(s.init, st, fr)
                self.emit("store", s, loc=loc, value=v, old=None, strong=True, fr=fr, op="=")
                self.wr(st, loc, v, True, s)

    def s_Return(self, s, st, fr):
        v = self.ev(s.expr, st, fr) if s.expr is not None else UNK
        v = v.w(ctl=v.ctl | st.pc)
        fr["rets"].append((v, st.copy()))
        st.live = False

    def s_Goto(self, s, st, fr):
        fr["labels"].setdefault(s.name, []).append(st.copy())
        st.live = False

    def s_Label(self, s, st, fr):
        acc = st.copy() if st.live else None
        pend = fr["labels"].pop(s.name, [])
        rv = fr.get("retvar")
        if rv and self.success:
            loc = ("l", fr["id"], rv)
            sts = ([acc] if acc is not None else []) + pend
            good = [x for x in sts if (x.m.get(loc) or UNK).const == 0]
            bad = [x for x in sts if isinstance((x.m.get(loc) or UNK).const, (int, float)) and (x.m.get(loc) or UNK).const != 0]
            if good and bad:
                pend = [x for x in sts if x not in bad]; acc = None
                for x in pend:
                    v = x.m.get(loc)
                    if v is not None: x.m[loc] = v.w(const=None, zero=False)
        for p in pend: acc = jstate(acc, p)
        if acc is None: st.live = False; return
        self.assign_state(st, acc)
        self.stmt(s.stmt, st, fr)

    def s_EmptyStatement(self, s, st, fr): pass
    def s_Pragma(self, s, st, fr): pass

    def s_Break(self, s, st, fr):
        if fr["loops"]: fr["loops"][-1]["break"].append(st.copy())
        st.live = False

    def s_Continue(self, s, st, fr):
        if fr["loops"]: fr["loops"][-1]["cont"].append(st.copy())
        st.live = False

    def s_If(self, s, st, fr):
        c = self.ev(s.cond, st, fr)
        self.emit("if", s, cond=s.cond, v=c, st=st, fr=fr)
        pc = st.pc
        a, b = st.copy(), st.copy()
        a.pc = b.pc = pc | c.deps | c.ctl
        k = c.const if isinstance(c.const, (int, float)) else None
        if k is not None and not k: a.live = False
        if k is not None and k: b.live = False
        self.refine(s.cond, True, a, fr); self.refine(s.cond, False, b, fr)
        if a.live or self.haslabel(s.iftrue): self.stmt(s.iftrue, a, fr)
        if s.iffalse is not None and (b.live or self.haslabel(s.iffalse)): self.stmt(s.iffalse, b, fr)
        if a.live and b.live: n = jstate(a, b); n.pc = pc
        elif a.live: n = a; n.pc = pc if k is not None else a.pc
        elif b.live: n = b; n.pc = pc if k is not None else b.pc
        else: st.live = False; return
        # control that only remains because the other side left the function on an error stays out of the way
        if not (a.live and b.live) and k is None: n.pc = pc
        self.assign_state(st, n)

    def refine(self, cond, val, st, fr):
        cond = strip(cond)
        if isinstance(cond, A.UnaryOp) and cond.op == "!": return self.refine(cond.expr, not val, st, fr)
        if isinstance(cond, A.BinaryOp) and cond.op == "&&" and val: self.refine(cond.left, True, st, fr); return self.refine(cond.right, True, st, fr)
        if isinstance(cond, A.BinaryOp) and cond.op == "||" and not val: self.refine(cond.left, False, st, fr); return self.refine(cond.right, False, st, fr)
        if isinstance(cond, A.FuncCall) and callname(cond) in ("isnan", "isnanf", "__isnan") and val: self.nodim(strip(cond.args.exprs[0]), st, fr)
        if isinstance(cond, A.BinaryOp) and cond.op in ("<", "<=", ">", ">=", "!=", "=="):
            l, r = cond.left, cond.right
            zop = {("<=", True), (">", False), ("==", True), ("!=", False)}
            z = lambda x: isinstance(strip(x), A.Constant) and self.ev(strip(x), st, fr).zero
            if z(r) and (cond.op, val) in zop: self.nodim(strip(l), st, fr)
            if z(l) and ({"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(cond.op, cond.op), val) in zop: self.nodim(strip(r), st, fr)
            op = cond.op if val else {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "!=": "==", "==": "!="}[cond.op]
            for x, y, o in ((l, r, op), (r, l, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                x = strip(x)
                if isinstance(x, A.ID) and x.name in fr["types"] and o in ("<", "<=", "!="):
                    s2 = st.copy()
                    xv = self.rd(st, ("l", fr["id"], x.name)); yv = self.ev(y, s2, fr)
                    if isinstance(yv.kind, tuple) and yv.kind[0] == "L" and len(yv.kind[1]) == 1 and xv.kind == "poly" and not xv.ptr:
                        st.m[("l", fr["id"], x.name)] = xv.w(kind=("T", frozenset({(yv.kind[1][0], ())})), const=None, zero=False)
                    elif yv.kind is not None and isinstance(yv.kind, tuple) and yv.kind[0] == "T" and xv.kind == "poly" and len(yv.kind[1]) == 1 and not xv.ptr:
                        st.m[("l", fr["id"], x.name)] = xv.w(kind=yv.kind, const=None, zero=False)

    def nodim(self, x, st, fr):
        """x is known to be zero (a sum of non-negative terms that is not positive) or NaN: it fits any dimension"""
        if not isinstance(x, (A.ID, A.StructRef)): return
        s2 = st.copy()
        for l, _ in self.lv(x, s2, fr):
            v = st.m.get(l)
            if v is not None and not v.ptr: st.m[l] = v.w(unit=U_POLY)

    def loop(self, s, init, cond, nxt, body, st, fr, dowhile=False):
        pc = st.pc
        if init is not None: self.stmt(init, st, fr)
        entry = st.copy()
        head = st.copy()
        exits = []
        fr["loops"].append({"break": [], "cont": []})
        for it in range(4):
            cur = head.copy()
            if cond is not None and not (dowhile and it == 0):
                c = self.ev(cond, cur, fr)
                ex = cur.copy()
                self.refine(cond, False, ex, fr)
                k = c.const if isinstance(c.const, (int, float)) else None
                exits.append(ex)
                if k is not None and not k and it == 0:
                    break
                cur.pc = pc | c.deps | c.ctl
                self.refine(cond, True, cur, fr)
            cur.must = E
            self.emit("loopbody", s, st=cur, fr=fr, it=it)
            self.stmt(body, cur, fr)
            L = fr["loops"][-1]
            acc = cur if cur.live else None
            for x in L["cont"]: acc = jstate(acc, x)
            L["cont"] = []
            if acc is None: break
            acc = acc.copy()
            if nxt is not None: self.ev(nxt, acc, fr)
            self.emit("backedge", s, st=acc, entry=entry, fr=fr)
            acc.pc = pc
            new = jstate(head.copy(), acc)
            new.must = entry.must; new.pc = pc
            if new.m == head.m and it > 0:
                if cond is not None:
                    e2 = new.copy(); self.ev(cond, e2, fr); self.refine(cond, False, e2, fr); exits.append(e2)
                break
            head = new
        else:
            if cond is not None:
                e2 = head.copy(); self.ev(cond, e2, fr); self.refine(cond, False, e2, fr); exits.append(e2)
        L = fr["loops"].pop()
        out = None
        for x in exits[-1:] + L["break"]:
            out = jstate(out, x)
        if out is None: st.live = False; return
        out.pc = pc; out.must = entry.must | out.must
        self.assign_state(st, out)

    def s_For(self, s, st, fr): self.loop(s, s.init, s.cond, s.next, s.stmt, st, fr)
    def s_While(self, s, st, fr): self.loop(s, None, s.cond, None, s.stmt, st, fr)
    def s_DoWhile(self, s, st, fr): self.loop(s, None, s.cond, None, s.stmt, st, fr, dowhile=True)

    def s_Switch(self, s, st, fr):
        c = self.ev(s.cond, st, fr)
        pc = st.pc
        fr["loops"].append({"break": [], "cont": []})
        cur = None; base = st.copy(); base.pc = pc | c.deps | c.ctl
        items = s.stmt.block_items or [] if isinstance(s.stmt, A.Compound) else [s.stmt]
        default = False
        cur = State(live=False)
        for x in items:
            if isinstance(x, (A.Case, A.Default)):
                default = default or isinstance(x, A.Default)
                cur = jstate(cur if cur.live else None, base.copy()) or base.copy()
                for y in x.stmts or []:
                    if cur.live: self.stmt(y, cur, fr)
            elif cur.live: self.stmt(x, cur, fr)
        L = fr["loops"].pop()
        out = cur if cur.live else None
        for x in L["break"]: out = jstate(out, x)
        if not default: out = jstate(out, base.copy())
        for x in L["cont"]:
            if fr["loops"]: fr["loops"][-1]["cont"].append(x)
        if out is None: st.live = False; return
        out.pc = pc
        self.assign_state(st, out)

    # ---------------------------------------------------------------- entry
    def run(self, entry):
        if entry not in self.u.funcs: raise AnalysisBroken(f"{entry}: not found in the C source")
        self.nparr = {}
        st = State()
        fr = {"id": 0, "types": {}, "labels": {}, "rets": [], "name": "<driver>", "loops": []}
        fd = self.u.funcs[entry]
        args = [CV(ptr=frozenset({(("pyarg", p), E)})) for p in params(fd)]
        v = self.call(fd, entry, args, [], st, fr)
        return v, st


_rd = CInterp.rd
_lv = CInterp.lv


def lv(self, e, st, fr):
    e2 = strip(e)
    if isinstance(e2, A.ArrayRef):
        out = _lv(self, e, st, fr)
        iv = self.ev(e2.subscript, st, fr)
        return [(l[:2] + (iv.const,) if l[0] == "dims" else l, o) for l, o in out]
    return _lv(self, e, st, fr)


CInterp.lv = lv


def rd3(self, st, loc):
    if loc and loc[0] == "dims":
        ax = (self.nparr.get(loc[1]) or {}).get("axes")
        i = loc[2]
        if ax and isinstance(i, int) and i < len(ax): return CV(unit=U_POLY, kind=("L", (ax[i],)), deps=frozenset({"shape"}))
        return CV(unit=U_POLY, deps=frozenset({"shape"}))
    return _rd(self, st, loc)


CInterp.rd = rd3


def entry_of(u):
    """the C function behind the module's Python-level name: first METH table entry"""
    for name, g in u.globals.items():
        if g.init is not None and "PyMethodDef" in show(g):
            for x in g.init.exprs:
                if isinstance(x, A.InitList) and len(x.exprs) >= 2:
                    f = strip(x.exprs[1])
                    if isinstance(f, A.ID) and f.name in u.funcs: return f.name, x.exprs[0].value.strip('"')
    raise AnalysisBroken("no method table in the C extension")
