"""Abstract values."""
from fractions import Fraction

E = frozenset()
U_POLY = "poly"      # literal number: fits any dimension
U_TOP = "top"        # unknown
NODIM = frozenset()


def unit(**kw):
    return frozenset((k, Fraction(v)) for k, v in kw.items() if v)


def u_mul(a, b, sign=1):
    if a == U_TOP or b == U_TOP:
        return U_TOP
    if a == U_POLY and b == U_POLY:
        return U_POLY
    a = NODIM if a == U_POLY else a
    b = NODIM if b == U_POLY else b
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + sign * e
    return frozenset((k, e) for k, e in d.items() if e)


def u_pow(a, p):
    if a in (U_TOP, U_POLY):
        return a
    if a == NODIM:
        return a
    if p is None:
        return U_TOP
    return frozenset((k, e * Fraction(p).limit_denominator(12)) for k, e in a)


def u_join(a, b):
    if a == b:
        return a
    if a == U_POLY:
        return b
    if b == U_POLY:
        return a
    return U_TOP


def u_str(u):
    if isinstance(u, str):
        return u
    if not u:
        return "1"
    return "*".join(f"{k}^{e}" if e != 1 else k for k, e in sorted(u))


DEFS = {}       # structured symbols: name -> (operator, argument polynomials)


def struct(op, *args):
    """the symbol standing for op(args)"""
    if op in ("min", "max"):
        flat = []
        for a in args:
            d = DEFS.get(a.only()) if a.only() else None
            flat += list(d[1]) if d and d[0] == op else [a]
        args = tuple(sorted(set(flat), key=repr))
        if len(args) == 1: return args[0]
        vals = [a.value() for a in args]
        if all(v is not None for v in vals): return Lin.const(min(vals) if op == "min" else max(vals))
    if op == "//":
        a, b = args
        if a.t and all(c < 0 for _, c in a.t): return -struct("ceil", -a, b)
        if b.only() and a.d().get((b.only(),), 0) >= 1 and a.d().get((), 0) == -1: return struct("ceil", a - b + Lin.const(1), b)
    n = f"{op}({','.join(map(repr, args))})"
    DEFS[n] = (op, tuple(args))
    return Lin.sym(n)


class Lin:
    """polynomial with rational coefficients over opaque symbols"""
    __slots__ = ("t", "_h")

    def __init__(self, terms):
        self.t = frozenset((m, c) for m, c in terms.items() if c)
        self._h = hash(self.t)

    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Lin) and self.t == o.t

    @staticmethod
    def const(c): return Lin({(): Fraction(c)})
    @staticmethod
    def sym(s): return Lin({(s,): Fraction(1)})

    def d(self): return dict(self.t)

    def __add__(self, o):
        d = self.d()
        for m, c in o.t: d[m] = d.get(m, 0) + c
        return Lin(d)

    def __neg__(self): return Lin({m: -c for m, c in self.t})
    def __sub__(self, o): return self + (-o)

    def __mul__(self, o):
        d = {}
        for m, c in self.t:
            for n, e in o.t:
                k = tuple(sorted(m + n))
                d[k] = d.get(k, 0) + c * e
        return Lin(d)

    def is_const(self): return all(m == () for m, _ in self.t)

    def value(self):
        return self.d().get((), Fraction(0)) if self.is_const() else None

    def symbols(self): return {s for m, _ in self.t for s in m}

    def only(self):
        """the symbol this polynomial is, if it is a single symbol"""
        if len(self.t) != 1: return None
        (m, c), = self.t
        return m[0] if len(m) == 1 and c == 1 else None

    def subst(self, s, lin):
        r = Lin({})
        for m, c in self.t:
            term = Lin({(): c})
            for x in m:
                if x == s: y = lin
                elif x in DEFS and s in x:
                    op, args = DEFS[x]
                    y = struct(op, *[a.subst(s, lin) for a in args])
                else: y = Lin.sym(x)
                term = term * y
            r = r + term
        return r

    def __repr__(self):
        if not self.t: return "0"
        out = []
        for m, c in sorted(self.t, key=lambda x: (len(x[0]), x[0])):
            cs = str(c)
            out.append(cs if not m else ("" if c == 1 else ("-" if c == -1 else cs + "*")) + "*".join(m))
        return " + ".join(out).replace("+ -", "- ")


_FIELDS = ("refs", "consts", "unk", "deps", "ctl", "sym", "unit", "ax", "bits", "keep", "tags")


class V:
    __slots__ = _FIELDS + ("_h",)

    def __init__(self, refs=E, consts=E, unk=False, deps=E, ctl=E, sym=None, unit=U_POLY, ax=None,
                 bits=None, keep=None, tags=E):
        self.refs = refs; self.consts = consts; self.unk = unk; self.deps = deps; self.ctl = ctl
        self.sym = sym; self.unit = unit; self.ax = ax; self.bits = bits; self.keep = keep; self.tags = tags
        self._h = hash((refs, consts, unk, deps, ctl, sym, unit, ax, bits, keep, tags))

    def __hash__(self): return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, V) and self._h == o._h and
                             all(getattr(self, f) == getattr(o, f) for f in _FIELDS))

    def w(self, **kw):
        d = {f: getattr(self, f) for f in _FIELDS}
        d.update(kw)
        return V(**d)

    @property
    def is_bottom(self):
        return not self.refs and not self.consts and not self.unk

    def may_none(self): return ("NoneType", None) in self.consts
    def only_none(self): return self.may_none() and len(self.consts) == 1 and not self.refs and not self.unk

    def single_const(self):
        """the python constant if the value is exactly one constant, else raises KeyError"""
        if not self.refs and not self.unk and len(self.consts) == 1:
            return next(iter(self.consts))[1]
        raise KeyError

    def scalar_numbers(self):
        return [c for t, c in self.consts if t in ("int", "float", "bool")]

    def __repr__(self):
        p = []
        if self.refs: p.append("refs=" + ",".join(sorted(map(str, self.refs))))
        if self.consts: p.append("c=" + ",".join(sorted(repr(c) for _, c in self.consts)))
        if self.unk: p.append("unk")
        if self.deps: p.append("deps=" + ",".join(sorted(self.deps)))
        if self.ctl: p.append("ctl=" + ",".join(sorted(self.ctl)))
        if self.sym is not None: p.append(f"sym={self.sym}")
        if self.unit != U_POLY: p.append("u=" + u_str(self.unit))
        if self.ax: p.append(f"ax={self.ax}")
        if self.bits is not None: p.append("bits=" + ",".join(sorted(self.bits)))
        if self.keep is not None: p.append("keep=" + ",".join(sorted(self.keep)))
        if self.tags: p.append("tags=" + ",".join(sorted(map(str, self.tags))))
        return "V(" + "; ".join(p) + ")"


BOT = V()


def const(c, **kw):
    t = type(c).__name__
    sym = Lin.const(c) if t == "int" or (t == "float" and c - c == 0) else None
    bits = kw.pop("bits", None)
    try:
        hash(c)
    except TypeError:
        return V(unk=True)
    if t == "float" and c != c:
        kw.setdefault("tags", frozenset(["nan"]))
    return V(consts=frozenset([(t, c)]), sym=kw.pop("sym", sym), bits=bits, **kw)


NONE = const(None)
UNK = V(unk=True, unit=U_TOP)


def join_bits(a, b):
    if a is None: return b
    if b is None: return a
    return a | b


def join_keep(a, b):
    """must-set; None = not yet anything (universe)"""
    if a is None: return b
    if b is None: return a
    if "*" in a: return b       # a buffer nothing was stored in yet
    if "*" in b: return a
    return a & b


def join(a, b):
    if a is b or a == b: return a
    if a is None: return b
    if b is None: return a
    if a.is_bottom: return b.w(deps=a.deps | b.deps, ctl=a.ctl | b.ctl) if (a.deps or a.ctl) else b
    if b.is_bottom: return a.w(deps=a.deps | b.deps, ctl=a.ctl | b.ctl) if (b.deps or b.ctl) else a
    consts = a.consts | b.consts
    unk = a.unk or b.unk
    if len(consts) > 12:
        consts = frozenset(c for c in consts if c[0] in ("NoneType", "bool", "str"))
        unk = True
    an = a.only_none(); bn = b.only_none()
    if an and not bn: sym, un, ax = b.sym, b.unit, b.ax
    elif bn and not an: sym, un, ax = a.sym, a.unit, a.ax
    else:
        sym = a.sym if a.sym == b.sym else None
        un = u_join(a.unit, b.unit)
        ax = a.ax if a.ax == b.ax else None
        if ax is None and (a.ax is None) != (b.ax is None):
            x, y = (a, b) if a.ax else (b, a)
            if not y.unk and not y.refs and y.consts and all(t in ("int", "float") for t, _ in y.consts): ax = ("lim" if x.ax[0] == "len" else x.ax[0], x.ax[1])   # a plain number is a position on any axis
    tags = a.tags | b.tags
    odd = a.tags ^ b.tags
    if odd:
        # what a mask or weight has looked at must hold on both sides; a plain constant says nothing yet
        lost = frozenset(t for t in odd if t.startswith(("excl:", "test:")) and (told(b) if t in a.tags else told(a)))
        if lost: tags = tags - lost
    return V(a.refs | b.refs, consts, unk, a.deps | b.deps, a.ctl | b.ctl, sym, un, ax,
             join_bits(a.bits, b.bits), join_keep(mustkeep(a), mustkeep(b)), tags)


def told(v):
    return v.unk or not v.consts and not v.refs


def mustkeep(v):
    """a value of unknown provenance (a number, say) preserves no DQ word; references and None say nothing"""
    if v.keep is None and (v.unk or any(t != "NoneType" for t, _ in v.consts)): return E
    return v.keep


def joinall(vs):
    r = BOT
    for v in vs: r = join(r, v)
    return r


class Obj:
    """heap object; immutable, replaced on update"""
    __slots__ = ("id", "kind", "d", "_h")

    def __init__(__s, id_, kind_, /, **d):
        __s.id = id_; __s.kind = kind_; __s.d = d

    def get(self, k, default=None): return self.d.get(k, default)

    def w(__s, /, **kw):
        d = dict(__s.d); d.update(kw)
        return Obj(__s.id, __s.kind, **d)

    def __eq__(self, o):
        return self is o or (isinstance(o, Obj) and self.id == o.id and self.kind == o.kind and self.d == o.d)

    def __hash__(self): return hash(self.id)
    def __repr__(self): return f"<{self.kind} {self.id} {self.d}>"


def join_maybe(a, b):
    """join where None means the slot is absent on that side"""
    if a is None: return b
    if b is None: return a
    return join(a, b)


def join_dict(a, b):
    if a is b: return a
    r = dict(a)
    for k, v in b.items():
        o = r.get(k)
        r[k] = v if o is None else (o if o is v else join(o, v))
    return r


def join_obj(a, b):
    if a is b: return a
    if a.d == b.d and a.kind == b.kind: return a
    if a.kind != b.kind:
        kind = "opaque"
    else:
        kind = a.kind
    d = {}
    for k in set(a.d) | set(b.d):
        x, y = a.d.get(k), b.d.get(k)
        if x is y or x == y: d[k] = x; continue
        if k in ("attrs", "items"):
            if isinstance(x, dict) or isinstance(y, dict):
                d[k] = join_dict(x or {}, y or {})
            elif x is None or y is None or len(x) != len(y):
                # sequence lengths differ: summarise
                d[k] = None
                d["rest"] = joinall(list(x or []) + list(y or []) +
                                    [v for v in (a.d.get("rest"), b.d.get("rest")) if v is not None])
            else:
                d[k] = [join(p, q) for p, q in zip(x, y)]
        elif isinstance(x, V) or isinstance(y, V):
            if k == "rest" and "rest" in d and d.get("items", 0) is None: continue
            d[k] = join_maybe(x, y)
        elif k == "axes":
            d[k] = join_axes(x, y)
        elif k in ("summary", "written", "maybe_scalar"):
            d[k] = bool(x) or bool(y)
        elif isinstance(x, frozenset) and isinstance(y, frozenset):
            d[k] = x | y
        else:
            d[k] = None
    return Obj(a.id, kind, **d)


def join_axes(x, y):
    if x is None or y is None: return None
    if len(x) != len(y): return None
    return tuple(p if p == q else (q if p == "1" else p if q == "1" else "?") for p, q in zip(x, y))
