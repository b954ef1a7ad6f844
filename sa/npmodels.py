"""Models of numpy, the standard library and other external callables."""
import zlib
import ast
from .values import *
from . import axes as A
from . import pixel

OPN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@",
       ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

NP = "numpy."
UF_BIN = {"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div, "true_divide": ast.Div,
          "floor_divide": ast.FloorDiv, "mod": ast.Mod, "remainder": ast.Mod, "power": ast.Pow,
          "bitwise_or": ast.BitOr, "bitwise_and": ast.BitAnd, "bitwise_xor": ast.BitXor,
          "logical_or": ast.BitOr, "logical_and": ast.BitAnd, "logical_xor": ast.BitXor,
          "left_shift": ast.LShift, "right_shift": ast.RShift}
UF_CMP = {"greater": ast.Gt, "greater_equal": ast.GtE, "less": ast.Lt, "less_equal": ast.LtE, "equal": ast.Eq,
          "not_equal": ast.NotEq}
UF_MINMAX = {"maximum", "minimum", "fmax", "fmin"}
UF_SAME = {"abs", "absolute", "fabs", "negative", "positive", "round", "around", "rint", "floor", "ceil", "trunc",
           "real", "conjugate", "clip", "sort", "unique", "flip", "fliplr", "flipud", "roll", "pad", "cumsum",
           "nancumsum", "tile", "repeat", "interp", "convolve", "gradient", "asfortranarray", "float32", "float64",
           "float128", "longdouble", "float16", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "intp", "int_", "float_",
           "bool_", "array", "asarray_copy", "nan_to_num", "ascontiguousarray_copy"}
BOOLF = {"isnan", "isfinite", "isinf", "logical_not", "signbit", "isin", "in1d", "isclose", "iscomplex", "isreal"}
REDUCE = {"sum", "nansum", "mean", "nanmean", "median", "nanmedian", "std", "nanstd", "var", "nanvar", "min", "amin",
          "nanmin", "max", "amax", "nanmax", "prod", "nanprod", "any", "all", "count_nonzero", "argmin", "argmax",
          "nanargmin", "nanargmax", "percentile", "nanpercentile", "quantile", "nanquantile", "ptp", "average",
          "trapz", "trapezoid", "logical_and.reduce", "logical_or.reduce", "bitwise_or.reduce", "bitwise_and.reduce",
          "add.reduce", "maximum.reduce", "minimum.reduce"}
NAN_SAFE = {"nansum", "nanmean", "nanmedian", "nanstd", "nanvar", "nanmin", "nanmax", "nanprod", "nanargmin",
            "nanargmax", "nanpercentile", "nanquantile", "any", "all", "count_nonzero", "logical_and.reduce",
            "logical_or.reduce", "bitwise_or.reduce", "bitwise_and.reduce"}
VIEWF = {"asarray", "asanyarray", "ascontiguousarray", "ravel", "reshape", "squeeze", "transpose", "swapaxes", "moveaxis",
         "broadcast_to", "atleast_1d", "atleast_2d", "atleast_3d", "expand_dims", "rollaxis", "require", "rot90",
         "array_split", "split", "diagonal", "lib.stride_tricks.sliding_window_view", "lib.stride_tricks.as_strided"}
MUTATORS = {"copyto": 0, "putmask": 0, "put": 0, "place": 0, "fill_diagonal": 0, "put_along_axis": 0,
            "add.at": 0, "subtract.at": 0, "bitwise_or.at": 0, "multiply.at": 0, "maximum.at": 0, "minimum.at": 0,
            "logical_or.at": 0, "bitwise_and.at": 0, "random.shuffle": 0}
# external callables that write into one of their array arguments (position or keyword)
EXT_MUTATORS = {"cv2.circle": [0], "cv2.ellipse": [0], "cv2.fillPoly": [0], "cv2.line": [0], "cv2.rectangle": [0],
                "drizzle.resample.blot_image": ["out_img"], "drizzle.cdrizzle.tdriz": ["output", "counts", "context"],
                "drizzle.cdrizzle.tblot": ["output"]}
TRIG = {"sin", "cos", "tan"}
ATRIG = {"arcsin", "arccos", "arctan", "arctan2"}
ARR_METHODS = {"copy", "astype", "sum", "mean", "std", "var", "min", "max", "any", "all", "prod", "reshape", "flatten",
               "ravel", "transpose", "view", "byteswap", "newbyteorder", "tolist", "item", "fill", "sort", "argsort",
               "dot", "squeeze", "nonzero", "cumsum", "clip", "round", "tofile", "put", "swapaxes", "argmax", "argmin",
               "repeat", "take", "setflags", "resize", "partition", "tobytes", "conj", "itemset", "setfield", "diagonal", "trace", "ptp",
               "__array__"}
DICTISH = {"get", "keys", "items", "values", "pop", "update", "setdefault"}
ANG = {"deg": unit(deg=1), "rad": unit(rad=1)}


def carr(v):  # constant-free content
    return v


def tagof(ident):
    """short stable tag of an object's identity (two bases at one site give two views)"""
    return "%08x" % (zlib.crc32(ident.encode()) & 0xffffffff)


def untested(tags):
    """tags of unexcluded samples that a mask looking at these flags settles"""
    fs = {t[5:] for t in tags if t.startswith(("test:", "excl:"))}
    if "*" in fs: fs |= {"SATURATED", "DO_NOT_USE"}
    return frozenset(k + f for f in fs for k in ("raw:", "coef:"))


FRESH = frozenset(["*"])     # DQ words of a buffer nothing was stored in yet


def masks_of(fn, tags):
    """what a reduced mask still says: an 'any' covers every NaN of each part, an 'all' holds for finite samples only"""
    keep = "isnan:" if fn in ("any", "max", "logical_or.reduce", "bitwise_or.reduce") else "isfinite:" if fn in ("all", "min", "logical_and.reduce", "bitwise_and.reduce") else "-"
    return frozenset(t for t in tags if not t.startswith(("isnan:", "isfinite:")) or t.startswith(keep))


def grown(o, node):
    """the length of a list after it was changed here"""
    return Lin.sym(f"len:{o.id}@{getattr(node, 'lineno', 0)}")


def quot(fn, sym):
    """rounding a quotient gives a whole-number division"""
    d = DEFS.get(sym.only()) if sym is not None and sym.only() else None
    if d is None: return None
    if d[0] == "/" and fn in ("ceil", "floor", "int", "trunc"): return struct("ceil" if fn == "ceil" else "//", *d[1])
    if d[0] in ("//", "ceil") and fn in ("int", "ceil", "floor", "round", "trunc"): return sym
    return None


class Models:
    untested = staticmethod(untested)

    def __init__(self, ip):
        self.ip = ip

    # ---------------------------------------------------------------- helpers
    def arrs(self, st, v):
        return [o for o in self.ip.objs(st, v) if o.kind in ("array", "opaque")]

    def is_arrayish(self, st, v):
        return any(o.kind in ("array", "opaque", "list", "tuple", "gen", "inst", "meth") for o in self.ip.objs(st, v))

    def axes_of(self, st, v):
        """axes tuple; () for scalars; None unknown"""
        r = None; first = True
        for o in self.ip.objs(st, v):
            if o.kind in ("array", "opaque"): a = o.get("axes")
            elif o.kind in ("list", "tuple"):
                a = None
                its = o.get("items")
                el = self.ip.element(st, V(refs=frozenset([o.id])))
                if not el.refs: a = ("?",)
            else: a = None
            if first: r, first = a, False
            else: r = join_axes(r, a)
            if r is None: return None
        if v.unk or v.consts:
            nc = [c for c in v.consts if c[0] != "NoneType"]
            if first: return ()
            if v.unk and any(o.kind == "opaque" for o in self.ip.objs(st, v)):
                return r
            if v.unk or nc: return r
        return r if not first else ()

    def deps(self, st, *vs):
        d = E
        for v in vs:
            if isinstance(v, V): d = d | self.ip.alldeps(st, v)
        return d

    def dtype_name(self, st, v):
        if v is None: return None
        for t, c in v.consts:
            if t == "str": return DT.get(c, c)
        for o in self.ip.objs(st, v):
            if o.kind == "ext":
                n = o.get("name").split(".")[-1]
                return DT.get(n, n)
            if o.kind == "opaque" and o.get("dtypeof"): return o.get("dtypeof")
        return None

    def shape_axes(self, st, shp):
        """axes tuple for a shape argument"""
        if shp is None: return None
        its = None
        for o in self.ip.objs(st, shp):
            if o.kind in ("tuple", "list"):
                if o.get("items") is None: return None
                its = o.get("items") if its is None else None
            else: return None
        if its is None:
            if shp.refs: return None
            its = [shp]
        return tuple(self.len_label(x) for x in its)

    def len_label(self, x):
        if x.ax is not None and x.ax[0] in ("len",): return x.ax[1]
        try:
            c = x.single_const()
            if c == 1: return "1"
        except KeyError: pass
        return "?"

    # ---------------------------------------------------------------- scalars & elementwise
    def scal_binop(self, node, op, a, b, st):
        """element-level semantics of a binary operation"""
        o = OPN[type(op)]
        deps = a.deps | b.deps; ctl = a.ctl | b.ctl
        un = U_TOP; sym = None; ax = None; bits = None; keep = E; tags = a.tags | b.tags
        consts = E; unk = True
        an = [c for t, c in a.consts if t in ("int", "float", "bool")]
        bn = [c for t, c in b.consts if t in ("int", "float", "bool")]
        if not a.unk and not b.unk and not a.refs and not b.refs and len(a.consts) == 1 and len(b.consts) == 1 and an and bn:
            r = fold(o, an[0], bn[0])
            if r is not None:
                consts = frozenset([(type(r).__name__, r)]); unk = False
        elif not a.unk and not b.unk and not a.refs and not b.refs and a.consts and b.consts and len(a.consts) == 1 and len(b.consts) == 1:
            (t1, c1), = a.consts; (t2, c2), = b.consts
            if t1 == t2 == "str" and o == "+": consts = frozenset([("str", c1 + c2)]); unk = False
        if unk and o in ("&", "|"):
            for x in (a, b):
                if x.consts == frozenset([("bool", o == "|")]) and not x.unk and not x.refs:
                    consts = x.consts; unk = False
        if a.sym is not None and b.sym is not None:
            if o == "+": sym = a.sym + b.sym
            elif o == "-": sym = a.sym - b.sym
            elif o == "*": sym = a.sym * b.sym
            elif o in ("//", "%"):
                q = a.sym if b.sym.value() == 1 else struct("//", a.sym, b.sym)
                sym = q if o == "//" else a.sym - b.sym * q
            elif o == "/": sym = a.sym if b.sym.value() == 1 else struct("/", a.sym, b.sym)
        if o in ("+", "-"):
            un = u_join(a.unit, b.unit)
            zero = (an == [0] and not a.unk) or (bn == [0] and not b.unk)
            if un == U_TOP and a.unit != U_TOP and b.unit != U_TOP:
                self.ip.emit("unit_mismatch", node, op=o, a=a, b=b, st=st)
            if a.ax and not b.ax and not b.deps: ax = a.ax if a.ax[0] == "idx" else (a.ax if (o in "+-") else None)
            if a.ax and a.ax[0] in ("len", "lim") and b.consts and not b.unk: ax = ("lim" if self.ip.coords else "idx", a.ax[1])
            if b.ax and not a.ax and o == "+" and not a.deps: ax = b.ax if b.ax[0] == "idx" else ("idx", b.ax[1])
            if a.ax and b.ax:
                if a.ax[1] != b.ax[1] and A.known(a.ax[1]) and A.known(b.ax[1]):
                    self.ip.emit("axis_arith", node, op=o, a=a.ax, b=b.ax, st=st)
                if o == "+" and a.ax == b.ax: ax = a.ax
                if o == "-" and a.ax[0] == "len" and b.ax[0] == "idx" and a.ax[1] == b.ax[1]: ax = ("idx", a.ax[1])
                if self.ip.coords and a.ax[1] == b.ax[1]:
                    if o == "-" and a.ax[0] in ("idx", "len", "lim") and b.ax[0] == "idx": ax = ("ext", a.ax[1])       # a distance along the axis
                    elif {a.ax[0], b.ax[0]} == {"idx", "ext"}: ax = ("idx", a.ax[1])
            elif self.ip.coords and ax is None and (a.ax or b.ax): x = a.ax or b.ax; ax = ("lim" if x[0] == "len" else x[0], x[1])
            bits = join_bits(a.bits, b.bits) if (a.bits or b.bits) else None
            if o == "+" and (a.bits and b.bits): keep = E; tags = tags | {"dqadd"}
            elif o == "-" and a.bits: tags = tags | {"dqsub"}
        elif o in ("*", "@"):
            un = self.conv_mul(node, a, b, st)
            # bool * flag
            bits = join_bits(drop_lit(a.bits), drop_lit(b.bits)) if (a.bits or b.bits) else None
            if a.bits and not flagbits(a.bits) and b.bits is None and not flagbits(b.bits): bits = a.bits
            keep = E
        elif o == "/":
            un = self.conv_div(node, a, b, st)
        elif o == "//":
            un = u_mul(a.unit, b.unit, -1)
        elif o == "%":
            un = a.unit
            if a.unit != U_POLY and b.unit not in (U_POLY, U_TOP) and a.unit != b.unit and a.unit != U_TOP:
                self.ip.emit("unit_mismatch", node, op=o, a=a, b=b, st=st)
            elif an or bn or True:
                self.ip.emit("unit_mod", node, a=a, b=b, st=st)
        elif o == "**":
            p = bn[0] if (not b.unk and len(bn) == 1 and not b.refs) else None
            un = u_pow(a.unit, p)
            if p is None and a.unit == U_POLY: un = U_POLY
        elif o == "|":
            un = U_POLY
            bits = join_bits(a.bits, b.bits)
            for x, y in ((a, b), (b, a)):
                if y.bits and "F:JUMP_DET" in y.bits and all(t.startswith("F:") for t in y.bits) and x.keep:
                    # a jump flag raised without looking at the unusable flags of the same group
                    tags = tags | (frozenset(("rawjump:SATURATED", "rawjump:DO_NOT_USE")) -
                                   frozenset("rawjump:" + t[5:] for t in y.tags if t.startswith("test:")))
            # a flag cleared in one operand is still there if the other holds the same words uncleared
            for x, y in ((a, b), (b, a)):
                if y.keep and (x.keep or E) <= y.keep:
                    tags = tags - frozenset(t for t in x.tags if t.startswith("clear:") and t not in y.tags)
            keep = ((a.keep or E) | (b.keep or E)) - FRESH
            if keep: tags = frozenset(t for t in tags if not t.startswith("test:"))     # a word is no mask
            both = a.tags & b.tags      # a mask of finite samples only is none once it is widened
            tags = frozenset(t for t in tags if not t.startswith("isfinite:") or t in both)
        elif o == "&":
            un = U_POLY
            bits, keep, tags = self.band(node, a, b, st, tags)
            # a mask covering every NaN of something no longer does once it is narrowed
            both = a.tags & b.tags
            tags = frozenset(t for t in tags if not t.startswith("isnan:") or t in both)
        elif o == "^":
            un = U_POLY
            bits = join_bits(a.bits, b.bits)
            keep = E
            fl = lambda v: v.bits and all(x.startswith("F:") for x in v.bits)
            for x, y in ((a, b), (b, a)):
                if x.keep and fl(y):        # toggling named flags leaves every other bit alone
                    keep = x.keep; tags = tags | frozenset(f"clear:{t}@xor:{getattr(node, 'lineno', 0)}" for t in y.bits); break
            else:
                if bits: tags = tags | {"dqxor"}
        elif o in ("<<", ">>"):
            un = a.unit if a.unit == U_POLY else U_TOP
            bits = None
        if o == "*":
            for z in (a, b): tags = tags - frozenset(t for t in untested(frozenset("test:" + q[5:] for q in z.tags if q.startswith("excl:"))))
        if o in ("*", "/", "+", "-", "**", "//"):
            # only a product of masks and weights is a weight again
            like = lambda z: z.unit == U_POLY and not any(t.startswith("raw:") for t in z.tags)
            if o != "*" or not (like(a) and like(b)): tags = frozenset(t for t in tags if not t.startswith("excl:"))
        pure = lambda z: z.bits and all(x.startswith("F:") for x in z.bits)
        if o in ("*", "/", "+", "-", "**") and not (o == "*" and (pure(a) or pure(b))): tags = frozenset(t for t in tags if not t.startswith(("test:", "isfinite:", "isnan:")))
        if self.ip.pixel:
            sym = pixel.binop(o, a, b, sym, bn[0] if len(bn) == 1 and not b.unk else None)
            if o in ("&", "|"):
                ts = [pixel.truth(a), pixel.truth(b)]
                if None not in ts or (o == "|") in ts:
                    consts = pixel.T if ((True in ts) if o == "|" else (False not in ts)) else pixel.F; unk = False
        return V(consts=consts, unk=unk, deps=deps, ctl=ctl, sym=sym, unit=un, ax=ax, bits=bits, keep=keep, tags=tags)

    def band(self, node, a, b, st, tags):
        neg = lambda v: v.bits is not None and v.bits and all(x.startswith("N:") for x in v.bits)
        for x, y in ((a, b), (b, a)):
            if neg(y) and not neg(x):
                cl = frozenset(f"clear:{t[2:]}@and:{getattr(node, 'lineno', 0)}" for t in y.bits)
                return x.bits, E if x.keep is None else x.keep, (tags | cl)
        fa, fb = flagbits(a.bits), flagbits(b.bits)
        oa = a.bits is not None and any(t.startswith("O:") for t in a.bits)
        ob = b.bits is not None and any(t.startswith("O:") for t in b.bits)
        pure_a = a.bits is not None and a.bits and not oa and all(t.startswith(("F:", "L:")) for t in a.bits) 
        pure_b = b.bits is not None and b.bits and not ob and all(t.startswith(("F:", "L:")) for t in b.bits)
        if pure_b and not (a.bits is not None and a.bits and pure_a and not a.refs and a.consts):
            src = frozenset(t[2:] for t in (a.bits or ()) if t.startswith("O:"))
            t2 = frozenset(f"test:{f[2:]}" for f in b.bits)
            return b.bits, E, tags | t2 | frozenset("of:" + s for s in src)
        if pure_a:
            src = frozenset(t[2:] for t in (b.bits or ()) if t.startswith("O:"))
            t2 = frozenset(f"test:{f[2:]}" for f in a.bits)
            return a.bits, E, tags | t2 | frozenset("of:" + s for s in src)
        return join_bits(a.bits, b.bits), E, tags

    def conv_mul(self, node, a, b, st):
        for x, y in ((a, b), (b, a)):
            n = y.scalar_numbers()
            if not y.unk and not y.refs and len(n) == 1 and y.unit == U_POLY:
                if x.unit == unit(deg=1) and n[0] == 3600: return unit(arcsec=1)
                if x.unit == unit(arcmin=1) and n[0] == 60: return unit(arcsec=1)
                if x.unit == unit(deg=1) and n[0] == 60: return unit(arcmin=1)
        return u_mul(a.unit, b.unit)

    def conv_div(self, node, a, b, st):
        n = b.scalar_numbers()
        if not b.unk and not b.refs and len(n) == 1 and b.unit == U_POLY:
            if a.unit == unit(arcsec=1) and n[0] == 3600: return unit(deg=1)
        return u_mul(a.unit, b.unit, -1)

    def result(self, node, st, content, axes, args, tag=""):
        """array or scalar result depending on operands"""
        if any(self.is_arrayish(st, x) for x in args):
            maybe_scalar = all(not any(o.kind == "array" for o in self.ip.objs(st, x)) for x in args)
            if axes == ():
                return content.w(refs=E)
            v = self.ip.new_array(st, node, content.w(consts=E if content.unk else content.consts), axes, tag=tag)
            # the contents carry the dependences; keep them on the value for cheap access too
            return v.w(deps=content.deps, ctl=content.ctl, unk=False)
        return content

    def binop(self, node, op, a, b, st):
        ca, cb = self.ip.content(st, a), self.ip.content(st, b)
        axes = None
        if a.refs or b.refs:
            xa, xb = self.axes_of(st, a), self.axes_of(st, b)
            if xa == () and a.refs: xa = None
            if a.refs and not b.refs: axes = xa
            elif b.refs and not a.refs: axes = xb
            else:
                axes, bad = A.broadcast(xa, xb)
                if bad: self.ip.emit("axis_mismatch", node, op=OPN[type(op)], a=xa, b=xb, bad=bad, st=st)
        for x, y in ((a, b), (b, a)):
            if x.may_none(): self.ip.emit("none_arith", node, value=x, op=OPN[type(op)], st=st)
        c = self.scal_binop(node, op, ca, cb, st)
        self.ip.emit("binop", node, op=OPN[type(op)], a=a, b=b, ca=ca, cb=cb, result=c, st=st)
        return self.result(node, st, c, axes, (a, b))

    def only_kinds(self, st, v, kinds):
        return bool(v.refs) and not v.unk and not v.consts and all(o.kind in kinds and not o.get("root") for o in self.ip.objs(st, v))

    def only_number(self, v):
        if v.refs: return False
        if v.consts and all(t in ("int", "float", "bool") for t, _ in v.consts): return True
        return not v.consts and v.unk and (v.unit not in (U_TOP, U_POLY) or v.sym is not None)

    def compare(self, node, op, a, b, st):
        o = OPN[type(op)]
        if o in ("is", "is not"):
            d = a.deps | b.deps
            if b.only_none() or a.only_none():
                x = a if b.only_none() else b
                if x.only_none(): return const(o == "is", deps=d, ctl=x.ctl)
                if not x.may_none() and not x.is_bottom and not (x.unk and "maybe_none" in x.tags):
                    return const(o == "is not", deps=d, ctl=x.ctl)
            return V(consts=frozenset([("bool", True), ("bool", False)]), deps=d | self.deps(st, a) if not b.only_none() else d, ctl=a.ctl | b.ctl)
        if o in ("==", "!=") and self.ip.exact_shapes:
            ta, tb = ([x.get("items") for x in self.ip.objs(st, y)] for y in (a, b))
            if len(ta) == len(tb) == 1 and ta[0] is not None and tb[0] is not None and all(x.kind == "tuple" for y in (a, b) for x in self.ip.objs(st, y)):
                k = None
                if len(ta[0]) != len(tb[0]): k = False
                elif all(x.sym is not None and x.sym == y.sym for x, y in zip(ta[0], tb[0])): k = True
                if k is not None: return const(k == (o == "=="), deps=self.deps(st, a, b))
        if o in ("in", "not in"):
            d = self.deps(st, a, b)
            k = None
            try:
                c = a.single_const()
                vals = []
                for ob in self.ip.objs(st, b):
                    if ob.kind in ("list", "tuple", "set") and ob.get("items") is not None:
                        vals.append({x.single_const() for x in ob.get("items")})
                    elif ob.kind == "dict" and not ob.get("root") and ob.get("rest") is None and not ob.get("summary"):
                        vals.append(set(ob.get("items") or {}))
                    else: raise KeyError
                if b.unk or b.consts or not vals: raise KeyError
                rs = {c in v for v in vals}
                if len(rs) == 1:
                    r = rs.pop()
                    return const(r if o == "in" else not r, deps=d)
            except (KeyError, TypeError): pass
            try:
                c, w = a.single_const(), b.single_const()
                if isinstance(c, str) and isinstance(w, str): return const((c in w) == (o == "in"), deps=d)
            except KeyError: pass
            if self.ip.pixel:
                try:
                    c = a.single_const(); os = list(self.ip.objs(st, b))
                    if len(os) == 1 and os[0].get("root") and f"{os[0].get('root')}[{c}]" in self.ip.root_specs: return const(o == "in", deps=d)
                except KeyError: pass
            self.ip.emit("contains", node, a=a, b=b, st=st)
            return V(consts=frozenset([("bool", True), ("bool", False)]), deps=d)
        if self.ip.pixel and o in ("==", "!=") and (t := pixel.same_tuple(self.ip, st, a, b)): return const(o == "==", deps=a.deps | b.deps)
        ca, cb = self.ip.content(st, a), self.ip.content(st, b)
        # constants
        try:
            x, y = a.single_const(), b.single_const()
            r = fold(o, x, y)
            if r is not None: return const(r, deps=a.deps | b.deps, ctl=a.ctl | b.ctl)
        except KeyError: pass
        # value can not be among constants
        if o in ("==", "!=") and not a.refs and not b.refs and not a.unk and not b.unk and a.consts and b.consts:
            if not ({c for _, c in a.consts} & {c for _, c in b.consts}):
                return const(o == "!=", deps=a.deps | b.deps, ctl=a.ctl | b.ctl)
        if o not in ("==", "!="):
            for x, y in ((a, b), (b, a)):
                if x.may_none(): self.ip.emit("none_arith", node, value=x, op=o, st=st)
                if self.only_kinds(st, x, ("list", "tuple", "dict", "set")) and self.only_number(y):
                    self.ip.emit("badoperand", node, a=x, b=y, op=o, st=st)
        if ca.unit != U_TOP and cb.unit != U_TOP and u_join(ca.unit, cb.unit) == U_TOP:
            self.ip.emit("unit_mismatch", node, op=o, a=ca, b=cb, st=st)
        if ca.ax and cb.ax and ca.ax[1] != cb.ax[1] and A.known(ca.ax[1]) and A.known(cb.ax[1]):
            self.ip.emit("axis_arith", node, op=o, a=ca.ax, b=cb.ax, st=st)
        axes = None
        if a.refs or b.refs:
            xa, xb = self.axes_of(st, a), self.axes_of(st, b)
            if a.refs and not b.refs: axes = xa
            elif b.refs and not a.refs: axes = xb
            else:
                axes, bad = A.broadcast(xa, xb)
                if bad: self.ip.emit("axis_mismatch", node, op=o, a=xa, b=xb, bad=bad, st=st)
        tags = frozenset(t for t in ca.tags | cb.tags if t != "nan" and not t.startswith("clear:"))
        # test of a DQ word against a flag / zero
        self.ip.emit("compare", node, op=o, a=a, b=b, ca=ca, cb=cb, st=st)
        if o == "==":
            for x, y in ((ca, cb), (cb, ca)):
                if x.keep and y.bits and all(t.startswith("F:") for t in y.bits) and len(y.bits) == 1:
                    tags = tags | frozenset("only:" + t + ":" + k for t in y.bits for k in x.keep)
        for x, y in ((ca, cb), (cb, ca)):
            # any flag at all, or one of them, was looked at
            if x.keep and not y.refs and not y.unk and y.consts and all(n == 0 for t, n in y.consts if t in ("int", "float")): tags = tags | {"test:*"}
        c = V(consts=frozenset([("bool", True), ("bool", False)]), deps=ca.deps | cb.deps, ctl=ca.ctl | cb.ctl, unit=U_POLY, tags=tags, keep=E)
        if (a.refs or b.refs): c = c.w(consts=E, unk=True)
        if self.ip.pixel and (t := pixel.compare(o, ca, cb)) is not None: c = c.w(consts=frozenset([("bool", t)]), unk=False)
        return self.result(node, st, c, axes, (a, b))

    def unary(self, node, op, v, st):
        c = self.ip.content(st, v)
        n = OPN.get(type(op), type(op).__name__)
        if isinstance(op, ast.Invert):
            bits = None
            if c.bits: bits = frozenset(b[2:] if b.startswith("N:") else "N:" + b for b in c.bits if not b.startswith("O:")) or None
            tags = frozenset({"isfinite": "isnan", "isnan": "isfinite"}.get(t.split(":")[0], t.split(":")[0]) + t[len(t.split(":")[0]):] if t.startswith(("isfinite:", "isnan:")) else t for t in c.tags)
            r = c.w(bits=bits, keep=E, consts=E, unk=True, sym=None, tags=tags)
        elif isinstance(op, ast.USub):
            r = c.w(sym=-c.sym if c.sym is not None else None, consts=frozenset((t, -x) for t, x in c.consts if t in ("int", "float")), bits=None, keep=E, ax=None)
            if not r.consts: r = r.w(unk=True)
        else: r = c
        if self.ip.pixel and isinstance(op, (ast.Invert, ast.Not)) and (t := pixel.truth(c)) is not None: r = r.w(consts=pixel.F if t else pixel.T, unk=False)
        return self.result(node, st, r, self.axes_of(st, v) if v.refs else None, (v,))

    # ---------------------------------------------------------------- indexing
    def is_full_index(self, idx):
        for k, x in idx:
            if k == "ellipsis": continue
            if k == "slice":
                lo, hi, stp = x
                if lo is None and hi is None: continue
                return False
            return False
        return True

    def index_plan(self, st, o, idx):
        """per index element the axis it applies to: list of (kind, value, axis label or None, axis number)"""
        axes = o.get("axes")
        plan = []
        if any(k == "star" for k, _ in idx): return None
        def cons(k, x):
            if k == "new": return 0
            if k == "val":
                ax = self.axes_of(st, x)
                c = self.ip.content(st, x)
                if ax is not None and len(ax) > 1 and self.is_bool(c): return len(ax)
                return 1
            if k == "ellipsis": return 0
            return 1
        total = sum(cons(k, x) for k, x in idx)
        i = 0
        for k, x in idx:
            if k == "ellipsis":
                if axes is None:
                    plan.append((k, x, None, i)); i = None
                    continue
                n = len(axes) - total
                for _ in range(max(0, n)):
                    plan.append(("slice", (None, None, None), axes[i], i)); i += 1
                continue
            c = cons(k, x)
            if k == "new": plan.append((k, x, None, i)); continue
            if i is None: plan.append((k, x, None, None)); continue
            lab = axes[i] if axes is not None and i < len(axes) else None
            if axes is not None and i >= len(axes): self.ip.emit("too_many_indices", self.ip.cur_node, axes=axes, idx=idx, st=st)
            if c > 1: plan.append((k, x, tuple(axes[i:i + c]) if axes is not None else None, i))
            else: plan.append((k, x, lab, i))
            i += c
        return plan

    def is_bool(self, c):
        return (any(t == "bool" for t, _ in c.consts) and not c.unk) or "bool" in c.tags or c.tags & frozenset() or \
            any(t.startswith(("test:", "isnan:", "isfinite:")) for t in c.tags)

    def index(self, node, basev, idx, st):
        r = BOT
        for o in list(self.ip.objs(st, basev)):
            r = join(r, self.index1(node, o, idx, st))
        return r

    def index1(self, node, o, idx, st):
        axes = o.get("axes")
        plan = self.index_plan(st, o, idx)
        out = []
        fancy = False
        lv = E
        idxtags = E
        unknown = plan is None or axes is None
        ints = 0
        if plan is not None:
            for k, x, lab, i in plan:
                if k == "int":
                    ints += 1
                    self.ip.emit("rowat", node, obj=o, label=lab, number=i, x=x, facts=self.ip.facts(), st=st, store=self.storing)
                    self.check_idx(node, st, o, lab, x, "index")
                    lv = lv | frozenset(t for t in x.tags if t.startswith("lv:"))
                elif k == "slice":
                    lo, hi, stp = x
                    for b in (lo, hi):
                        if b is not None: self.check_idx(node, st, o, lab, b, "slice")
                    if lo is not None or hi is not None:
                        self.ip.emit("rowslice", node, obj=o, label=lab, number=i, lo=lo, hi=hi, step=stp, facts=self.ip.facts(), st=st, store=self.storing)
                    if lab is not None: out.append(lab if lo is None and hi is None and stp is None else (A.base(lab) + "'" if A.known(lab) else lab))
                    else: out.append("?")
                    for b in (lo, hi):
                        if b is not None: lv = lv | frozenset(t for t in b.tags if t.startswith("lv:"))
                elif k == "new": out.append("1")
                elif k == "ellipsis": unknown = True
                elif k == "val":
                    fancy = True
                    xa = self.axes_of(st, x)
                    c = self.ip.content(st, x)
                    idxtags = idxtags | c.tags
                    lv = lv | frozenset(t for t in c.tags if t.startswith("lv:"))
                    if isinstance(lab, tuple):
                        if xa is not None:
                            for p, q in zip(lab, xa):
                                if A.known(p) and A.known(q) and A.base(p) != A.base(q):
                                    self.ip.emit("axis_mismatch", node, op="mask", a=lab, b=xa, bad=(p, q), st=st)
                        out.append("?")
                    elif xa is None: out.append("?"); 
                    elif len(xa) == 1 and self.is_bool(c) and A.known(xa[0]) and A.known(lab) :
                        if A.base(xa[0]) != A.base(lab): self.ip.emit("axis_mismatch", node, op="mask", a=(lab,), b=xa, bad=(lab, xa[0]), st=st)
                        out.append(A.base(lab) + "'")
                    else:
                        self.check_idx(node, st, o, lab, c, "fancy")
                        out.append("?" if not (len(xa) == 1 and A.known(lab)) else A.base(lab) + "'") 
            if axes is not None and not unknown:
                used = max([i + (len(l) if isinstance(l, tuple) else 1) for k, x, l, i in plan if k != "new" and i is not None], default=0)
                out += list(axes[used:])
        if fancy and sum(1 for k, x, l, i in plan if k == "val") > 1:
            # several index arrays are broadcast together
            vals = [x for k, x, l, i in plan if k == "val"]
            out = [l for l in out]
            n = len(vals)
            out = None if any(k in ("slice", "new") for k, x, l, i in plan) else ["?"]
        newaxes = tuple(out) if (out is not None and not unknown) else None
        c = self.ip.obj_content(st, o)
        if fancy:
            tags = c.tags
            if o is not None and idxtags:
                own = self.ip.owner(st, o)
                if own is not None and ("isfinite:" + own.id) in idxtags: tags = tags - {"nan"}
                tags = tags - untested(idxtags)
            return self.ip.new_array(st, node, c.w(tags=tags), newaxes, tag=":fx", dtype=o.get("dtype"))
        if newaxes == ():
            return c.w(refs=E)
        own = self.ip.owner(st, o)
        mayscalar = newaxes is None and ints > 0
        vt = (o.get("lv") or E) | lv
        v = self.ip.alloc(st, node, "array", tag=":v" + (tagof(o.id) if o.get("root") is None else o.id), base=o.id, axes=newaxes, lv=vt,
                          dtype=o.get("dtype"), root=None, viewof=own.id if own else None,
                          region=self.region(o, plan))
        if mayscalar and self.ip.pixel and pixel.truth(c) is not None: v = v.w(consts=c.consts, tags=c.tags, deps=c.deps)
        elif mayscalar: v = v.w(unk=True, unit=c.unit, bits=c.bits, keep=c.keep, deps=c.deps, tags=c.tags)
        return v

    def region(self, o, plan):
        """symbolic description of which part of the owner a view covers: {axis number: ('at',sym)|('rng',lo,hi)}"""
        if plan is None: return None
        r = list(o.get("region") or []) 
        for k, x, lab, i in plan:
            if k == "int": r.append((A.base(lab) if isinstance(lab, str) else lab, "at", x.sym, None))
            elif k == "slice":
                lo, hi, stp = x
                if lo is None and hi is None and stp is None: continue
                r.append((A.base(lab) if isinstance(lab, str) else lab, "rng", lo.sym if lo is not None else Lin.const(0), hi.sym if hi is not None else "end"))
        return r

    def check_idx(self, node, st, o, lab, x, how):
        if x is None or lab is None or not isinstance(lab, str): return
        if self.ip.coords and x.ax is None and x.refs: x = self.ip.content(st, x)
        if x.ax is not None and A.known(lab) and A.known(x.ax[1]) and A.base(lab) != A.base(x.ax[1]):
            self.ip.emit("axis_index", node, how=how, label=lab, idx=x.ax, obj=o, st=st)
        elif x.ax is not None and A.known(lab):
            self.ip.emit("axis_index_ok", node, label=lab, idx=x.ax, st=st)
        if x.ax is not None and A.known(lab) and how == "index" and x.ax[0] == "len" and A.base(lab) == A.base(x.ax[1]):
            self.ip.emit("index_len", node, label=lab, obj=o, st=st)

    def check_store(self, node, o, idx, v, st):
        axes = o.get("axes")
        if axes is None:
            if idx and idx[0][0] == "slice" and (idx[0][1][0] is not None or idx[0][1][1] is not None):
                lo, hi, stp = idx[0][1]
                self.ip.emit("rowslice", node, obj=o, label=None, number=0, lo=lo, hi=hi, step=stp, facts=self.ip.facts(), st=st, store=True)
            return
        save = self.ip.handlers
        self.ip.handlers = {k: h for k, h in save.items() if k in ("axis_index", "axis_mismatch", "axis_index_ok", "rowslice", "rowat")}
        self.storing = True
        try: t = self.index1(node, o, idx, st)
        finally: self.ip.handlers = save; self.storing = False
        ta = self.axes_of(st, t); va = self.axes_of(st, v)
        if ta is None or va is None or not v.refs: return
        if sum(1 for k, _ in idx if k in ("int", "slice", "mask", "array")) > len(axes) and not any(k == "mask" for k, _ in idx): return
        _, bad = A.broadcast(ta, va)
        if bad: self.ip.emit("axis_mismatch", node, op="store", a=ta, b=va, bad=bad, st=st)

    def reorder(self, st, c, dt, convert):
        """content after astype (convert) or view with a dtype whose byte order is known"""
        new = None
        if dt is not None:
            for o in self.ip.objs(st, dt): new = o.get("order") or new
        cur = next((t[4:] for t in c.tags if t in ("ord:<", "ord:>")), "=")
        if new == "|": new = "="
        if new is None: new = "=" if convert else cur
        tags = frozenset(t for t in c.tags if t not in ("ord:<", "ord:>"))
        if new != "=": tags = tags | {"ord:" + new}
        if not convert and new != cur: tags = tags ^ frozenset(["ord:swapped"])
        return c.w(tags=tags)

    # ---------------------------------------------------------------- attributes
    def array_attr(self, st, o, name, node, opaque=False):
        ip = self.ip
        axes = o.get("axes")
        if ip.sysorder and o.get("order"):
            if name == "byteorder": return const(o.get("order"))
            if name == "isnative": return const(o.get("order") in ("=", "|"))
        if name == "newbyteorder": return ip.method_of(st, o, name)
        if name in ARR_METHODS and not (opaque and o.get("root") is not None and name in ("item", "put", "take", "view", "sort") and False):
            return ip.method_of(st, o, name)
        if opaque and name in DICTISH: return ip.method_of(st, o, name)
        if opaque and o.get("root") is not None and axes is None:
            if name not in ("shape", "ndim", "dtype", "T", "size"): return None
        if name == "shape":
            d = frozenset(["shape:" + o.get("root")]) if o.get("root") else ip.obj_content(st, o).deps & frozenset()
            if axes is not None:
                its = []
                for i, l in enumerate(axes):
                    its.append(V(unk=True, deps=d, ax=("len", A.base(l)) if A.known(l) else None, unit=U_POLY,
                                 sym=Lin.sym("N" + l) if A.known(l) and not l.endswith("'") else (Lin.const(1) if l == "1" else None)))
                return ip.alloc(st, node, "tuple", tag=":shape" + tagof(o.id), items=its)
            return ip.alloc(st, node, "tuple", tag=":shape" + tagof(o.id), items=None, rest=V(unk=True, deps=d, unit=U_POLY))
        if name == "ndim":
            if axes is not None: return const(len(axes))
            return V(unk=True, unit=U_POLY, deps=frozenset(["shape:" + o.get("root")]) if o.get("root") else E)
        if name == "size": return V(unk=True, unit=U_POLY, sym=Lin.sym("size") + Lin.const(1) if self.ip.pixel else None)
        if name == "dtype":
            if ip.sysorder:
                tg = [t[4:] for t in ip.obj_content(st, o).tags if t.startswith("ord:")]
                od = [t for t in tg if t in ("<", ">", "|")]
                return ip.alloc(st, node, "opaque", tag=":dtype" + "".join(od), dtypeof=o.get("dtype"), content=V(unk=True, tags=frozenset("ord:" + t for t in od)),
                                order=od[0] if od else "=")
            return ip.alloc(st, node, "opaque", tag=":dtype", dtypeof=o.get("dtype"), content=V(unk=True), dtypesrc=o.get("root"))
        if name == "T":
            return self.view(st, node, o, tuple(reversed(axes)) if axes is not None else None)
        if name in ("value", "real", "flat", "data", "mask"):
            if opaque and o.get("root"): return None
            if name == "mask" and "nan" in ip.obj_content(st, o).tags:
                c = ip.obj_content(st, o)
                return ip.new_array(st, node, c.w(tags=(c.tags - {"nan"}) | {"bool"}, keep=E, unit=U_POLY), axes)
            return self.view(st, node, o, axes if name != "flat" else ("?",))
        if name in ("nbytes", "itemsize", "strides", "flags", "base", "unit", "imag"):
            return V(unk=True, deps=ip.obj_content(st, o).deps & E)
        if opaque:
            if o.get("exttype"):
                return ip.method_of(st, o, name)
            return None
        at = o.get("attrs") or {}
        if name in at: return at[name]
        return V(unk=True, deps=ip.obj_content(st, o).deps, unit=U_TOP)

    storing = False

    def view(self, st, node, o, axes, tag=":vw", **kw):
        return self.ip.alloc(st, node, "array", tag=tag + tagof(o.id), base=o.id, axes=axes, lv=o.get("lv") or E, dtype=o.get("dtype"),
                             root=None, region=o.get("region"), **kw)

    def scalar_attr(self, st, base, name, node):
        if name in ARR_METHODS:
            oid = f"smeth:{name}:{hash(base) & 0xffffffff:x}"
            st.heap[oid] = Obj(oid, "meth", self=base.w(refs=E), name=name)
            return V(refs=frozenset([oid]))
        if name == "shape": return self.ip.alloc(st, node, "tuple", items=[])if not base.refs else V(unk=True)
        if name == "value": return base.w(refs=E)
        if any(t == "str" for t, _ in base.consts) or True:
            oid = f"smeth:{name}:{hash(base) & 0xffffffff:x}"
            st.heap[oid] = Obj(oid, "meth", self=base.w(refs=E), name=name)
            return V(refs=frozenset([oid]), deps=base.deps)

    def ext_const(self, name):
        if name in ("numpy.nan", "math.nan"): return V(consts=frozenset([("nan", "nan")]), tags=frozenset(["nan"]))
        if name in ("numpy.inf", "math.inf"): return V(unk=True, tags=frozenset(["inf"]))
        if name == "numpy.newaxis": return NONE
        if name == "sys.byteorder" and self.ip.sysorder: return const(self.ip.sysorder)
        if name in ("typing.TYPE_CHECKING",): return const(False)
        if name in ("numpy.pi", "math.pi"): return V(unk=True, unit=U_POLY, tags=frozenset(["pi"]))
        if name in ("math.e",): return V(unk=True, unit=U_POLY)
        return None

    def ext_inst_attr(self, st, o, bases, name, node): 
        oid = f"extmeth:{o.id}:{name}"
        st.heap[oid] = Obj(oid, "meth", self=V(refs=frozenset([o.id])), name=name, extbase=bases[0])
        return V(refs=frozenset([oid]))

    def ext_init(self, st, v, base, args, kw, node): pass
    def ext_item(self, st, o, idx, node): return UNK

    # ---------------------------------------------------------------- calls
    def unknown_call(self, node, f, args, kw, st):
        d = f.deps
        nm = None
        for o in self.ip.objs(st, f):
            if o.get("root"): d = d | frozenset([o.get("root")]); nm = o.get("root")
            elif o.kind == "opaque" and o.get("exttype"): nm = o.get("exttype")
        allv = [a if isinstance(a, V) else a[1] for a in args] + list(kw.values())
        for a in allv: d = d | self.ip.alldeps(st, a)
        self.ip.emit("unkcall", node, f=f, name=nm, args=args, kw=kw, st=st)
        spec = self.ip.root_specs.get((nm or "") + "()")
        if spec is not None and nm:
            if spec.get("kind") == "scalar": 
                v = self.ip.root_scalar(nm + "()", spec)
                return v.w(deps=v.deps | d)
            v = self.ip.new_array(st, node, V(unk=True, deps=d | frozenset([nm + "()"]), unit=spec.get("unit", U_TOP), tags=frozenset(spec.get("tags", ()))), spec.get("axes"))
            if spec.get("kind") == "tuple":
                its = []
                for i, s in enumerate(spec["items"]):
                    its.append(self.ip.new_array(st, node, V(unk=True, deps=d, unit=s.get("unit", U_TOP)), s.get("axes"), tag=f":t{i}") if s.get("kind", "array") == "array"
                               else V(unk=True, deps=d, unit=s.get("unit", U_TOP)))
                return self.ip.alloc(st, node, "tuple", tag=":unk", items=its)
            return v
        return self.opaque(st, node, d, (nm or "?") + "()")

    def opaque(self, st, node, deps, name, unit_=U_TOP, tags=E):
        v = self.ip.alloc(st, node, "opaque", tag=":" + name[-30:], content=V(unk=True, deps=deps, unit=unit_, tags=tags), axes=None,
                          exttype=name, attrs={}, root=None)
        return v.w(deps=deps, unk=True, unit=unit_)

    def allargs(self, args, kw):
        return [a if isinstance(a, V) else a[1] for a in args] + list(kw.values())

    def fresh_elems(self, node, e, n):
        """n elements of a sequence of unknown numbers; with pixel values each is a number of its own"""
        if not self.ip.pixel or e.refs or e.consts or e.sym is not None: return [e] * n
        self.ip.nfresh = getattr(self.ip, "nfresh", 0) + 1
        return [e.w(sym=Lin.sym(f"elem:{node.lineno}:{self.ip.nfresh}:{i}")) for i in range(n)]

    def arg(self, args, kw, i, name, default=None):
        if name in kw: return kw[name]
        if i is not None and i < len(args): 
            a = args[i]
            return a if isinstance(a, V) else a[1]
        return default

    def write_arg(self, node, target, value, st, how):
        """external call writes into array `target`"""
        for o in list(self.ip.objs(st, target)):
            if o.kind not in ("array", "opaque"): continue
            ow = self.ip.owner(st, o)
            new = self.ip.withctl(self.ip.content(st, value))
            self.ip.emit("store", node, obj=o, owner=ow, idx=None, value=value, rhs=value, aug=None, old=self.ip.obj_content(st, o), how=how, full=False,
                         st=st, vcontent=new, idxdeps=E, target=target)
            if ow is not None:
                self.ip.put(st, ow.w(content=join(ow.get("content") or BOT, new), written=True))

    def out_arg(self, node, out, res, st, full=True):
        for o in list(self.ip.objs(st, out)):
            if o.kind not in ("array", "opaque"): continue
            ow = self.ip.owner(st, o)
            new = self.ip.withctl(self.ip.content(st, res))
            self.ip.emit("store", node, obj=o, owner=ow, idx=None, value=res, rhs=res, aug=None, old=self.ip.obj_content(st, o), how="out", full=ow is o,
                         st=st, vcontent=new, idxdeps=E, target=out)
            if ow is not None:
                c = new if ow is o and not ow.get("summary") and full else join(ow.get("content") or BOT, new)
                self.ip.put(st, ow.w(content=c, written=True))
        return out

    def call_ext(self, node, name, args, kw, st):
        ip = self.ip
        if name in ("numpy.sqrt", "math.sqrt") and len(args) == 1 and isinstance(args[0], V):
            try: return const(float(args[0].single_const()) ** 0.5)
            except (KeyError, TypeError, ValueError, OverflowError): pass
        if name.startswith("numpy."):
            return self.call_np(node, name[6:], args, kw, st)
        if name.startswith("builtins."):
            return self.call_builtin(node, name[9:], args, kw, st)
        if name.startswith("math."):
            n = name[5:]
            if n in ("ceil", "floor", "trunc", "sqrt", "sin", "cos", "tan", "atan2", "atan", "asin", "acos", "radians", "degrees", "fabs", "hypot", "exp", "log", "log10", "pow", "isnan", "isfinite", "isinf"):
                return self.call_np(node, {"atan2": "arctan2", "atan": "arctan", "asin": "arcsin", "acos": "arccos", "pow": "power"}.get(n, n), args, kw, st)
        if name in ("copy.deepcopy",): return self.deepcopy(st, args[0], {}, node)
        if name == "copy.copy": return self.shallow(st, args[0], node)
        if name == "functools.partial": return args[0] if args else UNK
        if name in ("collections.defaultdict",): return ip.alloc(st, node, "dict", items={}, rest=None, keys=None, default=args[0] if args else None)
        if name in ("collections.OrderedDict",): return ip.alloc(st, node, "dict", items={}, rest=None)
        if name.startswith("logging.") or name.startswith("warnings."):
            if name == "logging.getLogger": return ip.ext("logging.getLogger()")
            return self.opaque(st, node, E, name + "()")
        if name.startswith("logging.getLogger()"): return NONE
        for k, pos in EXT_MUTATORS.items():
            if name == k:
                for p in pos:
                    t = self.arg(args, kw, p if isinstance(p, int) else None, p if isinstance(p, str) else "\0")
                    if t is not None:
                        others = joinall([ip.content(st, a) for a in self.allargs(args, kw) if a is not t])
                        self.write_arg(node, t, V(unk=True, deps=others.deps, ctl=others.ctl, unit=U_TOP), st, "ext:" + name)
                t = self.arg(args, kw, pos[0] if isinstance(pos[0], int) else None, pos[0] if isinstance(pos[0], str) else "\0")
                return t if t is not None else UNK
        vals = self.allargs(args, kw)
        d = self.deps(st, *vals)
        h = EXT.get(name)
        if h is not None: return h(self, node, args, kw, st, d)
        tail = name.split(".")[-1]
        if tail in ("view_as_windows", "view_as_blocks") and args:
            for o in ip.objs(st, args[0]):
                if o.kind == "array": return self.view(st, node, o, None)
        if tail == "starmap" or tail == "map":
            return self.starmap(node, args, kw, st, tail == "starmap")
        if name.startswith("scipy.ndimage") and tail in ("maximum_filter", "minimum_filter", "convolve", "gaussian_filter", "median_filter", "binary_dilation", "uniform_filter"):
            c = ip.content(st, args[0])
            out = kw.get("output")
            return ip.new_array(st, node, V(unk=True, deps=d, bits=c.bits, keep=E, unit=c.unit if tail != "convolve" else U_TOP, tags=c.tags & frozenset(["nan"])), self.axes_of(st, args[0]))
        spec = ip.root_specs.get("ext:" + name)
        if spec is not None:
            return V(unk=True, deps=d, unit=spec.get("unit", U_TOP)) if spec.get("kind") == "scalar" else ip.new_array(st, node, V(unk=True, deps=d, unit=spec.get("unit", U_TOP)), spec.get("axes"))
        return self.opaque(st, node, d | frozenset(["ext:" + name]) if name in IMPURE or name.startswith(IMPURE_PREFIX) else d, name + "()")

    def spread(self, st, x):
        """the arguments in a tuple of arguments (several tuples are joined place by place)"""
        ip = self.ip
        a = ip.known_items(st, x)
        if a is None:
            its = None
            for o in ip.objs(st, x):
                if o.kind in ("tuple", "list") and o.get("items") is not None:
                    its = list(o.get("items")) if its is None else ([join(p, q) for p, q in zip(its, o.get("items"))] if len(its) == len(o.get("items")) else None)
            a = its
        return a if a is not None else [("star", x)]

    def starmap(self, node, args, kw, st, star=True):
        ip = self.ip
        f = args[0]; it = args[1] if len(args) > 1 else kw.get("iterable", UNK)
        items = ip.known_items(st, it)
        res = []
        for x in (items if items is not None and len(items) <= 4 else [ip.element(st, it)]):
            if star: a = self.spread(st, x)
            else: a = [x]
            ip.emit("worker", node, func=f, args=a, st=st)
            # arguments reach another process as copies
            runs = [a]
            if ip.worker_each and not any(isinstance(q, tuple) for q in a):
                # one call per object an argument may be: each call gets one of them
                n = max([len(q.refs) for q in a] or [1])
                runs = [[q.w(refs=frozenset([sorted(q.refs)[i % len(q.refs)]])) if q.refs else q for q in a] for i in range(max(n, 1))]
            for a in runs:
                memo = {}
                a = [("star", self.deepcopy(st, q[1], memo, node)) if isinstance(q, tuple) else self.deepcopy(st, q, memo, node) for q in a]
                if ip.worker_each:
                    for nid in memo.values():
                        if st.heap[nid].get("summary"): st.heap[nid] = st.heap[nid].w(summary=False)
                res.append(ip.call(node, f, a, {}, st))
        if items is not None and len(items) <= 4: return ip.alloc(st, node, "list", tag=":smap", items=res)
        return ip.alloc(st, node, "list", tag=":smap", items=None, rest=joinall(res))

    def deepcopy(self, st, v, memo, node, depth=0):
        ip = self.ip
        refs = set()
        for o in list(ip.objs(st, v)):
            refs.add(self.deepcopy_obj(st, o, memo, node, depth))
        return v.w(refs=frozenset(refs))

    def deepcopy_obj(self, st, o, memo, node, depth):
        ip = self.ip
        if o.id in memo: return memo[o.id]
        if o.kind in ("func", "class", "module", "ext", "bound"): return o.id
        nid = f"copy:{getattr(node, 'lineno', 0)}@{ip.ctx():x}:{o.id}"
        memo[o.id] = nid
        d = dict(o.d)
        if o.get("base") is not None:
            c = ip.obj_content(st, o)
            d = dict(content=c, axes=o.get("axes"), dtype=o.get("dtype"), base=None)
        else:
            for k, x in list(d.items()):
                if k in ("attrs", "items") and isinstance(x, dict): d[k] = {a: self.deepcopy(st, b, memo, node, depth + 1) for a, b in x.items()}
                elif k == "items" and x is not None: d[k] = [self.deepcopy(st, b, memo, node, depth + 1) for b in x]
                elif k == "rest" and x is not None: d[k] = self.deepcopy(st, x, memo, node, depth + 1)
        if o.get("lazy"):
            d["copyof"] = o.get("root")
            # children not touched yet are materialised through the root, then copied
            d["root"] = None; d["lazy"] = False
            d["lazycopy"] = o.id
        else: d["root"] = None
        st.heap[nid] = Obj(nid, o.kind, **d)
        return nid

    def shallow(self, st, v, node):
        ip = self.ip
        refs = set()
        for o in list(ip.objs(st, v)):
            if o.kind in ("func", "class", "module", "ext", "bound"): refs.add(o.id); continue
            nid = f"scopy:{getattr(node, 'lineno', 0)}@{ip.ctx():x}:{o.id}"
            d = dict(o.d)
            if o.get("base") is not None: d = dict(content=ip.obj_content(st, o), axes=o.get("axes"), dtype=o.get("dtype"), base=None)
            st.heap[nid] = Obj(nid, o.kind, **d)
            refs.add(nid)
        return v.w(refs=frozenset(refs))

    # ---------------------------------------------------------------- numpy
    def reduce(self, node, fn, x, args, kw, st, first=1):
        ip = self.ip
        base = fn.split(".")[0] if "." in fn else fn
        c = ip.content(st, x)
        axes = self.axes_of(st, x)
        ax = self.arg(args, kw, first if fn not in ("percentile", "nanpercentile", "quantile", "nanquantile") else first + 1, "axis")
        keep = kw.get("keepdims")
        keepdims = keep is not None and any(cc for t, cc in keep.consts if t == "bool")
        newaxes = None
        scalar = False
        removed = None
        if ax is None or ax.only_none():
            if fn.endswith(".reduce"):
                removed = (axes[0],) if axes else None
                newaxes = axes[1:] if axes is not None else None
            else:
                scalar = True; removed = axes
        elif axes is not None:
            nums = None
            try: nums = [ax.single_const()]
            except KeyError:
                its = ip.known_items(st, ax)
                if its is not None:
                    try: nums = [i.single_const() for i in its]
                    except KeyError: nums = None
            if nums is not None:
                nums = [n + len(axes) if n < 0 else n for n in nums]
                if any(n >= len(axes) or n < 0 for n in nums):
                    ip.emit("bad_axis", node, axes=axes, nums=nums, st=st); newaxes = None
                else:
                    removed = tuple(axes[n] for n in nums)
                    newaxes = tuple(("1" if i in nums else l) for i, l in enumerate(axes) if keepdims or i not in nums)
        ip.emit("reduce", node, fn=fn, x=x, content=c, axes=axes, removed=removed, st=st, kw=kw)
        tags = c.tags
        un = c.unit
        bits = None; kp = E
        if fn not in ("any", "all", "min", "max", "prod", "amin", "amax"): tags = frozenset(t for t in tags if not t.startswith("excl:"))
        if fn in NAN_SAFE: tags = tags - {"nan"}
        if fn in ("any", "all", "count_nonzero", "argmin", "argmax", "nanargmin", "nanargmax") or "logical" in fn:
            un = U_POLY; tags = frozenset(t for t in tags if not t.startswith("clear:")) - {"nan"}
        elif fn in ("var", "nanvar"): un = u_pow(un, 2)
        elif fn in ("prod", "nanprod"): un = U_TOP if un not in (U_POLY,) else un
        elif fn.startswith("bitwise_or"): bits = c.bits; kp = c.keep if c.keep is not None else E
        elif fn in ("max", "amax", "nanmax", "min", "amin"): bits = c.bits
        d = c.deps | (self.deps(st, *[a for a in self.allargs(args, kw) if a is not x]))
        ax_out = None
        if fn in ("argmin", "argmax", "nanargmax", "nanargmin") and removed and len(removed) == 1 and A.known(removed[0]): ax_out = ("idx", A.base(removed[0]))
        if fn in ("sum", "nansum") and self.is_bool(c): un = U_POLY
        r = V(unk=True, deps=d, ctl=c.ctl, unit=un, bits=bits, keep=kp, tags=masks_of(fn, tags), ax=ax_out)
        out = kw.get("out")
        if scalar and not keepdims: res = r
        else: res = ip.new_array(st, node, r, newaxes, tag=":red")
        if out is not None and not out.only_none():
            return self.out_arg(node, out, res, st)
        return res

    def np_axes_pass(self, st, x): return self.axes_of(st, x)

    def call_np(self, node, fn, args, kw, st):
        r = self.call_np0(node, fn, args, kw, st)
        if self.ip.pixel:
            r = pixel.np_elementwise_list(self, node, fn, args, kw, st, r)
            r = pixel.np_result(self, node, fn, args, kw, st, r)
        return r

    def call_np0(self, node, fn, args, kw, st):
        ip = self.ip
        vals = self.allargs(args, kw)
        a0 = self.arg(args, kw, 0, "a") if args else (vals[0] if vals else None)
        out = kw.get("out")
        r = self._call_np(node, fn, args, kw, st, vals, a0)
        if fn in UF_BIN or fn in UF_CMP or fn in UF_MINMAX or fn in UF_SAME or fn in ("sqrt", "square", "exp", "log"):
            npos = 2 if (fn in UF_BIN or fn in UF_CMP or fn in UF_MINMAX) else 1
            if out is None and len(args) > npos and fn not in ("round", "around", "clip", "array", "roll", "pad", "repeat", "tile", "nan_to_num", "interp", "sort", "unique", "flip"): out = args[npos]
            where = kw.get("where")
            if out is not None and isinstance(out, V) and not out.only_none():
                o2 = out
                if any(o.kind == "tuple" for o in ip.objs(st, out)): o2 = ip.element(st, out)
                return self.out_arg(node, o2, r, st, full=where is None)
        return r

    def _call_np(self, node, fn, args, kw, st, vals, a0):
        ip = self.ip
        if fn in UF_BIN: return ip.binop(node, UF_BIN[fn](), args[0] if args else kw.get("x1", UNK), self.arg(args, kw, 1, "x2", UNK), st)
        if fn in UF_CMP: return self.compare(node, UF_CMP[fn](), args[0], args[1], st)
        if fn in UF_MINMAX:
            return self.minmax(node, args[:2], st)
        if fn in REDUCE: return self.reduce(node, fn, a0, args, kw, st)
        d = self.deps(st, *vals)
        if fn in TRIG:
            c = ip.content(st, a0)
            ip.emit("trig", node, fn=fn, arg=c, st=st)
            return self.result(node, st, V(unk=True, deps=d, unit=NODIM), self.axes_of(st, a0), (a0,))
        if fn in ATRIG:
            cs = [ip.content(st, x) for x in args]
            if fn == "arctan2" and len(cs) == 2 and U_TOP not in (cs[0].unit, cs[1].unit) and u_join(cs[0].unit, cs[1].unit) == U_TOP:
                ip.emit("unit_mismatch", node, op="arctan2", a=cs[0], b=cs[1], st=st)
            return self.result(node, st, V(unk=True, deps=d, unit=unit(rad=1)), self.axes_of(st, a0), (a0,))
        if fn in ("deg2rad", "radians"):
            c = ip.content(st, a0); ip.emit("angconv", node, to="rad", arg=c, st=st)
            return self.result(node, st, V(unk=True, deps=d, unit=unit(rad=1)), self.axes_of(st, a0), (a0,))
        if fn in ("rad2deg", "degrees"):
            c = ip.content(st, a0); ip.emit("angconv", node, to="deg", arg=c, st=st)
            return self.result(node, st, V(unk=True, deps=d, unit=unit(deg=1)), self.axes_of(st, a0), (a0,))
        if fn in ("sqrt", "square", "cbrt", "reciprocal"):
            c = ip.content(st, a0)
            p = {"sqrt": Fraction(1, 2), "square": 2, "cbrt": Fraction(1, 3), "reciprocal": -1}[fn]
            return self.result(node, st, V(unk=True, deps=c.deps, ctl=c.ctl, unit=u_pow(c.unit, p), tags=c.tags), self.axes_of(st, a0), (a0,))
        if fn in ("exp", "log", "log10", "log2", "expm1", "log1p", "sinh", "cosh", "tanh", "sign", "hypot"):
            c = ip.content(st, a0)
            if fn not in ("sign", "hypot"): ip.emit("dimless", node, fn=fn, arg=c, st=st)
            return self.result(node, st, V(unk=True, deps=d, unit=c.unit if fn == "hypot" else NODIM), self.axes_of(st, a0), (a0,))
        if fn in BOOLF:
            c = ip.content(st, a0)
            t = E
            if fn in ("isnan", "isfinite"):
                t = frozenset(f"{fn}:{(ip.owner(st, o) or o).id}" for o in self.arrs(st, a0))
                ip.emit("nantest", node, fn=fn, x=a0, st=st)
            if fn == "logical_not": return self.unary(node, ast.Invert(), a0, st)
            rv = V(unk=bool(a0.refs), consts=E if a0.refs else frozenset([("bool", True), ("bool", False)]), deps=d, ctl=c.ctl, tags=t | {"bool"} | frozenset(x for x in c.tags if x.startswith("lv:")))
            return self.result(node, st, rv, self.axes_of(st, a0), (a0,))
        if fn in ("zeros", "ones", "empty", "full"):
            shp = self.arg(args, kw, 0, "shape")
            fill = self.arg(args, kw, 1, "fill_value") if fn == "full" else None
            dt = self.arg(args, kw, 2 if fn == "full" else 1, "dtype")
            axes = self.shape_axes(st, shp)
            sd = self.deps(st, shp)
            c = {"zeros": const(0), "ones": const(1), "empty": BOT}.get(fn) if fn != "full" else ip.content(st, fill)
            c = c.w(ctl=c.ctl | sd, sym=None)
            if fn in ("zeros", "empty"): c = c.w(keep=FRESH)
            return ip.new_array(st, node, c, axes, dtype=self.dtype_name(st, dt) or ("float64" if dt is None and fn != "full" else None), fresh=fn)
        if fn in ("zeros_like", "ones_like", "empty_like", "full_like"):
            fill = self.arg(args, kw, 1, "fill_value") if fn == "full_like" else None
            c = {"zeros_like": const(0), "ones_like": const(1), "empty_like": BOT}.get(fn) if fn != "full_like" else ip.content(st, fill)
            if fn in ("zeros_like", "empty_like"): c = c.w(keep=FRESH)
            dt = kw.get("dtype")
            dn = self.dtype_name(st, dt)
            if dn is None and dt is None:
                for o in self.arrs(st, a0): dn = o.get("dtype")
            return ip.new_array(st, node, c.w(sym=None), self.axes_of(st, a0), dtype=dn, fresh=fn)
        if fn in ("arange",):
            ax = None
            for v in args:
                if isinstance(v, V) and v.ax is not None: ax = v.ax[1]
            c = joinall([v.w(refs=E) for v in vals if isinstance(v, V) and v is not kw.get("dtype")]).w(sym=None, consts=E, unk=True, ax=("idx", ax) if ax else None)
            return ip.new_array(st, node, c, (ax if ax and len(args) == 1 else ("?" if not ax else ax + "'"),), dtype=self.dtype_name(st, kw.get("dtype")))
        if fn in ("linspace", "logspace", "geomspace"):
            c = join(ip.content(st, args[0]), ip.content(st, args[1]))
            labs = {x.ax[1] for x in (ip.content(st, v) for v in args[:2]) if x.ax}
            return ip.new_array(st, node, c.w(consts=E, unk=True, sym=None, ax=("idx", next(iter(labs))) if ip.coords and len(labs) == 1 else None), ("?",))
        if fn == "where":
            if len(args) == 1:
                axes = self.axes_of(st, a0)
                c = ip.content(st, a0)
                if axes is not None:
                    its = [ip.new_array(st, node, V(unk=True, deps=c.deps, ctl=c.ctl, ax=("idx", A.base(l)) if A.known(l) else None, tags=c.tags), ("?",), tag=f":w{i}", whereof=True) for i, l in enumerate(axes)]
                    return ip.alloc(st, node, "tuple", tag=":where", items=its, mask=a0)
                return ip.alloc(st, node, "tuple", tag=":where", items=None, rest=ip.new_array(st, node, V(unk=True, deps=c.deps, ctl=c.ctl, tags=c.tags), ("?",), tag=":w"), mask=a0)
            cc = ip.content(st, args[0]); x = ip.content(st, args[1]); y = ip.content(st, args[2])
            if x.unit != U_TOP and y.unit != U_TOP and u_join(x.unit, y.unit) == U_TOP: ip.emit("unit_mismatch", node, op="where", a=x, b=y, st=st)
            ip.emit("select", node, cond=args[0], ccond=cc, x=args[1], y=args[2], cx=x, cy=y, st=st)
            axes, bad = A.broadcast(self.axes_of(st, args[1]), self.axes_of(st, args[2]))
            if bad: ip.emit("axis_mismatch", node, op="where", a=self.axes_of(st, args[1]), b=self.axes_of(st, args[2]), bad=bad, st=st)
            a3, bad = A.broadcast(self.axes_of(st, args[0]), axes)
            if bad: ip.emit("axis_mismatch", node, op="where", a=self.axes_of(st, args[0]), b=axes, bad=bad, st=st)
            kx = x.keep if x.keep is not None else E; ky = y.keep if y.keep is not None else E
            r = join(x, y).w(keep=kx & ky, ctl=x.ctl | y.ctl | cc.deps | cc.ctl, sym=None)
            # np.where(isnan(x), safe, x) repairs NaN
            for v, q in ((args[2], "isnan:"), (args[1], "isfinite:")):
                for o in self.arrs(st, v):
                    own = ip.owner(st, o) or o
                    if (q + own.id) in cc.tags: r = r.w(tags=r.tags - {"nan"})
            tst = untested(cc.tags)
            if tst and any(z.consts and not z.unk and not z.refs for z in (args[1], args[2])): r = r.w(tags=r.tags - tst)
            # np.where(flagged, value as it was, corrected value)
            r = r.w(tags=r.tags - frozenset(t for t in tst if t.startswith("coef:") and (t in x.tags) != (t in y.tags)))
            if r.tags & frozenset(["nan"]) and not (x.tags | y.tags) & frozenset(["nan"]): r = r.w(tags=r.tags - {"nan"})
            return ip.new_array(st, node, r.w(consts=r.consts if not r.unk else E), a3)
        if fn in ("copyto", "putmask", "place", "put", "put_along_axis", "fill_diagonal") or fn.endswith(".at") or fn == "random.shuffle":
            t = args[0]
            v = {"copyto": 1, "putmask": 2, "place": 2, "put": 2, "put_along_axis": 2, "fill_diagonal": 1}.get(fn, 2 if len(args) > 2 else None)
            val = self.arg(args, kw, v, "values") if v is not None else UNK
            val = val if val is not None else UNK
            mask = args[1] if fn in ("putmask", "place") and len(args) > 1 else self.arg(args, kw, 3, "where") if fn == "copyto" else None
            if mask is not None and t.refs and val is not UNK:      # target[mask] = values[mask]
                idx = [ip.classify_index(mask, st)]
                if val.refs and fn != "place": val = ip.subscript(node, val, idx, st)
                ip.store_sub(node, t, idx, val, st)
                return NONE
            if fn.endswith(".at") and fn[:-3] in UF_BIN:
                val = ip.binop(node, UF_BIN[fn[:-3]](), t, val, st)
            self.write_arg(node, t, val, st, "np:" + fn)
            return NONE
        if fn in VIEWF:
            return self.npview(node, fn, args, kw, st)
        if fn in ("diff", "ediff1d"):
            c = ip.content(st, a0)
            ax = self.arg(args, kw, 2, "axis")
            axes = self.axes_of(st, a0)
            n = -1
            try:
                if ax is not None: n = ax.single_const()
            except KeyError: axes = None
            if axes is not None and axes:
                l = list(axes)
                ip.emit("diffaxis", node, axis=l[n] if -len(l) <= n < len(l) else None, axes=tuple(l), st=st)
                if -len(l) <= n < len(l): l[n] = A.base(l[n]) + "'" if A.known(l[n]) else l[n]
                axes = tuple(l)
            return ip.new_array(st, node, V(unk=True, deps=c.deps, ctl=c.ctl, unit=c.unit, tags=c.tags, keep=E, bits=c.bits), axes)
        if fn in ("vstack", "hstack", "dstack", "stack", "concatenate", "append", "column_stack", "block"):
            x = args[0] if fn != "append" else None
            items = (ip.known_items(st, x) or [ip.element(st, x)]) if x is not None else list(args[:2])
            cs = [ip.content(st, i) for i in items]
            c = joinall(cs)
            us = [z.unit for z in cs if z.unit not in (U_TOP, U_POLY)]
            axs = [self.axes_of(st, i) for i in items]
            ax = self.arg(args, kw, 1, "axis")
            axes = None
            if fn in ("concatenate",) and all(a is not None for a in axs) and axs:
                axes = axs[0]
                for a in axs[1:]: axes = join_axes(axes, a)
                n = 0
                try:
                    if ax is not None: n = ax.single_const()
                    if axes is not None:
                        axes = tuple((A.base(l) + "'" if A.known(l) and i == (n % len(axes)) else l) for i, l in enumerate(axes))
                except KeyError: axes = None
            return ip.new_array(st, node, c.w(sym=None, keep=E if c.keep is None else c.keep), axes)
        if fn in ("array", "copy"):
            return self.np_array(node, args, kw, st)
        if fn in ("nan_to_num",):
            c = ip.content(st, a0)
            cp = kw.get("copy") or (args[1] if len(args) > 1 else None)
            r = c.w(tags=c.tags - {"nan", "inf"})
            if cp is not None and any(t == "bool" and not x for t, x in cp.consts):
                self.write_arg(node, a0, r, st, "np:nan_to_num")
                for o in self.arrs(st, a0):
                    ow = ip.owner(st, o)
                    if ow is o: ip.put(st, ip.obj(st, o.id).w(content=r))
                return a0
            return self.result(node, st, r, self.axes_of(st, a0), (a0,))
        if fn in UF_SAME:
            c = ip.content(st, a0)
            others = [v for v in vals if v is not a0 and v is not kw.get("out")]
            axes = self.axes_of(st, a0)
            if fn in ("unique", "tile", "repeat", "convolve"): axes = None if axes is None else tuple("?" for _ in axes)
            if fn == "pad": axes = None if axes is None else tuple(l for l in axes)
            if fn == "clip":
                for v in others:
                    cv = ip.content(st, v)
                    if cv.unit != U_TOP and c.unit != U_TOP and u_join(cv.unit, c.unit) == U_TOP: ip.emit("unit_mismatch", node, op="clip", a=c, b=cv, st=st)
            dep = d
            tg = c.tags
            r = c.w(deps=c.deps | dep, consts=c.consts if fn in ("float32", "float64", "uint8", "uint32", "int32", "float128", "longdouble") else E, unk=True if fn not in ("float32", "uint8", "uint32") or c.unk or not c.consts else False,
                    sym=c.sym if fn in ("uint32", "uint8", "int32", "int64") else quot(fn, c.sym), ax=c.ax if fn not in ("abs",) else None,
                    keep=c.keep, tags=tg)
            if fn in ("negative",): r = r.w(bits=None)
            rv = self.result(node, st, r, axes, (a0,))
            if fn.startswith(("uint", "int", "float")) and a0.refs:
                for o in ip.objs(st, rv):
                    if o.kind == "array": ip.put(st, o.w(dtype=DT.get(fn, fn)))
            return rv
        if fn in ("isscalar",):
            if not a0.refs and (a0.consts or a0.unk): return const(True) if not any(True for _ in self.arrs(st, a0)) and not a0.may_none() else V(consts=frozenset([("bool", True), ("bool", False)]), deps=a0.deps)
            if a0.refs and not a0.unk and not a0.consts and all(o.kind == "array" for o in ip.objs(st, a0)): return const(False)
            return V(consts=frozenset([("bool", True), ("bool", False)]), deps=a0.deps)
        if fn in ("ndim",):
            ax = self.axes_of(st, a0)
            if ax is not None: return const(len(ax))
            return V(unk=True)
        if fn in ("shape",): return ip.getattr(st, a0, "shape", node)
        if fn in ("issubdtype", "iterable", "array_equal", "array_equiv", "allclose", "can_cast"):
            return V(consts=frozenset([("bool", True), ("bool", False)]), deps=d)
        if fn in ("dtype", "finfo", "iinfo"):
            nm = self.dtype_name(st, a0) if a0 is not None else None
            return ip.alloc(st, node, "opaque", tag=":dtype", dtypeof=nm, content=V(unk=True, deps=d), exttype="numpy.dtype()")
        if fn in ("indices", "mgrid", "meshgrid", "ogrid"):
            if fn == "indices":
                axes = self.shape_axes(st, a0)
                if axes is not None:
                    its = [ip.new_array(st, node, V(unk=True, ax=("idx", A.base(l)) if A.known(l) else None), axes, tag=f":ind{i}") for i, l in enumerate(axes)]
                    return ip.alloc(st, node, "tuple", tag=":ind", items=its)
                return ip.new_array(st, node, V(unk=True, deps=d), None)
            its = [ip.new_array(st, node, ip.content(st, a).w(sym=None), None, tag=f":mg{i}") for i, a in enumerate(args) if isinstance(a, V)]
            return ip.alloc(st, node, "tuple", tag=":mg", items=its)
        if fn in ("take_along_axis", "take", "choose", "compress", "extract", "select"):
            c = ip.content(st, a0)
            return ip.new_array(st, node, c.w(deps=d), self.axes_of(st, a0) if fn == "take_along_axis" else None)
        if fn in ("dot", "matmul", "inner", "outer", "cross", "einsum", "tensordot", "vdot"):
            cs = [ip.content(st, a) for a in args if isinstance(a, V)][-2:]
            un = u_mul(cs[0].unit, cs[1].unit) if len(cs) == 2 else U_TOP
            return ip.new_array(st, node, V(unk=True, deps=d, unit=un), None).w(unk=True, deps=d, unit=un)
        if fn in ("argsort", "lexsort", "nonzero", "flatnonzero", "argwhere", "searchsorted", "digitize", "argpartition", "unravel_index", "ravel_multi_index"):
            c = ip.content(st, a0)
            axes = self.axes_of(st, a0)
            if fn == "nonzero" : return self._call_np(node, "where", args[:1], {}, st, vals, a0)
            ax = None
            if fn == "argsort" and axes and len(axes) == 1 and A.known(axes[0]): ax = ("idx", A.base(axes[0]))
            return ip.new_array(st, node, V(unk=True, deps=d, ax=ax), axes if fn == "argsort" else None)
        if fn in ("errstate", "seterr", "printoptions", "set_printoptions"): return self.opaque(st, node, E, "numpy." + fn + "()")
        if fn in ("array2string", "array_str", "array_repr", "savetxt", "save"): return V(unk=True, deps=d)
        if fn in ("fromfile", "load", "loadtxt", "genfromtxt", "frombuffer", "fromstring", "fromiter"):
            return ip.new_array(st, node, V(unk=True, deps=d, unit=U_TOP), None, dtype=self.dtype_name(st, kw.get("dtype")))
        if fn.startswith("random."):
            return ip.new_array(st, node, V(unk=True, deps=d | frozenset(["ext:numpy." + fn])), None).w(unk=True, deps=d | frozenset(["ext:numpy." + fn]))
        if fn.startswith("linalg."):
            return self.opaque(st, node, d, "numpy." + fn + "()")
        if fn in ("iscomplexobj", "may_share_memory", "shares_memory"): return V(consts=frozenset([("bool", True), ("bool", False)]), deps=d)
        return self.opaque(st, node, d, "numpy." + fn + "()")

    def np_array(self, node, args, kw, st):
        ip = self.ip
        a0 = self.arg(args, kw, 0, "object") 
        if a0 is None: a0 = kw.get("a", UNK)
        c = ip.content(st, a0)
        axes = self.axes_of(st, a0)
        elems = None
        for o in ip.objs(st, a0):
            if o.kind in ("list", "tuple") and o.get("items") is not None and len(a0.refs) == 1:
                el = o.get("items")
                if not any(x.refs for x in el): elems = list(el); axes = ("?",)
                else: axes = None
        dn = self.dtype_name(st, self.arg(args, kw, 1, "dtype"))
        cp = kw.get("copy")
        if cp is not None and (cp.only_none() or any(t == "bool" and not x for t, x in cp.consts)):
            return join(a0, ip.new_array(st, node, c, axes, dtype=dn))
        if dn is None:
            for o in self.arrs(st, a0): dn = o.get("dtype")
        if not a0.refs:
            return ip.new_array(st, node, c.w(sym=None), (), dtype=dn)
        return ip.new_array(st, node, c.w(sym=None), axes, dtype=dn, elems=elems)

    def minmax(self, node, args, st, arr=True):
        ip = self.ip
        cs = [ip.content(st, a) for a in args]
        c = joinall(cs)
        base = cs[0].unit
        for x in cs[1:]:
            if base != U_TOP and x.unit != U_TOP and u_join(base, x.unit) == U_TOP: ip.emit("unit_mismatch", node, op="minmax", a=cs[0], b=x, st=st)
        axs = [self.axes_of(st, a) for a in args if a.refs]
        axes = axs[0] if axs else None
        for x in axs[1:]:
            axes, bad = A.broadcast(axes, x)
            if bad: ip.emit("axis_mismatch", node, op="minmax", a=axs[0], b=x, bad=bad, st=st)
        if ip.coords:
            labs = {x.ax[1] for x in cs if x.ax}
            if len(labs) == 1 and c.ax is None: c = c.w(ax=("idx", next(iter(labs))))
            elif len(labs) > 1: x, y = [q for q in cs if q.ax][:2]; ip.emit("axis_arith", node, op="min", a=x.ax, b=y.ax, st=st)
        return self.result(node, st, c.w(sym=None, consts=E, unk=True, keep=E), axes, args)

    def npview(self, node, fn, args, kw, st):
        ip = self.ip
        a0 = self.arg(args, kw, 0, "a") if args else next(iter(kw.values()), UNK)
        r = BOT
        arrs = self.arrs(st, a0)
        for o in arrs:
            axes = o.get("axes")
            if fn in ("asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "require"):
                # may be the same object
                r = join(r, V(refs=frozenset([o.id])))
                dt = self.arg(args, kw, 1, "dtype")
                if dt is not None: r = join(r, ip.new_array(st, node, ip.obj_content(st, o), axes, dtype=self.dtype_name(st, dt)))
                continue
            if fn in ("ravel",): na = ("?",)
            elif fn == "reshape": na = self.reshape_axes(st, axes, self.arg(args, kw, 1, "shape"))
            elif fn == "transpose": na = tuple(reversed(axes)) if axes is not None and len(args) < 2 and "axes" not in kw else None
            elif fn == "swapaxes":
                na = self.swapped(axes, args[1:], kw)
            elif fn == "broadcast_to": na = self.shape_axes(st, self.arg(args, kw, 1, "shape"))
            elif fn == "expand_dims": na = None
            elif fn == "squeeze": na = tuple(l for l in axes if l != "1") if axes is not None else None
            else: na = None
            r = join(r, self.view(st, node, o, na, tag=":" + fn))
        if not arrs or a0.unk or a0.consts or any(o.kind in ("list", "tuple", "gen", "inst", "meth") for o in ip.objs(st, a0)):
            c = ip.content(st, a0)
            oth = [o for o in ip.objs(st, a0) if o.kind in ("list", "tuple")]
            if not a0.refs and fn in ("asarray", "asanyarray"): return ip.new_array(st, node, c.w(sym=None), ())
            if oth or not arrs: r = join(r, ip.new_array(st, node, c.w(sym=None), None, tag=":" + fn))
        return r.w(deps=r.deps | a0.deps, ctl=r.ctl | a0.ctl)

    def swapped(self, axes, ns, kw):
        try:
            a, b = [x.single_const() for x in ns]
            l = list(axes); l[a], l[b] = l[b], l[a]
            return tuple(l)
        except Exception: return None

    def reshape_axes(self, st, axes, shp, extra=()):
        if shp is None: return None
        its = None
        if extra: its = [shp] + list(extra)
        else:
            for o in self.ip.objs(st, shp):
                if o.kind in ("tuple", "list"): its = o.get("items")
            if its is None and not shp.refs: its = [shp]
        if its is None: return None
        return tuple(self.len_label(x) for x in its)

    # ---------------------------------------------------------------- methods of arrays / containers / scalars
    def call_method(self, node, selfv, name, args, kw, st):
        ip = self.ip
        r = BOT
        objs = list(ip.objs(st, selfv))
        for o in objs:
            r = join(r, self.method1(node, o, name, args, kw, st))
        if not objs:
            r = join(r, self.scalar_method(node, selfv, name, args, kw, st))
        if ip.pixel: r = pixel.method_result(self, node, selfv, name, args, kw, st, r)
        return r

    def scalar_method(self, node, v, name, args, kw, st):
        d = v.deps | self.deps(st, *self.allargs(args, kw))
        if name in ("astype", "copy", "item", "tolist", "flatten", "ravel", "round", "squeeze", "reshape", "view"): return v.w(deps=v.deps | d)
        if name in ("lower", "upper", "strip", "rstrip", "lstrip"):
            if v.consts and not v.unk and all(t == "str" for t, _ in v.consts) and not args:
                return v.w(consts=frozenset(("str", getattr(c, name)()) for t, c in v.consts))
            return V(unk=True, deps=d, ctl=v.ctl)
        if name in ("startswith", "endswith", "isnumeric", "isdigit"):
            try:
                c = v.single_const(); a = args[0].single_const() if args else None
                if isinstance(c, str): return const(getattr(c, name)(a) if args else getattr(c, name)(), deps=d)
            except (KeyError, TypeError): pass
            return V(consts=frozenset([("bool", True), ("bool", False)]), deps=d)
        if name in ("any", "all"): return v.w(deps=d)
        if name in ("sum", "mean", "min", "max"): return v
        return V(unk=True, deps=d, unit=U_TOP)

    def method1(self, node, o, name, args, kw, st):
        ip = self.ip
        k = o.kind
        ov = V(refs=frozenset([o.id]))
        d = self.deps(st, *self.allargs(args, kw))
        if k in ("array", "opaque"):
            ext = o.get("exttype") if k == "opaque" else None
            if ext is not None and not o.get("axes"):
                full = ext + "." + name
                ip.emit("extcall", node, name=full, args=args, kw=kw, st=st, self_=ov)
                h = EXT.get(full)
                dd = d | ip.obj_content(st, o).deps
                if h is not None: return h(self, node, args, kw, st, dd)
                if name in ("starmap", "map"): return self.starmap(node, args, kw, st, name == "starmap")
                if name in ("submit", "apply_async", "apply") and args and any(x.kind in ("func", "bound", "class") for x in ip.objs(st, args[0])):
                    wa = list(args[1:]) if name == "submit" else self.spread(st, args[1]) if len(args) > 1 else []
                    ip.emit("worker", node, func=args[0], args=wa, st=st)
                    memo = {}
                    wa = [("star", self.deepcopy(st, q[1], memo, node)) if isinstance(q, tuple) else self.deepcopy(st, q, memo, node) for q in wa]
                    r = ip.call(node, args[0], wa, kw if name == "submit" else {}, st)
                    return r if name == "apply" else ip.alloc(st, node, "list", tag=":future", items=[r], future=True)
                if name not in ARR_METHODS:
                    if name == "get" : return V(unk=True, deps=dd, unit=U_TOP).w(consts=frozenset([("NoneType", None)]) if len(args) < 2 else E, refs=args[1].refs if len(args) > 1 else E)
                    return self.opaque(st, node, dd, full + "()")
            return self.array_method(node, o, ov, name, args, kw, st, d)
        if o.get("future") and name in ("result", "get"): return o.get("items")[0] if o.get("items") else UNK
        if k in ("list", "set", "tuple", "gen"):
            its = o.get("items"); rest = o.get("rest")
            if name in ("append", "add"):
                ip.emit("mutate", node, obj=o, how=name, value=args[0] if args else UNK, st=st)
                v = ip.withctl(args[0])
                if its is not None and not o.get("summary") and not any(f.loops and f.loops[-1][1] == "iter" for f in ip.frames[-1:]) and len(its) < 24: ip.put(st, o.w(items=list(its) + [v]))
                else: ip.put(st, o.w(llen=grown(o, node), lsum=None, items=None, rest=joinall((its or []) + ([rest] if rest is not None else []) + [v])))
                return NONE
            if name in ("extend", "update"):
                ip.emit("mutate", node, obj=o, how=name, value=args[0], st=st)
                kn = ip.known_items(st, args[0])
                if kn is not None and its is not None and not o.get("summary") and not any(f.loops and f.loops[-1][1] == "iter" for f in ip.frames[-1:]): ip.put(st, o.w(items=list(its) + kn))
                else: ip.put(st, o.w(llen=grown(o, node), lsum=None, items=None, rest=joinall((its or []) + ([rest] if rest is not None else []) + [ip.element(st, args[0])])))
                return NONE
            if name == "insert":
                ip.emit("mutate", node, obj=o, how=name, value=args[1], st=st)
                try:
                    i = args[0].single_const()
                    if its is None or o.get("summary") or ip.frames[-1].loops: raise KeyError
                    l = list(its); l.insert(i, args[1]); ip.put(st, o.w(items=l))
                except KeyError:
                    ip.put(st, o.w(llen=grown(o, node), lsum=None, items=None, rest=joinall((its or []) + ([rest] if rest is not None else []) + [args[1]])))
                return NONE
            if name in ("pop",):
                ip.emit("mutate", node, obj=o, how=name, value=None, st=st)
                e = ip.element(st, ov)
                ip.put(st, o.w(items=None, rest=e, llen=grown(o, node), lsum=None)) if not e.is_bottom else None
                return e
            if name in ("remove", "sort", "reverse", "clear", "discard"):
                ip.emit("mutate", node, obj=o, how=name, value=None, st=st)
                e = ip.element(st, ov)
                if name == "clear": ip.put(st, o.w(items=[], rest=None))
                elif not e.is_bottom: ip.put(st, o.w(items=None, rest=e))
                return NONE
            if name == "copy": return ip.alloc(st, node, k, tag=":cp", items=list(its) if its is not None else None, rest=rest)
            if name in ("index", "count"): return V(unk=True, deps=d | ip.alldeps(st, ov))
            return V(unk=True, deps=d | ip.alldeps(st, ov))
        if k == "dict":
            items = o.get("items") or {}
            if name == "get":
                return ip.dict_get(st, o, args[0], node, default=args[1] if len(args) > 1 else NONE)
            if name == "items":
                pairs = []
                if o.get("rest") is None and not o.get("root") and not o.get("summary") and len(items) <= 24:
                    for i, (kk, vv) in enumerate(items.items()): pairs.append(ip.alloc(st, node, "tuple", tag=f":it{i}", items=[const(kk), vv]))
                    return ip.alloc(st, node, "list", tag=":items", items=pairs)
                p = ip.alloc(st, node, "tuple", tag=":it", items=[joinall([const(x) for x in items] + [V(unk=True, deps=frozenset([o.get("root")]) if o.get("root") else E)] + ([o.get("keys")] if o.get("keys") is not None else [])), joinall(list(ip.dict_values(st, ov)))])
                return ip.alloc(st, node, "list", tag=":items", items=None, rest=p)
            if name == "keys":
                if o.get("rest") is None and not o.get("root"): return ip.alloc(st, node, "list", tag=":keys", items=[const(x) for x in items])
                return ip.alloc(st, node, "list", tag=":keys", items=None, rest=joinall([const(x) for x in items] + [V(unk=True)]))
            if name == "values":
                if o.get("rest") is None and not o.get("root"): return ip.alloc(st, node, "list", tag=":vals", items=list(items.values()))
                return ip.alloc(st, node, "list", tag=":vals", items=None, rest=joinall(list(ip.dict_values(st, ov))))
            if name == "update":
                ip.emit("mutate", node, obj=o, how=name, value=args[0] if args else None, st=st)
                ni = dict(items); rest = o.get("rest")
                for x in args:
                    for p in ip.objs(st, x):
                        if p.kind == "dict":
                            ni.update(p.get("items") or {})
                            if p.get("rest") is not None: rest = joinall([z for z in (rest, p.get("rest")) if z is not None])
                            if p.get("root"): rest = joinall([z for z in (rest, ip.root(st, p.get("root") + "[*]", {})) if z is not None])
                        else: rest = joinall([z for z in (rest, UNK) if z is not None])
                ni.update(kw)
                ip.put(st, o.w(items=ni, rest=rest))
                return NONE
            if name in ("pop", "setdefault", "popitem", "clear"):
                ip.emit("mutate", node, obj=o, how=name, value=None, st=st)
                if name == "clear": ip.put(st, o.w(items={}, rest=None)); return NONE
                r = ip.dict_get(st, o, args[0] if args else UNK, node, default=args[1] if len(args) > 1 else UNK)
                if name == "setdefault" and len(args) > 1:
                    try:
                        c = args[0].single_const()
                        if c not in items:
                            ni = dict(items); ni[c] = args[1]; ip.put(st, o.w(items=ni)); return args[1]
                    except KeyError: ip.put(st, o.w(rest=joinall([z for z in (o.get("rest"), args[1]) if z is not None])))
                elif name == "pop":
                    try:
                        c = args[0].single_const(); ni = dict(items); ni.pop(c, None); ip.put(st, o.w(items=ni))
                    except KeyError: pass
                return r
            if name == "copy": return ip.alloc(st, node, "dict", tag=":cp", items=dict(items), rest=o.get("rest"), keys=o.get("keys"))
            return UNK
        if k == "inst":
            ip.emit("extcall", node, name="inst." + name, args=args, kw=kw, st=st, self_=ov)
            return self.opaque(st, node, d | ip.alldeps(st, ov), "inst." + name + "()")
        if k == "meth":
            return self.opaque(st, node, d, name + "()")
        return UNK

    def array_method(self, node, o, ov, name, args, kw, st, d):
        ip = self.ip
        c = ip.obj_content(st, o)
        axes = o.get("axes")
        if name in ("copy", "flatten", "__array__"):
            na = axes if name != "flatten" else ("?",)
            if o.kind == "opaque" and o.get("root") is not None and axes is None:
                # deep copy of an opaque input
                return ip.new_array(st, node, c, None, tag=":copy" + tagof(o.id), dtype=o.get("dtype"))
            return ip.new_array(st, node, c, na, tag=":copy" + tagof(o.id), dtype=o.get("dtype"), copyof=o.get("root") or o.get("copyof"))
        if name == "astype":
            cp = kw.get("copy")
            dn = self.dtype_name(st, self.arg(args, kw, 0, "dtype"))
            ip.emit("astype", node, x=ov, content=c, dtype=dn, st=st)
            if ip.sysorder: c = self.reorder(st, c, self.arg(args, kw, 0, "dtype"), convert=True)
            n = ip.new_array(st, node, c.w(consts=c.consts), axes, dtype=dn, tag=":as")
            if cp is not None and any(t == "bool" and not x for t, x in cp.consts): return join(ov, n)
            return n
        if name in ("sum", "mean", "std", "var", "min", "max", "any", "all", "prod", "argmax", "argmin", "ptp"):
            return self.reduce(node, name, ov, args, kw, st, first=0)
        if name == "reshape":
            na = self.reshape_axes(st, axes, args[0] if args else kw.get("shape"), args[1:])
            return self.view(st, node, o, na, tag=":rs")
        if name in ("ravel",): return self.view(st, node, o, ("?",), tag=":rv")
        if name == "transpose": return self.view(st, node, o, tuple(reversed(axes)) if axes is not None and not args else None, tag=":tr")
        if name == "swapaxes": return self.view(st, node, o, self.swapped(axes, args, kw) if axes else None, tag=":sw")
        if name in ("squeeze", "diagonal"): return self.view(st, node, o, None, tag=":sq")
        if name == "view":
            if ip.sysorder and (args or kw):
                return ip.new_array(st, node, self.reorder(st, c, self.arg(args, kw, 0, "dtype"), convert=False), axes, dtype=o.get("dtype"))
            return self.view(st, node, o, axes, tag=":view", byteview=bool(args or kw))
        if name == "byteswap":
            if ip.sysorder:
                c = c.w(tags=c.tags ^ frozenset(["ord:swapped"]))
                if not args and not kw: return ip.new_array(st, node, c, axes, dtype=o.get("dtype"))
            ip.emit("byteswap", node, x=ov, st=st, inplace=args[0] if args else kw.get("inplace"))
            inp = args[0] if args else kw.get("inplace")
            if inp is not None and any(x for t, x in inp.consts if t == "bool"):
                self.write_arg(node, ov, c, st, "byteswap")
                return ov
            return ip.new_array(st, node, c, axes)
        if name in ("fill", "itemset", "put", "setfield"):
            v = args[-1] if args else UNK
            own = ip.owner(st, o)
            new = ip.withctl(ip.content(st, v))
            ip.emit("store", node, obj=o, owner=own, idx=None, value=v, rhs=v, aug=None, old=c, how=name, full=name == "fill", st=st, vcontent=new, idxdeps=E, target=ov)
            if own is not None:
                cc = new if (own is o and name == "fill" and not own.get("summary")) else join(own.get("content") or BOT, new)
                ip.put(st, own.w(content=cc, written=True))
            return NONE
        if name in ("sort", "partition", "resize", "setflags"):
            if name != "setflags": self.write_arg(node, ov, c, st, name)
            return NONE
        if name in ("tolist", "item"):
            return V(unk=True, deps=c.deps, ctl=c.ctl, unit=c.unit, bits=c.bits, tags=c.tags) if name == "item" else ip.alloc(st, node, "list", tag=":tl", items=None, rest=c)
        if name in ("cumsum", "clip", "round", "repeat", "take", "conj"):
            return ip.new_array(st, node, c.w(deps=c.deps | d, sym=None), axes if name not in ("repeat", "take") else None)
        if name in ("argsort", "nonzero"):
            return self._call_np(node, name, [ov] + list(args), kw, st, [ov], ov)
        if name == "dot": return self._call_np(node, "dot", [ov] + list(args), kw, st, [ov] + list(args), ov)
        if name in ("tofile", "tobytes"): return NONE
        if name == "newbyteorder" and ip.sysorder and o.get("order"):
            k = args[0] if args else kw.get("new_order")
            try: k = (k.single_const() if k is not None else "S")
            except (KeyError, TypeError, AttributeError): k = "S"
            cur = o.get("order")
            nat = "<" if ip.sysorder == "little" else ">"
            k = {"native": "=", "N": "=", "I": "same", "little": "<", "L": "<", "big": ">", "B": ">"}.get(k, k)
            new = cur if k == "same" or cur == "|" else (({"<": ">", ">": "<", "=": ">" if nat == "<" else "<"}[cur]) if k in ("S", "s", "swap") else k)
            if new == nat: new = "="
            return ip.alloc(st, node, "opaque", tag=":nbo" + new, content=V(unk=True), order=new, dtypeof=o.get("dtypeof"))
        if name == "newbyteorder": return ip.alloc(st, node, "opaque", tag=":nbo", content=V(unk=True), exttype="dtype.newbyteorder()")
        if name == "get":
            key = args[0] if args else UNK
            dflt = args[1] if len(args) > 1 else NONE
            try:
                cst = key.single_const()
                items = o.get("items") or {}
                v = items.get(cst) if cst in items else (ip.root_child(st, o, cst, "item") if o.get("root") else None)
                if v is not None:
                    sp = ip.root_specs.get(f"{o.get('root')}[{cst}]")
                    return v if sp is not None and not sp.get("optional") else join(v, dflt)
            except KeyError: pass
            return join(V(unk=True, deps=c.deps | d, unit=U_TOP), dflt)
        if name in ("items", "keys", "values"):
            e = ip.element(st, ov) if o.get("root") else V(unk=True, deps=c.deps)
            if name == "items": e = ip.alloc(st, node, "tuple", tag=":it", items=[V(unk=True, deps=c.deps), e])
            elif name == "keys": e = V(unk=True, deps=c.deps)
            return ip.alloc(st, node, "list", tag=":" + name, items=None, rest=e)
        if name in ("update", "setdefault", "pop"):
            ip.emit("mutate", node, obj=o, how=name, value=args[0] if args else None, st=st)
            return V(unk=True, deps=c.deps | d, unit=U_TOP)
        if o.get("root"):
            return self.unknown_call(node, V(deps=frozenset([o.get("root") + "." + name])), args, kw, st)
        return self.opaque(st, node, d | c.deps, (o.get("exttype") or "?") + "." + name + "()")

    # ---------------------------------------------------------------- builtins
    def call_builtin(self, node, fn, args, kw, st):
        ip = self.ip
        vals = self.allargs(args, kw)
        a0 = vals[0] if vals else None
        d = self.deps(st, *vals) if fn not in ("len", "isinstance", "hasattr", "range", "enumerate", "zip", "list", "tuple", "super", "type") else E
        if fn == "len":
            k = ip.known_items(st, a0)
            if k is not None: return const(len(k), deps=a0.deps)
            rows = list(ip.objs(st, a0))
            if rows and not a0.unk and all(o.get("exttype") == "Rows" for o in rows): return const(1000, deps=a0.deps)
            rs = BOT
            for o in ip.objs(st, a0):
                if o.kind == "inst" and ip.find_method(st, o, "__len__") is not None:
                    rs = join(rs, ip.call(node, ip.find_method(st, o, "__len__"), [V(refs=frozenset([o.id]))], {}, st)); continue
                if o.kind in ("array", "opaque") and o.get("axes") is not None and o.get("axes"):
                    l = o.get("axes")[0]
                    rs = join(rs, V(unk=True, ax=("len", A.base(l)) if A.known(l) else None, sym=Lin.sym("N" + l) if A.known(l) and not l.endswith("'") else None,
                                    deps=frozenset(["shape:" + o.get("root")]) if o.get("root") else ip.obj_content(st, o).deps))
                elif o.kind in ("list", "tuple") and o.get("items") is not None:
                    rs = join(rs, const(len(o.get("items"))))
                elif o.kind == "tuple" and o.get("items") is None and o.get("rest") is not None and (o.get("rest").ax or o.get("rest").deps and any(x.startswith("shape:") for x in o.get("rest").deps)):
                    rs = join(rs, V(unk=True, deps=o.get("rest").deps))
                elif o.kind == "dict": rs = join(rs, V(unk=True, deps=ip.alldeps(st, V(refs=frozenset([o.id])))))
                else: rs = join(rs, V(unk=True, deps=ip.alldeps(st, V(refs=frozenset([o.id])))))
            if a0.unk or rs.is_bottom: rs = join(rs, V(unk=True, deps=a0.deps))
            if a0.may_none(): ip.emit("none_arith", node, value=a0, op="len", st=st)
            if rs.sym is None: rs = rs.w(sym=ip.list_len(st, a0))
            return rs.w(deps=rs.deps | a0.deps, ctl=rs.ctl | a0.ctl)
        if fn == "range":
            a = [x for x in vals]
            a3 = (None, a[0], None) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else None)
            for x in a:
                if x.may_none(): ip.emit("none_arith", node, value=x, op="range", st=st)
            dd = E
            for x in a: dd = dd | x.deps | x.ctl
            ip.emit("range", node, args3=a3, st=st)
            return ip.alloc(st, node, "range", args3=a3).w(deps=dd)
        if fn in ("int", "float", "bool", "complex"):
            if a0 is None: return const(0)
            if a0.may_none() and fn != "bool": ip.emit("none_arith", node, value=a0, op=fn, st=st)
            c = ip.content(st, a0)
            if fn == "bool":
                tv = ip.truth(st, a0)
                return const(tv, deps=d) if tv is not None else V(consts=frozenset([("bool", True), ("bool", False)]), deps=d)
            try:
                cc = c.single_const()
                if isinstance(cc, (int, float)) and not isinstance(cc, bool): return const(int(cc) if fn == "int" else float(cc), deps=c.deps, ctl=c.ctl, bits=c.bits).w(unit=c.unit)
                if isinstance(cc, str) and fn == "float" and cc.lower() == "nan": return self.ext_const("numpy.nan")
            except (KeyError, ValueError, OverflowError): pass
            return V(unk=True, deps=c.deps, ctl=c.ctl, unit=c.unit, bits=c.bits, keep=c.keep, sym=(quot("int", c.sym) or c.sym) if fn == "int" and c.sym is not None else None, ax=c.ax, tags=c.tags)
        if fn in ("min", "max"):
            if len(vals) == 1:
                x = ip.content(st, a0)
                ip.emit("reduce", node, fn=fn, x=a0, content=x, axes=self.axes_of(st, a0), removed=None, st=st, kw=kw)
                k = ip.known_items(st, a0)
                if k is not None and len(k) >= 2 and not kw: return self.minmax2(node, fn, k, st)
                e = ip.element(st, a0)
                return e.w(consts=E, unk=True, sym=None, refs=e.refs)
            pos = [a for a in args if isinstance(a, V)]
            return self.minmax2(node, fn, pos, st)
        if fn == "abs":
            return self._call_np(node, "abs", args, kw, st, vals, a0)
        if fn == "round":
            c = ip.content(st, a0)
            return self.result(node, st, c.w(consts=E, unk=True, sym=None), self.axes_of(st, a0), (a0,))
        if fn == "sum":
            k = ip.known_items(st, a0)
            c = ip.content(st, a0)
            ip.emit("reduce", node, fn="sum", x=a0, content=c, axes=self.axes_of(st, a0), removed=None, st=st, kw=kw)
            ax = self.axes_of(st, a0)
            if ax is not None and len(ax) > 1: return ip.new_array(st, node, c.w(consts=E, unk=True, sym=None), ax[1:])
            e = ip.element(st, a0)
            if e.refs:
                return ip.new_array(st, node, ip.content(st, e).w(consts=E, unk=True, sym=None), self.axes_of(st, e))
            return c.w(consts=E, unk=True, sym=None, ax=None, deps=c.deps | d)
        if fn in ("any", "all"):
            c = ip.content(st, a0)
            return V(consts=frozenset([("bool", True), ("bool", False)]), deps=d, tags=c.tags)
        if fn == "zip":
            vals = [a for a in args if isinstance(a, V)]
            ks = [ip.known_items(st, x) for x in vals]
            kn = [len(k) for k in ks if k is not None]
            if vals and kn and max(kn) <= 8 and len(set(kn)) == 1 and len(vals) == len(args):
                ks = [k if k is not None else self.fresh_elems(node, ip.element(st, x), kn[0]) for k, x in zip(ks, vals)]
                ip.emit("zip", node, args=vals, st=st)
            if vals and all(k is not None for k in ks):
                n = min(len(k) for k in ks)
                return ip.alloc(st, node, "list", items=[ip.alloc(st, node, "tuple", tag=f":z{i}", items=[k[i] for k in ks]) for i in range(n)], zipped=True)
            t = ip.alloc(st, node, "tuple", tag=":z", items=[ip.element(st, x) for x in vals])
            ip.emit("zip", node, args=vals, st=st)
            return ip.alloc(st, node, "list", items=None, rest=t)
        if fn == "enumerate":
            k = ip.known_items(st, a0)
            start = self.arg(args, kw, 1, "start")
            s0 = 0
            if start is not None:
                try: s0 = start.single_const()
                except KeyError: k = None
            if k is not None and len(k) <= 12:
                return ip.alloc(st, node, "list", items=[ip.alloc(st, node, "tuple", tag=f":e{i}", items=[const(i + s0), x]) for i, x in enumerate(k)])
            lab = None
            for o in ip.objs(st, a0):
                if o.kind in ("array", "opaque") and o.get("axes"): lab = o.get("axes")[0]
            i = V(unk=True, deps=a0.deps, sym=ip.counter(f"k@{sorted(a0.refs)[0] if a0.refs else ''}@{getattr(node, 'lineno', 0)}", ip.list_len(st, a0)), ax=("idx", A.base(lab)) if lab and A.known(lab) else None)
            t = ip.alloc(st, node, "tuple", tag=":e", items=[i, ip.element(st, a0)])
            return ip.alloc(st, node, "list", items=None, rest=t)
        if fn in ("list", "tuple", "set", "sorted", "reversed", "iter", "frozenset"):
            kind = {"sorted": "list", "reversed": "list", "iter": "gen", "frozenset": "set"}.get(fn, fn)
            if a0 is None: return ip.alloc(st, node, kind, items=[])
            k = ip.known_items(st, a0)
            if k is not None and fn not in ("set", "sorted", "frozenset"):
                if fn == "reversed": k = list(reversed(k))
                return ip.alloc(st, node, kind, tag=":" + fn, items=list(k)).w(deps=a0.deps)
            return ip.alloc(st, node, kind, tag=":" + fn, items=None, rest=ip.element(st, a0)).w(deps=a0.deps)
        if fn == "dict":
            items = {k: v for k, v in kw.items() if k != "**"}; rest = kw.get("**")
            keys = None
            if a0 is not None and args:
                for o in ip.objs(st, a0):
                    if o.kind == "dict":
                        m = dict(o.get("items") or {}); m.update(items); items = m
                        if o.get("rest") is not None: rest = o.get("rest"); keys = o.get("keys")
                        if o.get("root"):
                            return ip.alloc(st, node, "dict", items=items, rest=joinall([ip.root(st, o.get("root") + "[*]", {})] + ([rest] if rest is not None else [])))
                    else:
                        pairs = ip.known_items(st, a0); got = {}
                        try:
                            for p in pairs if pairs is not None else [None]:
                                kv = ip.known_items(st, p)
                                got[kv[0].single_const()] = kv[1]
                            got.update(items); items = got
                        except (KeyError, TypeError, IndexError, AttributeError): rest = UNK
            return ip.alloc(st, node, "dict", items=items, rest=rest, keys=keys)
        if fn == "isinstance":
            return self.isinst(node, args, st)
        if fn == "hasattr":
            try: nm = args[1].single_const()
            except KeyError: nm = None
            if nm is not None and not a0.unk:
                rs = set()
                for t, c in a0.consts: rs.add(hasattr(c, nm) if t in ("NoneType", "int", "float", "str", "bool") else None)
                for o in ip.objs(st, a0):
                    if o.kind == "inst":
                        if nm in (o.get("attrs") or {}) and not o.get("summary"): rs.add(True)
                        elif ip.find_method(st, o, nm) is not None: rs.add(True)
                        elif not o.get("summary") and not o.get("extbase") and not o.get("lazycopy") and isinstance(o.get("cls"), str) and \
                                not ip.ext_bases(st, ip.obj(st, o.get("cls"))) and ip.find_method(st, o, "__getattr__") is None: rs.add(False)
                        else: rs.add(None)
                    elif o.get("root") and f"{o.get('root')}.{nm}" in ip.root_specs and not ip.root_specs[f"{o.get('root')}.{nm}"].get("optional") and o.get("rowdeps") is None and ip.want_hasattr: rs.add(True)
                    else: rs.add(None)
                if len(rs) == 1 and None not in rs: return const(rs.pop(), deps=a0.deps)
            return V(consts=frozenset([("bool", True), ("bool", False)]), deps=a0.deps)
        if fn == "getattr":
            try:
                nm = args[1].single_const()
                save = ip.handlers
                if len(args) > 2: ip.handlers = {k: h for k, h in save.items() if k not in ("noattr",)}
                try: v = ip.getattr(st, args[0], nm, node, quiet=len(args) > 2)
                finally: ip.handlers = save
                if len(args) > 2: v = join(v, args[2])
                return v
            except KeyError:
                return V(unk=True, deps=d, unit=U_TOP)
        if fn == "setattr":
            try: ip.setattr(st, args[0], args[1].single_const(), args[2], node)
            except KeyError: ip.emit("setattr", node, objs=list(ip.objs(st, args[0])), name="*", value=args[2], base=args[0], st=st, aug=None)
            return NONE
        if fn == "delattr":
            ip.emit("setattr", node, objs=list(ip.objs(st, args[0])), name="*", value=NONE, base=args[0], st=st, aug=None); return NONE
        if fn == "super":
            fr = ip.frames[-1]
            for f in reversed(ip.frames):
                c = None
                # find class of the current function
                for o in list(ip.static.values()) + list(st.heap.values()):
                    pass
                break
            return self.super_(node, st)
        if fn == "str" and a0 is not None:
            for o in ip.objs(st, a0):
                if isinstance(o.get("text"), str) and len(a0.refs) == 1: return const(o.get("text"))
        if fn in ("str", "repr", "format", "ascii", "chr", "hex", "bin"):
            try:
                c = a0.single_const() if a0 is not None else ""
                if isinstance(c, str): return a0
            except KeyError: pass
            return V(unk=True, deps=d)
        if fn == "print": return NONE
        if fn == "type":
            r = BOT
            for o in ip.objs(st, a0):
                if o.kind == "inst": r = join(r, V(refs=frozenset([o.get("cls")])))
            return r if not r.is_bottom else self.opaque(st, node, a0.deps, "type()")
        if fn in ("map", "filter"):
            e = ip.element(st, args[1]) if len(args) > 1 else UNK
            r = ip.call(node, args[0], [e], {}, st) if not args[0].only_none() else UNK
            return ip.alloc(st, node, "list", tag=":map", items=None, rest=r if fn == "map" else e)
        if fn == "next":
            e = ip.element(st, a0)
            return join(e, args[1]) if len(args) > 1 else e
        if fn == "slice":
            a = list(vals)
            a3 = (None, a[0], None) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else None)
            a3 = tuple(None if x is not None and x.only_none() else x for x in a3)
            return ip.alloc(st, node, "slice", args3=a3)
        if fn in ("callable", "issubclass"): return V(consts=frozenset([("bool", True), ("bool", False)]), deps=d)
        if fn in ("divmod", "pow"): return V(unk=True, deps=d)
        if fn == "open": return self.opaque(st, node, d, "builtins.open()")
        if fn == "id": return V(unk=True, deps=frozenset(["ext:builtins.id"]))
        if fn == "hash": return V(unk=True, deps=d)
        if fn == "vars": return ip.getattr(st, a0, "__dict__", node) if a0 is not None else UNK
        if fn in ("globals", "locals"):
            ip.emit("reflect", node, name=fn, st=st); return UNK
        return self.opaque(st, node, d, "builtins." + fn + "()")

    def super_(self, node, st):
        ip = self.ip
        fr = ip.frames[-1]
        for k, f in list(ip.static.items()) + list(st.heap.items()):
            if f.kind == "func" and f.get("node") is fr.node and f.get("cls"):
                cls = ip.obj(st, f.get("cls"))
                selfname = fr.node.args.args[0].arg
                sv = st.frames[fr.fid].get(selfname, UNK)
                for b in cls.get("bases"):
                    for o in ip.objs(st, b):
                        if o.kind == "class":
                            # proxy instance sharing the object but looking methods up on the base
                            oid = f"super:{o.id}:{'|'.join(sorted(sv.refs))}"
                            st.heap[oid] = Obj(oid, "superproxy", self=sv, basecls=o.id)
                            return V(refs=frozenset([oid]))
                return self.opaque(st, node, sv.deps, "super()")
        return UNK

    def isinst(self, node, args, st):
        for o in self.ip.objs(st, args[0]):
            if (o.get("label") or "").startswith("exc:") and len(args[0].refs) == 1:
                return const(self.ip.exc_match(st, o.get("label")[4:], args[1]))
        ip = self.ip
        v, cl = args[0], args[1]
        names = set(); classes = set()
        def collect(c):
            for o in ip.objs(st, c):
                if o.kind == "ext": names.add(o.get("name"))
                elif o.kind == "class": classes.add(o.id)
                elif o.kind in ("tuple", "list"):
                    for x in (o.get("items") or []): collect(x)
        collect(cl)
        res = set()
        for o in ip.objs(st, v):
            if o.kind == "inst":
                c = ip.obj(st, o.get("cls")) if o.get("cls") else None
                if c is None: res.add(None); continue
                if self.subclass(st, c, classes): res.add(True)
                elif ip.ext_bases(st, c) and names: res.add(None)
                else: res.add(False if not o.get("root") else None)
            elif o.kind == "array":
                res.add("numpy.ndarray" in names if (names and not (names & {"astropy.units.Quantity"})) else (None if names & {"astropy.units.Quantity"} and o.get("root") else False))
            elif o.kind in ("list", "tuple", "dict", "set"): res.add("builtins." + o.kind in names)
            elif o.kind in ("func", "class", "module"): res.add(False)
            else: res.add(None)
        TY = {"str": "builtins.str", "int": "builtins.int", "float": "builtins.float", "bool": "builtins.bool"}
        for t, c in v.consts:
            if t in TY: res.add(TY[t] in names or (t == "bool" and "builtins.int" in names))
            elif t == "NoneType": res.add(False)
            else: res.add(None)
        if v.unk: res.add(None)
        ip.emit("isinstance", node, v=v, names=names, classes=classes, st=st)
        if len(res) == 1 and None not in res: return const(res.pop(), deps=v.deps)
        return V(consts=frozenset([("bool", True), ("bool", False)]), deps=v.deps)

    def subclass(self, st, c, targets):
        if c.id in targets: return True
        for b in c.get("bases"):
            for o in self.ip.objs(st, b):
                if o.kind == "class" and self.subclass(st, o, targets): return True
        return False

    def minmax2(self, node, fn, vals, st):
        ip = self.ip
        for v in vals:
            if v.may_none(): ip.emit("none_arith", node, value=v, op=fn, st=st)
        r = self.minmax(node, vals, st)
        cs = [ip.content(st, v) for v in vals]
        try:
            ks = [v.single_const() for v in vals]
            return const(min(ks) if fn == "min" else max(ks), deps=r.deps, ctl=r.ctl)
        except (KeyError, TypeError): pass
        if all(c.sym is not None for c in cs) and not r.refs:
            r = r.w(sym=struct(fn, *[c.sym for c in cs]))
        elif not r.refs and not ip.frames[-1].loops:
            r = r.w(sym=Lin.sym(f"{fn}@{getattr(node, 'lineno', 0)}@{ip.frames[-1].fid}"))
        axs = {c.ax for c in cs if c.ax}
        if len(axs) == 1 and not r.refs: r = r.w(ax=next(iter(axs)))
        else:
            labs = {c.ax[1] for c in cs if c.ax}
            if len(labs) == 1 and not r.refs: r = r.w(ax=("idx", next(iter(labs))))
            elif len(labs) > 1 and not r.refs: ip.emit("axis_arith", node, op=fn, a=cs[0].ax, b=cs[-1].ax, st=st)
        return r


DT = {"f4": "float32", "f8": "float64", "float": "float64", "int": "int64", "bool": "bool", "bool_": "bool", "u4": "uint32", "u1": "uint8",
      "i4": "int32", "f": "float32", "d": "float64", "double": "float64", "single": "float32"}
IMPURE = {"datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "datetime.now", "datetime.utcnow",
          "os.getpid", "os.getenv", "os.getcwd", "socket.gethostname", "astropy.time.Time.now", "os.urandom", "id", "os.times", "resource.getrusage"}
IMPURE_PREFIX = ("random.", "os.environ", "secrets.", "time.", "uuid.", "platform.", "numpy.random.", "scipy.stats.rv")
EXT = {}


def ext(name):
    def deco(f):
        EXT[name] = f
        return f
    return deco


def flagbits(b):
    return b is not None and any(x.startswith("F:") for x in b)


def drop_lit(b):
    if b is None: return None
    r = frozenset(x for x in b if not x.startswith("L:"))
    return r or None


def fold(o, a, b):
    try:
        if o == "+": return a + b
        if o == "-": return a - b
        if o == "*": return a * b
        if o == "/": return a / b
        if o == "//": return a // b
        if o == "%": return a % b
        if o == "**": return a ** b if abs(b) < 64 and abs(a) < 1e6 else None
        if o == "|": return a | b
        if o == "&": return a & b
        if o == "^": return a ^ b
        if o == "<<": return a << b if b < 64 else None
        if o == ">>": return a >> b
        if o == "<": return a < b
        if o == "<=": return a <= b
        if o == ">": return a > b
        if o == ">=": return a >= b
        if o == "==": return a == b
        if o == "!=": return a != b
    except Exception: return None
    return None


@ext("multiprocessing.cpu_count")
def _cpu(m, node, args, kw, st, d): return V(unk=True, deps=frozenset(["env:cpu_count"]), unit=U_POLY, sym=Lin.sym("cpu_count"))


@ext("time.time")
def _time(m, node, args, kw, st, d): return V(unk=True, deps=frozenset(["ext:time.time"]), unit=U_TOP)


@ext("os.environ.get")
def _env(m, node, args, kw, st, d): return V(unk=True, deps=frozenset(["ext:os.environ"]), unit=U_TOP)


@ext("astropy.stats.sigma_clip")
def _sigclip(m, node, args, kw, st, d):
    c = m.ip.content(st, args[0])
    cp = kw.get("copy")
    if cp is not None and any(t == "bool" and not x for t, x in cp.consts):
        m.write_arg(node, args[0], c, st, "ext:sigma_clip(copy=False)")
    return m.ip.new_array(st, node, c.w(deps=d, sym=None), m.axes_of(st, args[0]))


@ext("astropy.stats.sigma_clipped_stats")
def _sigcs(m, node, args, kw, st, d):
    ip = m.ip
    c = ip.content(st, args[0])
    ip.emit("reduce", node, fn="nansigma_clipped_stats", x=args[0], content=c, axes=m.axes_of(st, args[0]), removed=None, st=st, kw=kw)
    its = []
    ax = kw.get("axis")
    axes = m.axes_of(st, args[0])
    na = None
    if ax is not None and axes is not None:
        try:
            n = ax.single_const(); na = tuple(l for i, l in enumerate(axes) if i != n % len(axes))
        except KeyError:
            ks = ip.known_items(st, ax)
            try:
                ns = [k.single_const() % len(axes) for k in ks] if ks else None
                na = tuple(l for i, l in enumerate(axes) if i not in ns) if ns else None
            except KeyError: na = None
    for i in range(3):
        if ax is None: its.append(V(unk=True, deps=d, unit=c.unit, ctl=c.ctl))
        else: its.append(ip.new_array(st, node, V(unk=True, deps=d, unit=c.unit, ctl=c.ctl), na, tag=f":scs{i}"))
    return ip.alloc(st, node, "tuple", tag=":scs", items=its)


_cinfo = {}


def c_interface():
    """(attributes the compiled fitter reads from the ramp object, [image keys, integ keys, opt keys]) from its source"""
    from . import cfront
    key = cfront.CFILE
    if key not in _cinfo:
        u = cfront.CUnit()
        attrs = sorted({a for a, _, _, _ in cfront.attr_reads(u)})
        dicts = []
        for fd in u.funcs.values():
            for n in cfront.walk(fd.body):
                if cfront.callname(n) == "Py_BuildValue" and n.args:
                    f = n.args.exprs[0]
                    if isinstance(f, cfront.c_ast.Constant) and f.value.strip('"').startswith("{"):
                        ks = [cfront.strip(x).value.strip('"') for x in n.args.exprs[1::2] if isinstance(cfront.strip(x), cfront.c_ast.Constant)]
                        dicts.append(ks)
        opt = [k for k in dicts if "sigslope" in k or "crmag" in k] or [["slope", "sigslope", "var_poisson", "var_rnoise", "yint", "sigyint", "pedestal", "weights", "crmag"]]
        rest = [k for k in dicts if k not in opt] or [["slope", "dq", "var_poisson", "var_rnoise", "err"]]
        _cinfo[key] = (attrs, [rest[0], rest[-1], opt[0]])
    return _cinfo[key]


RATE = unit(ct=1, s=-1)
VRATE = unit(ct=2, s=-2)
C_UNITS = {"slope": RATE, "err": RATE, "var_poisson": VRATE, "var_rnoise": VRATE, "sigslope": RATE, "yint": unit(ct=1),
           "sigyint": unit(ct=1), "pedestal": unit(ct=1), "crmag": unit(ct=1), "dq": U_POLY}


@ext("stcal.ramp_fitting.slope_fitter.ols_slope_fitter")
def _slope_fitter(m, node, args, kw, st, d):
    ip = m.ip
    attrs, keys = c_interface()
    ramp = args[0] if args else UNK
    dd = E; keep = None; ctl = E
    for a in args[1:] + list(kw.values()): dd = dd | ip.content(st, a).deps | ip.alldeps(st, a)
    for a in attrs:
        v = ip.getattr(st, ramp, a, node)
        ip.emit("c_read", node, name=a, value=v, st=st, ramp=ramp)
        c = ip.content(st, v)
        dd = dd | c.deps; ctl = ctl | c.ctl
        if a in ("groupdq", "pixeldq") and c.keep: keep = (keep or E) | c.keep
    ip.emit("c_call", node, args=args, kw=kw, st=st)
    save = args[4] if len(args) > 4 else kw.get("save_opt", UNK)
    res = []
    for i, (nm, ks) in enumerate(zip(("image", "integ", "opt"), keys)):
        axes = (("Y", "X"), ("I", "Y", "X"), ("I", "S", "Y", "X"))[i]
        items = {}
        for k in ks:
            ax = axes
            if nm == "opt" and k == "pedestal": ax = ("I", "Y", "X")
            c = V(unk=True, deps=dd, ctl=ctl, unit=C_UNITS.get(k, U_TOP), tags=frozenset([f"cres:{nm}.{k}"]))
            if k == "dq": c = c.w(keep=keep or E, bits=frozenset(["O:" + x for x in (keep or E)]))
            items[k] = ip.new_array(st, node, c, ax, tag=f":c{nm}{k}")
        v = ip.alloc(st, node, "dict", tag=":c" + nm, items=items)
        if nm == "opt":
            try:
                t = bool(save.single_const())
                v = v if t else NONE
            except KeyError: v = join(v, NONE)
        res.append(v)
    return ip.alloc(st, node, "tuple", tag=":cres", items=res)
