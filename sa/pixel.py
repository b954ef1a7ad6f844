"""Values of one ordinary pixel: polynomials (with uninterpreted /, sqrt, min, max) of the contents of arrays, for a pixel every input covers with
positive, finite values.  Switched on with Interp.pixel; masks that are decided for such a pixel become constants, so that a masked store is either
complete or nothing.  Equality of two such expressions is decided by evaluating both at random points (polynomial identity testing)."""
import ast, random
from .values import Lin, struct, DEFS, V, const

NAN = Lin.sym("NaN")
T = frozenset([("bool", True)]); F = frozenset([("bool", False)])


def lin(v):
    """the pixel value of a content, or None"""
    if v is None: return None
    if v.sym is not None: return v.sym
    if v.refs or v.unk or len(v.consts) != 1: return None
    (t, c), = v.consts
    if t in ("int", "bool"): return Lin.const(int(c))
    if t == "nan": return NAN
    if t == "float": return NAN if c != c else Lin.const(c) if c - c == 0 else None
    return None


def isnan(p): return p == NAN


def truth(v):
    if v.refs or v.unk and not v.consts: return None
    return {T: True, F: False}.get(v.consts)


def sign(p):
    """1, -1, 0 or None, all symbols taken positive"""
    if p is None or isnan(p): return None
    cs = [c for m, c in p.t]
    for m, c in p.t:
        for s in m:
            if s in DEFS:
                op, a = DEFS[s]
                if op not in ("/", "sqrt", "min", "max", "pow") or any(sign(x) != 1 for x in a[:1 if op == "pow" else None]): return None
            elif s == "NaN" or s.startswith(("phi:", "sel:", "end:")): return None
    if not cs: return 0
    if all(c > 0 for c in cs): return 1
    if all(c < 0 for c in cs): return -1
    return None


def div(a, b):
    if isnan(a) or isnan(b): return NAN
    if b.value() is not None: return a * Lin.const(1 / b.value()) if b.value() else None
    return a * struct("/", Lin.const(1), b)


def power(a, n):
    if a is None: return None
    if isnan(a): return NAN
    if isinstance(n, float) and n == int(n): n = int(n)
    if isinstance(n, int) and abs(n) <= 4:
        r = Lin.const(1)
        for _ in range(abs(n)): r = r * a
        return r if n >= 0 else div(Lin.const(1), r)
    if n == 0.5: return sqrt(a)
    return None


def sqrt(a):
    if a is None or isnan(a): return a
    v = a.value()
    if v is not None: return Lin.const(float(v) ** 0.5) if v >= 0 else None
    return struct("sqrt", a)


def binop(o, a, b, sym, nb):
    """pixel value of a op b; sym is what the general domain says"""
    x, y = lin(a), lin(b)
    if o == "**" and x is not None:
        return power(x, nb) if nb is not None else None
    if x is None or y is None: return None
    if isnan(x) or isnan(y): return NAN
    if o == "/": return div(x, y)
    if o == "+": return x + y
    if o == "-": return x - y
    if o == "*": return x * y
    return sym


def compare(o, a, b):
    x, y = lin(a), lin(b)
    if x is None or y is None: return None
    if isnan(x) or isnan(y): return o == "!="
    s = sign(x - y)
    if s is None: return None
    return {"==": s == 0, "!=": s != 0, "<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0}.get(o)


def same_tuple(ip, st, a, b):
    """two shape tuples known to be equal"""
    def items(v):
        os = list(ip.objs(st, v))
        return os[0].get("items") if len(os) == 1 and os[0].kind == "tuple" and not v.unk and not v.consts else None
    x, y = items(a), items(b)
    return x is not None and y is not None and len(x) == len(y) and all(lin(p) is not None and lin(p) == lin(q) for p, q in zip(x, y))


def put(ip, st, r, sym=None, consts=None):
    """set the pixel value of a freshly computed result"""
    f = dict(consts=consts, unk=False, sym=None) if consts is not None else dict(sym=sym)
    if not r.refs: return r.w(**f)
    for o in list(ip.objs(st, r)):
        if o.kind == "array" and o.get("root") is None and ip.owner(st, o) is o and o.get("content") is not None:
            ip.put(st, o.w(content=o.get("content").w(**f)))
    return r


def np_result(m, node, fn, args, kw, st, r):
    """refine the result of a numpy call"""
    ip = m.ip
    C = lambda v: ip.content(st, v)
    a = args[0] if args else kw.get("a") or kw.get("x")
    if a is None or not isinstance(a, V) or not isinstance(r, V): return r
    if kw.get("out") is not None or kw.get("where") is not None: return r
    if fn in ("zeros", "zeros_like"): return put(ip, st, r, Lin.const(0))
    if fn in ("ones", "ones_like"): return put(ip, st, r, Lin.const(1))
    if fn in ("full", "full_like"):
        f = m.arg(args, kw, 1, "fill_value"); p = lin(C(f)) if f is not None else None
        return put(ip, st, r, p) if p is not None else r
    if fn in ("isnan", "isfinite", "isinf"):
        p = lin(C(a))
        if p is None and ip.assume_finite is not None: return put(ip, st, r, consts=T if ip.assume_finite == (fn == "isfinite") else F)
        if p is None: return r
        return put(ip, st, r, consts=T if isnan(p) == (fn == "isnan") and fn != "isinf" else F)
    if fn == "sqrt": return put(ip, st, r, sqrt(lin(C(a))))
    if fn == "square": return put(ip, st, r, power(lin(C(a)), 2))
    if fn == "reciprocal": return put(ip, st, r, power(lin(C(a)), -1))
    if fn in ("array", "asarray", "asanyarray", "copy", "ascontiguousarray", "float32", "float64", "nan_to_num", "atleast_1d", "squeeze", "ravel"):
        p = lin(C(a))
        if p is None or (fn == "nan_to_num" and isnan(p)) or r.refs & a.refs: return r
        return put(ip, st, r, p)
    if fn in ("abs", "absolute", "fabs"):
        p = lin(C(a)); s = sign(p)
        return put(ip, st, r, (p if s >= 0 else -p) if s is not None else None)
    if fn in ("where",) and len(args) == 3:
        t = truth(C(args[0]))
        if t is None: return r
        p = lin(C(args[1 if t else 2]))
        return put(ip, st, r, p) if p is not None else r
    if fn in ("logical_and", "logical_or") and len(args) >= 2:
        ts = [truth(C(x)) for x in args[:2]]
        t = (False if False in ts else True if ts == [True, True] else None) if fn == "logical_and" else (True if True in ts else False if ts == [False, False] else None)
        return put(ip, st, r, consts=T if t else F) if t is not None else r
    if fn == "logical_not":
        t = truth(C(a))
        return put(ip, st, r, consts=F if t else T) if t is not None else r
    if fn in ("sum", "nansum", "mean", "nanmean", "all", "any", "max", "min", "nanmax", "nanmin", "add.reduce"):
        ax = kw.get("axis") if "axis" in kw else args[1] if len(args) > 1 else None
        its = None
        for o in ip.objs(st, a):
            its = [C(x) for x in o.get("items")] if o.kind in ("list", "tuple") and o.get("items") is not None and len(a.refs) == 1 else \
                list(o.get("elems")) if o.kind == "array" and o.get("elems") and len(a.refs) == 1 else \
                [C(x) for x in o.get("pixitems")] if o.kind == "array" and o.get("pixitems") and len(a.refs) == 1 else None
        try: zero = ax is not None and ax.single_const() == 0
        except KeyError: zero = False
        if fn in ("all", "any"):
            if its is not None and zero:
                ts = [truth(x) for x in its]
                t = (False if False in ts else True if None not in ts else None) if fn == "all" else (True if True in ts else False if None not in ts else None)
            else: t = truth(C(a))
            return put(ip, st, r, consts=T if t else F) if t is not None else r
        if its is None or not zero: return r
        ps = [lin(x) for x in its]
        if any(p is None for p in ps): return r
        if fn.startswith("nan"): ps = [p for p in ps if not isnan(p)]
        elif any(isnan(p) for p in ps): return put(ip, st, r, NAN)
        if fn in ("sum", "nansum", "mean", "nanmean", "add.reduce"):
            t = Lin.const(0)
            for p in ps: t = t + p
            if fn in ("mean", "nanmean"): t = div(t, Lin.const(len(ps))) if ps else NAN
            return put(ip, st, r, t)
        return r
    return r


def np_elementwise_list(m, node, fn, args, kw, st, r):
    """isnan([a, b]) and array([a, b]) keep what they were made of, for the reduction along the first axis"""
    ip = m.ip
    a = args[0] if args else None
    if not isinstance(a, V) or fn not in ("isnan", "isfinite", "array", "asarray", "stack"): return r
    for o in ip.objs(st, a):
        its = o.get("items") if o.kind in ("list", "tuple") else o.get("pixitems") if o.kind == "array" else None
        if its is None or len(a.refs) != 1: return r
        vals = []
        for x in its:
            c = ip.content(st, x)
            if fn in ("isnan", "isfinite"):
                p = lin(c)
                c = V(unk=True) if p is None else V(consts=T if isnan(p) == (fn == "isnan") else F)
            vals.append(c)
        for q in list(ip.objs(st, r)):
            if q.kind == "array": ip.put(st, q.w(pixitems=vals))
    return r


def method_result(m, node, selfv, name, args, kw, st, r):
    if name in ("astype", "copy", "squeeze", "ravel", "flatten", "reshape"):
        p = lin(m.ip.content(st, selfv))
        if p is not None and r.refs and not (r.refs & selfv.refs): return put(m.ip, st, r, p)
        return r
    if name in ("sum", "mean", "all", "any"): return np_result(m, node, name, [selfv] + list(args), kw, st, r)
    return r


# ---------------------------------------------------------------- deciding equality
def evaluate(p, env):
    t = 0.0
    for m, c in p.t:
        x = float(c)
        for s in m:
            if s in DEFS:
                op, a = DEFS[s]
                v = [evaluate(q, env) for q in a]
                if any(y is None for y in v): return None
                if op == "/":
                    if v[1] == 0: return None
                    x *= v[0] / v[1]
                elif op == "sqrt":
                    if v[0] < 0: return None
                    x *= v[0] ** 0.5
                elif op in ("min", "max"): x *= (min if op == "min" else max)(v)
                else: return None
            elif s in env: x *= env[s]
            else: return None
        t += x
    return t


def atoms(p, seen=None):
    seen = set() if seen is None else seen
    for m, c in p.t:
        for s in m:
            if s in DEFS:
                for a in DEFS[s][1]: atoms(a, seen)
            else: seen.add(s)
    return seen


def equal(p, q, n=6):
    """True, False, or None where one of them is outside the decidable fragment"""
    if p is None or q is None: return None
    if p == q: return True
    if isnan(p) or isnan(q): return False
    names = sorted(atoms(p) | atoms(q))
    if any(s.startswith(("phi:", "sel:", "end:")) or "@" in s for s in names): return None
    rnd = random.Random(len(names) * 7919 + 1)
    for _ in range(n):
        env = {s: rnd.uniform(0.5, 2.0) for s in names}
        a, b = evaluate(p, env), evaluate(q, env)
        if a is None or b is None: return None
        if abs(a - b) > 1e-9 * max(1.0, abs(a), abs(b)): return False
    return True
