"""Flow-sensitive, fully inlining abstract interpreter for the Python part of stcal.

Nothing of stcal is executed: the interpreter walks ASTs and computes abstract values (values.py).
Analyses subscribe to the events it emits (stores, attribute writes, calls, operations, returns).
"""
import ast, itertools, sys
from .values import *
from .values import join_axes, join_obj
from .project import AnalysisBroken
from . import pixel

sys.setrecursionlimit(20000)
MAX_DEPTH = 40
MAX_ITERS = 6
RELS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}


EXC_BASES = {"ValueError": ("Exception",), "RuntimeError": ("Exception",), "KeyError": ("LookupError", "Exception"),
             "TweakregError": (), "ConnectionError": ("RequestException", "IOError", "OSError", "Exception"),
             "Timeout": ("RequestException", "IOError", "OSError", "Exception"), "TypeError": ("Exception",),
             "RequestException": ("IOError", "OSError", "Exception"), "HTTPError": ("RequestException", "IOError", "OSError", "Exception")}


class State:
    __slots__ = ("frames", "heap", "guards")

    def __init__(self, frames=None, heap=None, guards=frozenset()):
        self.frames = frames if frames is not None else {}
        self.heap = heap if heap is not None else {}
        self.guards = guards        # conditions known to hold on every path to this point

    def copy(self):
        return State({k: dict(v) for k, v in self.frames.items()}, dict(self.heap), self.guards)


def join_state(a, b):
    if a is None or a is b: return b
    if b is None: return a
    fr = {}
    for f in a.frames.keys() | b.frames.keys():
        x, y = a.frames.get(f), b.frames.get(f)
        if x is None or y is None: fr[f] = dict(x or y); continue
        r = dict(x)
        for k, v in y.items():
            o = r.get(k)
            if o is None: r[k] = v
            elif o is not v: r[k] = join(o, v)
        fr[f] = r
    hp = dict(a.heap)
    for k, v in b.heap.items():
        o = hp.get(k)
        if o is None: hp[k] = v
        elif o is not v: hp[k] = join_obj(o, v)
    return State(fr, hp, a.guards & b.guards)


class Flow:
    __slots__ = ("next", "ret", "brk", "cont", "exc")

    def __init__(self, next=None, ret=None, brk=None, cont=None, exc=None):
        self.next = next; self.ret = ret; self.brk = brk; self.cont = cont; self.exc = exc

    def merge_exits(self, o):
        """merge o's non-next exits into self"""
        if o.ret is not None:
            if self.ret is None: self.ret = o.ret
            else: self.ret = (join(self.ret[0], o.ret[0]), join_state(self.ret[1], o.ret[1]))
        if o.brk is not None: self.brk = join_state(self.brk, o.brk)
        if o.cont is not None: self.cont = join_state(self.cont, o.cont)
        if o.exc is not None: self.exc = join_state(self.exc, o.exc)


class Frame:
    __slots__ = ("fid", "module", "qual", "node", "cls", "pc", "loops", "callsite", "exc_sink", "closure", "yields", "yseq", "facts", "contpc",
                 "globals_decl", "nonlocal_decl", "depth", "locals")

    def __init__(self, fid, module, qual, node, cls=None, callsite=None, closure=None, depth=0):
        self.fid = fid; self.module = module; self.qual = qual; self.node = node; self.cls = cls
        self.pc = []            # control dependence stack (sets of atoms)
        self.contpc = []        # control dependences that end with the iteration
        self.facts = []         # (polynomial, relation to zero, holds) of the branches being executed
        self.loops = []
        self.callsite = callsite
        self.exc_sink = []
        self.closure = closure
        self.yields = None
        self.yseq = None
        self.globals_decl = set(); self.nonlocal_decl = set()
        self.depth = depth
        self.locals = None


class Event:
    __slots__ = ("kind", "mod", "line", "qual", "node", "stack", "loops", "d")

    def __init__(self, kind, mod, line, qual, node, stack, loops, d):
        self.kind = kind; self.mod = mod; self.line = line; self.qual = qual; self.node = node
        self.stack = stack; self.loops = loops; self.d = d

    def __getattr__(self, k):
        try: return self.d[k]
        except KeyError: raise AttributeError(k)

    def where(self):
        return f"{self.mod.rel if hasattr(self.mod, 'rel') else self.mod}:{self.line} ({self.qual})"

    def path(self):
        return " <- ".join(f"{s[0]}:{s[1]}" for s in reversed(self.stack))


class Interp:
    def __init__(self, project, models=None, trace=False):
        self.p = project
        self.pixel = False          # follow the value of one ordinary pixel through the arrays (sa/pixel.py)
        self.counts = {}            # loop counter symbol -> number of iterations (polynomial) or None
        self.recs = {}              # recurrence symbol -> (start, {next values}, loop node)
        self.elems = {}             # symbol of a list element -> (lists, index)
        self._complen = None
        self.static = {}            # module-level objects
        self.mods = {}              # module name -> dict of globals
        self.loading = set()
        self.events = []
        self.handlers = {}
        self.frames = []            # active Frame stack
        self.ctr = itertools.count()
        self.root_specs = {}        # root label -> spec
        self.visited = set()        # (module rel, qual) functions interpreted
        self.stats = dict(calls=0, stmts=0, loops=0)
        self.ext_seen = {}
        self.trace = trace
        self._dead = False
        self.cur_node = None
        self.live = None
        self.want_seen = False
        self.spec_ids = {}
        from . import npmodels
        self.models = npmodels.Models(self)
        from . import axes as _axes
        self.axes = _axes
        self.st0 = State()

    # ------------------------------------------------------------------ events
    def on(self, kind, fn): self.handlers.setdefault(kind, []).append(fn)

    def emit(self, kind, node, **d):
        hs = self.handlers.get(kind)
        if not hs: return
        fr = self.frames[-1] if self.frames else None
        ev = Event(kind, fr.module if fr else None, getattr(node, "lineno", 0), fr.qual if fr else "<module>", node,
                   tuple((f.callsite) for f in self.frames if f.callsite), tuple(fr.loops) if fr else (), d)
        for h in hs: h(ev)

    # ------------------------------------------------------------------ heap helpers
    def obj(self, st, oid):
        o = st.heap.get(oid)
        if o is None: o = self.static.get(oid)
        return o

    def objs(self, st, v):
        for r in sorted(v.refs):
            o = self.obj(st, r)
            if o is not None: yield o

    root_tags = {}      # extra tags of root contents (set by a check)

    def put(self, st, o): st.heap[o.id] = o

    def ctx(self):
        return hash(tuple((f.callsite, tuple(l[2] for l in f.loops if len(l) > 2)) for f in self.frames)) & 0xffffffff

    def alloc(self, st, node, kind, tag="", **d):
        fr = self.frames[-1] if self.frames else None
        mod = fr.module.name if fr else "?"
        oid = f"{mod}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}-{getattr(node, 'end_lineno', 0)}:{getattr(node, 'end_col_offset', 0)}{tag}@{self.ctx():x}:{kind}"
        o = Obj(oid, kind, **d)
        st.heap[oid] = o
        return V(refs=frozenset([oid]))

    def new_array(self, st, node, content, axes=None, tag="", **d):
        v = self.alloc(st, node, "array", tag=tag, content=content, axes=axes, **d)
        return v

    def owner(self, st, o):
        seen = 0
        while o is not None and o.get("base") is not None and seen < 20:
            o = self.obj(st, o.get("base")); seen += 1
        return o

    # root objects: lazily created structure of the caller's inputs
    def root(self, st, label, spec=None):
        oid = "root:" + label
        if st.heap.get(oid) is None:
            spec = spec if spec is not None else self.root_specs.get(label, {})
            st.heap[oid] = self.make_root_obj(oid, label, spec)
            if spec.get("kind") == "seq":        # a tuple of known elements
                its = []
                for i, x in enumerate(spec["items"]):
                    its.append(self.root_scalar(f"{label}[{i}]", x) if x.get("kind") == "scalar" else self.root(st, f"{label}[{i}]", x))
                st.heap[oid] = Obj(oid, "tuple", items=its)
        return V(refs=frozenset([oid]), deps=frozenset([label]), unk=bool(st.heap[oid].get("maybe_scalar")))

    def make_root_obj(self, oid, label, spec):
        kind = spec.get("kind", "opaque")
        content = V(unk=True, deps=frozenset([label]), unit=spec.get("unit", U_TOP), ax=spec.get("ax"),
                    bits=frozenset(["O:" + label]) if spec.get("dq") else None,
                    keep=frozenset([label]) if spec.get("dq") else None,
                    tags=frozenset(spec.get("tags", ())) | self.root_tags.get(label, E),
                    sym=Lin.sym(spec.get("sym", label)) if self.pixel and kind == "array" else None)
        return Obj(oid, kind, root=label, content=content, axes=spec.get("axes"), attrs={}, items=None,
                   lazy=True, dtype=spec.get("dtype"), maybe_scalar=(kind == "opaque" and not spec and not self.has_children(label)), cls=spec.get("cls"),
                   exttype=spec.get("exttype"))

    def has_children(self, label):
        if getattr(self, "_hc_for", None) is not self.root_specs:
            self._hc_for = self.root_specs
            self._hc = set()
            for k in self.root_specs:
                for i, ch in enumerate(k):
                    if ch in ".[": self._hc.add(k[:i])
        return label in self._hc

    def root_child(self, st, o, name, how):
        """lazily created child of a root object"""
        lab = o.get("root")
        clab = f"{lab}.{name}" if how == "attr" else f"{lab}[{name}]"
        spec = self.root_specs.get(clab)
        if spec is None: spec = self.root_specs.get("*." + str(name), {}) if how == "attr" else {}
        k = spec.get("kind")
        if k == "scalar":
            return self.root_scalar(clab, spec)
        if k == "const":
            return const(spec["value"], deps=frozenset([clab]))
        if k == "none": return NONE
        v = self.root(st, clab, spec)
        if spec.get("optional"): v = join(v, NONE)
        return v

    def root_scalar(self, label, spec):
        v = V(unk=True, deps=frozenset([label]), unit=spec.get("unit", U_TOP), ax=spec.get("ax"),
              sym=Lin.sym(spec.get("sym", label)),
              bits=frozenset([spec["flag"]]) if spec.get("flag") else None, tags=frozenset(spec.get("tags", ())) | self.root_tags.get(label, E))
        if spec.get("optional"): v = join(v, NONE)
        return v

    # ------------------------------------------------------------------ content
    def content(self, st, v, depth=0):
        """the scalar (element) view of a value: contents of arrays/sequences joined"""
        if not v.refs: return v
        parts = []
        for o in self.objs(st, v):
            parts.append(self.obj_content(st, o, depth))
        if v.consts or v.unk:
            # an element read out as a number may be the same memory as the array view: later stores hold for it too
            more = frozenset(t for t in joinall(parts).tags if t.startswith(("excl:", "test:"))) if v.unk and parts else E
            parts.insert(0, v.w(refs=E, tags=v.tags | more))
        c = joinall(parts) if parts else BOT
        if v.deps or v.ctl: c = c.w(deps=c.deps | v.deps, ctl=c.ctl | v.ctl)
        return c

    def with_unit(self, st, v, u):
        """the value v (and the arrays it refers to) taken to have unit u"""
        for o in list(self.objs(st, v)):
            if o.kind not in ("array", "opaque"): continue
            ow = self.owner(st, o) or o
            self.put(st, ow.w(content=(ow.get("content") or UNK).w(unit=u)))
        return v.w(unit=u)

    def obj_content(self, st, o, depth=0):
        if depth > 6: return UNK
        k = o.kind
        if k in ("array", "opaque"):
            ow = self.owner(st, o)
            c = (ow or o).get("content")
            if c is None: c = UNK
            if k == "opaque" and o.get("attrs"):
                c = c.w(deps=c.deps | frozenset().union(*[x.deps for x in o.get("attrs").values()]))
            if o.get("viewtags"): c = c.w(tags=c.tags | o.get("viewtags"))
            return c
        if k in ("list", "tuple", "set", "gen"):
            its = o.get("items")
            parts = [self.content(st, x, depth + 1) for x in (its or [])]
            if o.get("rest") is not None: parts.append(self.content(st, o.get("rest"), depth + 1))
            return joinall(parts)
        if k == "dict":
            parts = [self.content(st, x, depth + 1) for x in (o.get("items") or {}).values()]
            if o.get("rest") is not None: parts.append(self.content(st, o.get("rest"), depth + 1))
            if o.get("root"): parts.append(V(unk=True, deps=frozenset([o.get("root")])))
            return joinall(parts)
        if k == "inst":
            parts = [V(unk=True, unit=U_TOP)]
            if depth < 3:
                for x in (o.get("attrs") or {}).values():
                    c = self.content(st, x, depth + 2)
                    parts.append(V(unk=True, deps=c.deps, ctl=c.ctl, unit=U_TOP))
            if o.get("root"): parts.append(V(unk=True, deps=frozenset([o.get("root")]), unit=U_TOP))
            return joinall(parts)
        if k == "ext":
            return V(unk=True, unit=U_TOP)
        return V(unk=True, unit=U_TOP)

    def alldeps(self, st, v):
        c = self.content(st, v)
        return c.deps | c.ctl | v.deps | v.ctl

    # ------------------------------------------------------------------ control dependence
    def pcdeps(self):
        r = E
        for f in self.frames:
            for s in f.pc: r = r | s
        return r

    def withctl(self, v):
        pc = self.pcdeps()
        if pc - v.ctl: return v.w(ctl=v.ctl | pc)
        return v

    # ------------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods: return self.mods[name]
        m = self.p.modules.get(name)
        if m is None: raise AnalysisBroken(f"module {name} not found")
        g = self.mods[name] = {}
        fid = "mod:" + name
        fr = Frame(fid, m, "<module>", m.tree)
        save = self.frames
        self.frames = [fr]
        st = State({fid: g}, self.static)
        flow = self.exec_block(m.tree.body, st)
        self.frames = save
        if flow.next is None: raise AnalysisBroken(f"module {name} cannot be imported on any path")
        st = flow.next
        g2 = st.frames.get(fid, g)
        g.update(g2)
        for k, o in list(st.heap.items()): self.static[k] = o
        return g

    def module_ref(self, name):
        if name in self.p.modules:
            oid = "module:" + name
            if oid not in self.static: self.static[oid] = Obj(oid, "module", name=name)
            return V(refs=frozenset([oid]))
        return self.ext(name)

    def ext(self, name):
        oid = "ext:" + name
        if oid not in self.static: self.static[oid] = Obj(oid, "ext", name=name)
        return V(refs=frozenset([oid]))

    def module_attr(self, modname, attr):
        g = self.module(modname)
        if attr in g: return g[attr]
        sub = modname + "." + attr
        if sub in self.p.modules: return self.module_ref(sub)
        if sub in self.p.pyx or modname + "." + attr in ("stcal.ramp_fitting.slope_fitter",):
            return self.ext(sub)
        return self.ext(sub)

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, st):
        out = Flow()
        cur = st
        npush = 0
        fr = self.frames[-1]
        for s in body:
            if cur is None: break
            f = self.exec_stmt(s, cur)
            out.merge_exits(f)
            cur = f.next
            if fr.exc_sink and cur is not None:
                fr.exc_sink[-1] = join_state(fr.exc_sink[-1], cur.copy())
        out.next = cur
        return out

    def exec_stmt(self, s, st):
        self.stats["stmts"] += 1
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: raise AnalysisBroken(f"unsupported statement {type(s).__name__} at line {s.lineno}")
        self.cur_node = s
        return m(s, st)

    def s_Expr(self, s, st):
        self.eval(s.value, st)
        return self.after(st)

    def after(self, st):
        """a statement finished normally, unless its evaluation definitely raised"""
        if getattr(self, "_dead", False):
            self._dead = False
            return Flow(exc=st)
        return Flow(next=st)

    def s_Pass(self, s, st): return Flow(next=st)
    def s_Break(self, s, st): return Flow(brk=st)
    def s_Continue(self, s, st): return Flow(cont=st)

    def s_Global(self, s, st):
        self.frames[-1].globals_decl.update(s.names); return Flow(next=st)

    def s_Nonlocal(self, s, st):
        self.frames[-1].nonlocal_decl.update(s.names); return Flow(next=st)

    def s_Import(self, s, st):
        for a in s.names:
            if a.asname: self.setname(st, a.asname, self.module_ref(a.name), s)
            else: self.setname(st, a.name.split(".")[0], self.module_ref(a.name.split(".")[0]), s)
        return Flow(next=st)

    def s_ImportFrom(self, s, st):
        mod = self.frames[-1].module.resolve_relative(s)
        for a in s.names:
            if a.name == "*":
                if mod in self.p.modules:
                    g = self.module(mod)
                    al = g.get("__all__")
                    for k, v in list(g.items()):
                        if not k.startswith("_"): self.setname(st, k, v, s)
                continue
            if mod in self.p.modules: v = self.module_attr(mod, a.name)
            else:
                v = self.models.ext_const(f"{mod}.{a.name}")
                if v is None: v = self.module_ref(f"{mod}.{a.name}")
            self.setname(st, a.asname or a.name, v, s)
        return Flow(next=st)

    def s_Assign(self, s, st):
        # unpacking of literal tuples keeps element values
        v = self.eval(s.value, st)
        if getattr(self, "_dead", False):
            self._dead = False
            return Flow(exc=st)
        for t in s.targets: self.assign(t, v, st)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name): self.note_predicate(s, s.targets[0].id, s.value, st)
        return Flow(next=st)

    def note_predicate(self, s, name, value, st):
        """remember (per path) which test a boolean local stands for"""
        fr = self.frames[-1]
        f = st.frames[fr.fid]
        key = None
        if isinstance(value, ast.Constant) and isinstance(value.value, bool):
            k = self.pred_key(self.enclosing_tests(s, fr.node), name) if value.value else ""
            key = (k, value.value)
        elif isinstance(value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.BinOp)) or \
                isinstance(value, ast.Call) and isinstance(value.func, ast.Name) and value.func.id in ("isinstance", "hasattr"):
            key = (self.pred_key([(value, True)], name), None)
        elif "?p:" + name not in f: return
        f["?p:" + name] = V(consts=frozenset([("pred", key if key is not None else ("", None))]))

    def enclosing_tests(self, s, stop):
        out = []; n = s
        while getattr(n, "_parent", None) is not None and n is not stop:
            p = n._parent
            if isinstance(p, ast.If):
                if any(n is x for x in p.body): out.append((p.test, True))
                elif any(n is x for x in p.orelse): out.append((p.test, False))
            n = p
        return out

    def pred_key(self, tests, name):
        """index of a conjunction of tests; '' when it can not be used"""
        if not tests: return ""
        names = set()
        for t, _ in tests:
            for x in ast.walk(t):
                if isinstance(x, (ast.NamedExpr, ast.Lambda)): return ""
                if isinstance(x, ast.Name): names.add(x.id)
        if name in names: return ""
        tab = self.__dict__.setdefault("_ptab", {})
        k = "&".join(f"{id(t)}:{int(w)}" for t, w in tests)
        tab[k] = (tests, names)
        return k

    def s_AnnAssign(self, s, st):
        if s.value is not None: self.assign(s.target, self.eval(s.value, st), st)
        return self.after(st)

    def s_AugAssign(self, s, st):
        t = s.target
        rhs = self.eval(s.value, st)
        if isinstance(t, ast.Name):
            old = self.getname(st, t.id, t)
            objs = list(self.objs(st, old))
            if any(o.kind in ("array", "list", "set") or (o.kind == "opaque" and not o.get("notarray")) for o in objs):
                nv = self.binop(s, s.op, old, rhs, st, inplace=True)
                self.inplace(s, old, None, nv, rhs, s.op, st)
                if old.consts or old.unk or any(o.kind not in ("array", "list", "set") for o in objs):
                    self.setname(st, t.id, join(old, self.withctl(nv)), s)
            else:
                nv = self.binop(s, s.op, old, rhs, st)
                self.setname(st, t.id, self.withctl(nv), s)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            old = self.getattr(st, base, t.attr, t)
            objs = list(self.objs(st, old))
            nv = self.binop(s, s.op, old, rhs, st, inplace=True)
            if any(o.kind in ("array", "list", "set") for o in objs):
                self.inplace(s, old, None, nv, rhs, s.op, st)
                if old.consts or old.unk: self.setattr(st, base, t.attr, join(old, self.withctl(nv)), s)
                else: self.emit("setattr", s, objs=list(self.objs(st, base)), name=t.attr, value=old, base=base, st=st, aug=s.op)
            else:
                self.setattr(st, base, t.attr, self.withctl(nv), s, aug=s.op, rhs=rhs)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            idx = self.eval_index(t.slice, st)
            old = self.subscript(t, base, idx, st)
            nv = self.binop(s, s.op, old, rhs, st, inplace=True)
            self.store_sub(s, base, idx, nv, st, aug=s.op, rhs=rhs, old=old)
        return self.after(st)

    def inplace(self, node, target, idx, nv, rhs, op, st, how="aug"):
        """in-place update of the whole of `target` (arrays/lists)"""
        for o in list(self.objs(st, target)):
            if o.kind in ("array", "opaque"):
                ow = self.owner(st, o)
                old = self.obj_content(st, o)
                new = self.withctl(self.content(st, nv))
                if o.kind == "opaque" and target.unk and not o.get("isarray"):
                    pass
                self.emit("store", node, obj=o, owner=ow, idx=idx, value=nv, rhs=rhs, aug=op, old=old, how=how,
                          full=(ow is o), strong=(ow is o), st=st, vcontent=new)
                if ow is None: continue
                if ow is o and not ow.get("summary"): c = new
                else: c = join(ow.get("content") or BOT, new)
                self.put(st, ow.w(content=c, written=True))
            elif o.kind in ("list", "set"):
                self.emit("mutate", node, obj=o, how="aug", value=rhs, st=st)
                its = o.get("items")
                kn = self.known_items(st, rhs) if isinstance(op, ast.Add) else None
                if kn is not None and its is not None and o.kind == "list" and len(target.refs) == 1 and not o.get("summary") and len(its) + len(kn) <= 24 and \
                        not any(f.loops and f.loops[-1][1] == "iter" for f in self.frames[-1:]):
                    self.put(st, o.w(items=list(its) + [self.withctl(x) for x in kn])); continue
                extra = joinall(self.iter_items(st, rhs))
                r = o.get("rest")
                self.put(st, o.w(items=None, rest=joinall((its or []) + ([r] if r is not None else []) + [extra])))

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name): st.frames[self.frames[-1].fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value, st); idx = self.eval_index(t.slice, st)
                for o in self.objs(st, base): self.emit("mutate", s, obj=o, how="del", value=idx, st=st)
            elif isinstance(t, ast.Attribute):
                base = self.eval(t.value, st)
                for o in self.objs(st, base): self.emit("mutate", s, obj=o, how="delattr", value=None, st=st)
        return Flow(next=st)

    def s_Return(self, s, st):
        v = NONE if s.value is None else self.eval(s.value, st)
        if getattr(self, "_dead", False):
            self._dead = False
            return Flow(exc=st)
        v = self.withctl(v)
        self.emit("return", s, value=v, st=st)
        return Flow(ret=(v, st))

    def s_Raise(self, s, st):
        v = self.eval(s.exc, st) if s.exc is not None else UNK
        self._dead = False
        again = self.handling[-1] if self.handling else None
        if s.exc is not None and not (again is not None and again[2] is not None and again[2] in v.refs): again = None
        self.emit("raise", s, value=v, st=st, again=again)
        if self.inject is not None: self.pending = again[:2] if again else (self.exc_name(st, v), None)
        return Flow(exc=st)

    # ---- simulated failures: a call named in `inject` raises the given exception
    inject = None           # {external callable: (exception class name, message)}
    pending = None          # (class name, message) of the exception under way
    handling = ()           # stack of (class name, message, id of the bound exception object)
    busy_iter = False
    assume_finite = None    # with pixel values: numbers the analysis knows nothing about are all finite (True) or all NaN (False)
    worker_each = False        # a worker is interpreted once for every object its arguments may be
    exact_shapes = False       # comparisons of shape tuples are decided where the shapes are known
    sysorder = None            # "little" or "big": byte order of arrays is followed
    quiet_try = False       # a handler runs only when something under analysis raises
    want_guards = False
    want_hasattr = False    # hasattr() of a root is decided by the driver's description of it
    coords = False          # follow row and column coordinates through arithmetic (V.ax)
    ext_hook = {}           # {external callable: function(interp, node, args, kw, st) -> value or None}

    def exc_name(self, st, v):
        for o in self.objs(st, v):
            if o.kind in ("ext", "class"): return o.get("name").split(".")[-1]
            if o.kind == "inst":
                c = self.obj(st, o.get("cls")) if isinstance(o.get("cls"), str) else None
                return c.get("name") if c is not None else "?"
            t = (o.get("exttype") or "").rstrip("()")
            if t: return t.split(".")[-1]
        return "?"

    def exc_match(self, st, name, htype):
        """does the handler type catch an exception of class `name`"""
        vs = []
        for o in self.objs(st, htype):
            if o.kind in ("tuple", "list"): vs += [x for i in (o.get("items") or ()) for x in self.objs(st, i)]
            else: vs.append(o)
        names = {(o.get("name") or "").split(".")[-1] for o in vs}
        return bool(names & set(EXC_BASES.get(name, ()) + (name, "BaseException")))

    def inject_try(self, s, f, handler_state):
        """the body of s raised the exception under way: run the handler that catches it"""
        for h in s.handlers:
            hs = handler_state.copy()
            if h.type is not None:
                t = self.eval(h.type, hs)
                if not self.exc_match(hs, self.pending[0], t): continue
            oid = None
            name, msg = self.pending
            if h.name:
                a = self.alloc(hs, h, "tuple", items=[const(msg)] if msg is not None else [UNK])
                v = self.alloc(hs, h, "opaque", tag="exc", attrs={"args": a}, label="exc:" + name, text=msg)
                oid = next(iter(v.refs))
                self.setname(hs, h.name, v, h)
            self.handling = tuple(self.handling) + ((name, msg, oid),)
            self.pending = None
            g = self.exec_block(h.body, hs)
            self.handling = self.handling[:-1]
            self.emit("handled", h, exc=name, msg=msg, falls=g.next is not None or g.ret is not None or g.brk is not None or g.cont is not None)
            return g
        return None

    def s_Assert(self, s, st):
        c = self.eval(s.test, st)
        st2 = st.copy(); self.refine(s.test, True, st2)
        return Flow(next=st2)

    def s_FunctionDef(self, s, st):
        fr = self.frames[-1]
        v = self.make_func(s, st)
        deco = [self.eval(d, st) for d in s.decorator_list]
        for d, dn in zip(reversed(deco), reversed(s.decorator_list)):
            v = self.apply_decorator(v, d, dn, st)
        self.setname(st, s.name, v, s)
        return Flow(next=st)

    def make_func(self, s, st, name=None):
        fr = self.frames[-1]
        a = s.args
        defaults = [self.eval(d, st) for d in a.defaults]
        kwdefaults = [None if d is None else self.eval(d, st) for d in a.kw_defaults]
        name = name or getattr(s, "name", "<lambda>")
        qual = name if fr.qual == "<module>" else fr.qual + "." + name
        closure = None if fr.fid.startswith("mod:") else fr.fid
        oid = f"func:{fr.module.name}:{qual}:{s.lineno}" + ("" if closure is None else f"@{closure}")
        o = Obj(oid, "func", node=s, module=fr.module.name, qual=qual, defaults=defaults, kwdefaults=kwdefaults,
                closure=closure, cls=None, static=False, isprop=False, decorators=())
        st.heap[oid] = o
        return V(refs=frozenset([oid]))

    def apply_decorator(self, v, d, dn, st):
        for o in self.objs(st, d):
            nm = o.get("name") if o.kind == "ext" else None
            for f in list(self.objs(st, v)):
                if f.kind != "func": continue
                if nm in ("builtins.property", "functools.cached_property"): self.put(st, f.w(isprop=True))
                elif nm == "builtins.staticmethod": self.put(st, f.w(static=True))
                elif nm == "builtins.classmethod": self.put(st, f.w(static="class"))
                else: self.put(st, f.w(decorators=f.get("decorators") + (nm or ast.unparse(dn),)))
        if isinstance(dn, ast.Attribute) and dn.attr in ("setter", "getter", "deleter"):
            # property setter: attach to the property of the same name
            for f in list(self.objs(st, v)):
                self.put(st, f.w(isprop="setter"))
        return v

    def s_ClassDef(self, s, st):
        fr = self.frames[-1]
        bases = [self.eval(b, st) for b in s.bases]
        qual = s.name if fr.qual == "<module>" else fr.qual + "." + s.name
        fid = f"cls:{fr.module.name}:{qual}"
        cf = Frame(fid, fr.module, qual, s, closure=fr.fid)
        self.frames.append(cf)
        st.frames[fid] = {}
        props = {}
        setters = {}
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                prev = st.frames[fid].get(b.name)
                self.exec_stmt(b, st)
                v = st.frames[fid][b.name]
                for o in self.objs(st, v):
                    if o.kind == "func" and o.get("isprop") == "setter":
                        setters[b.name] = v
                        st.frames[fid][b.name] = prev
            else:
                self.exec_stmt(b, st)
        attrs = st.frames.pop(fid)
        self.frames.pop()
        oid = f"class:{fr.module.name}:{qual}"
        for k, v in attrs.items():
            for o in self.objs(st, v):
                if o.kind == "func": self.put(st, o.w(cls=oid, closure=None))
        for k, v in setters.items():
            for o in self.objs(st, v): self.put(st, o.w(cls=oid, closure=None))
        st.heap[oid] = Obj(oid, "class", name=s.name, module=fr.module.name, qual=qual, node=s, bases=bases,
                           attrs=attrs, setters=setters)
        self.setname(st, s.name, V(refs=frozenset([oid])), s)
        return Flow(next=st)

    # ---- branches
    def s_If(self, s, st):
        return self.branch(s, s.test, s.body, s.orelse, st)

    def branch(self, s, test, body, orelse, st):
        c = self.eval(test, st)
        if getattr(self, "_dead", False):
            self._dead = False
            return Flow(exc=st)
        tv = self.truth(st, c)
        cd = self.alldeps(st, c)
        self.emit("if", s, test=test, cond=c, st=st)
        fr = self.frames[-1]
        out = Flow()
        nxt = None
        fell = []
        left = True     # a side that leaves only goes on with the next iteration
        for want, blk in ((True, body), (False, orelse)):
            if tv is not None and tv != want: continue
            s2 = st.copy()
            if not self.refine(test, want, s2): continue
            nf = len(fr.facts); rel = self.relations(test, want, st); fr.facts += rel
            if self.want_guards: s2.guards = s2.guards | frozenset(rel) | self.cmp_guards(test, want, st)
            fr.pc.append(cd)
            f = self.exec_block(blk, s2) if blk else Flow(next=s2)
            fr.pc.pop(); del fr.facts[nf:]
            out.merge_exits(f)
            fell.append(f.next is not None)
            left = left and (f.next is not None or (f.cont is not None and f.brk is None and f.ret is None and f.exc is None))
            prev = nxt
            nxt = join_state(nxt, f.next)
            if prev is not None and f.next is not None: self.select_syms(prev, f.next, nxt, s)
        if not fell:
            return Flow()   # infeasible
        if nxt is not None and not all(fell) and cd:
            # some side left: the rest of the function is control dependent on the condition
            fr.pc.insert(0, cd) if fr.pc else fr.pc.append(cd)
            # kept until the frame is popped: insert at the bottom of the frame's stack
            if left and fr.loops and len(fr.loops[-1]) > 2: fr.contpc.append(cd)
        out.next = nxt
        return out

    def relations(self, test, want, st):
        """what a branch condition says about symbolic quantities"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not): return self.relations(test.operand, not want, st)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == want: return [f for x in test.values for f in self.relations(x, want, st)]
            return []
        save = self.handlers; self.handlers = {}
        try:
            if isinstance(test, ast.Compare) and len(test.ops) == 1 and type(test.ops[0]) in RELS:
                a, b = self.eval(test.left, st), self.eval(test.comparators[0], st)
                if a.sym is None or b.sym is None: return []
                return [(a.sym - b.sym, RELS[type(test.ops[0])], want)]
            if isinstance(test, ast.Name) and self.want_guards and self.predicate_def(test):
                return self.relations(self.predicate_def(test), want, st)
            if isinstance(test, (ast.Name, ast.Attribute)):
                a = self.eval(test, st)
                if a.sym is not None and not a.refs and a.sym.value() is None: return [(a.sym, "!=", want)]
        finally: self.handlers = save; self._dead = False
        return []

    def cmp_guards(self, test, want, st):
        """comparisons a branch condition settles: (inputs of the left side, operator, inputs of the right side, holds)"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not): return self.cmp_guards(test.operand, not want, st)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == want: return frozenset(f for x in test.values for f in self.cmp_guards(x, want, st))
            return frozenset()
        if isinstance(test, ast.Name) and self.predicate_def(test): return self.cmp_guards(self.predicate_def(test), want, st)
        save = self.handlers; self.handlers = {}
        try:
            if not (isinstance(test, ast.Compare) and len(test.ops) == 1 and type(test.ops[0]) in RELS):
                return frozenset([(frozenset(self.alldeps(st, self.eval(test, st)) - self.pcdeps()), "dep", want)])
            a, b = self.eval(test.left, st), self.eval(test.comparators[0], st)
            pc = self.pcdeps()
            return frozenset([(frozenset(self.alldeps(st, a) - pc), RELS[type(test.ops[0])], frozenset(self.alldeps(st, b) - pc), want)])
        finally: self.handlers = save; self._dead = False

    def facts(self):
        return tuple(f for fr in self.frames for f in fr.facts)

    def select_syms(self, a, b, j, node):
        """a local number that got one value on one side of a branch and another on the other side is one of the two"""
        fid = self.frames[-1].fid
        x, y, z = a.frames.get(fid), b.frames.get(fid), j.frames.get(fid)
        if not x or not y or not z: return
        for k, v in z.items():
            p, q = x.get(k), y.get(k)
            if v.sym is None and p is not None and q is not None and p.sym is not None and q.sym is not None and p.sym != q.sym and not v.refs:
                z[k] = v.w(sym=struct(f"sel:{k}@{getattr(node, 'lineno', 0)}", p.sym, q.sym))

    def counter(self, name, count):
        """the symbol of a loop counter running 0, 1, ... count-1"""
        self.counts[name] = count
        return Lin.sym(name)

    def list_len(self, st, v):
        r = None
        for o in self.objs(st, v):
            if o.kind == "range": n = self.range_count(o)
            elif o.kind in ("list", "tuple") and o.get("items") is not None: n = Lin.const(len(o.get("items")))
            else: n = o.get("llen")
            if n is None: n = Lin.sym("len:" + o.id) if o.kind in ("list", "tuple", "array") else None
            if n is None or (r is not None and n != r): return None
            r = n
        return r if not v.unk else None

    def list_sum(self, st, v):
        """the total of a list of numbers"""
        os_ = list(self.objs(st, v))
        if len(os_) != 1 or v.unk: return None
        o = os_[0]
        if o.get("lsum") is not None: return o.get("lsum")
        its = o.get("items")
        if its is None or any(x.sym is None or x.refs for x in its): return None
        r = Lin.const(0)
        for x in its: r = r + x.sym
        return r

    def range_count(self, o):
        a, b, step = o.get("args3")
        a = a.sym if a is not None else Lin.const(0)
        s = step.sym if step is not None else Lin.const(1)
        if a is None or b is None or b.sym is None or s is None: return None
        return b.sym - a if s.value() == 1 else struct("ceil", b.sym - a, s)

    def truth(self, st, v):
        """True/False if definitely so, else None"""
        vals = set()
        if v.unk: return None
        for o in self.objs(st, v):
            if o.kind in ("func", "class", "module", "ext", "bound", "inst"): vals.add(True)
            elif o.kind in ("list", "tuple") and o.get("items") is not None: vals.add(bool(o.get("items")))
            elif o.get("exttype") == "Rows": vals.add(True)     # assumed not empty
            elif self.pixel and o.kind == "array" and pixel.truth(self.obj_content(st, o)) is not None: vals.add(pixel.truth(self.obj_content(st, o)))
            else: return None
        for t, c in v.consts:
            vals.add(bool(c))
        return vals.pop() if len(vals) == 1 else None

    def refine(self, test, want, st):
        """narrow st by `test == want`; False if infeasible"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not want, st)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == want:
                return all(self.refine(x, want, st) for x in test.values)
            return True
        if isinstance(test, ast.NamedExpr):
            return self.refine(test.target, want, st)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            l, r = test.left, test.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and r.value is None:
                isn = isinstance(op, ast.Is) == want
                return self.narrow(l, (lambda v: NONE.w(deps=v.deps, ctl=v.ctl) if v.may_none() else None) if isn else
                                   (lambda v: self.drop_none(v)), st)
            if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant):
                eq = isinstance(op, ast.Eq) == want
                key = (type(r.value).__name__, r.value)
                if eq:
                    def f(v):
                        if v.refs and not v.unk and not v.consts: return v
                        if not v.refs and not v.unk:
                            ks = frozenset(k for k in v.consts if k[1] == r.value and (k[0] == "str") == (key[0] == "str"))
                            return v.w(consts=ks) if ks else None
                        if key[0] == "str": return v
                        return v
                    return self.narrow(l, f, st)
                else:
                    def g(v):
                        ks = frozenset(k for k in v.consts if k != key)
                        r2 = v.w(consts=ks)
                        return None if r2.is_bottom and not v.is_bottom else r2
                    return self.narrow(l, g, st)
            return True
        if isinstance(test, ast.BinOp) and isinstance(test.op, (ast.BitAnd, ast.BitOr)):
            if isinstance(test.op, ast.BitAnd) == want:
                return self.refine(test.left, want, st) and self.refine(test.right, want, st)
            return True
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id in ("isinstance", "hasattr") \
                and len(test.args) == 2 and not test.keywords and isinstance(test.args[0], (ast.Name, ast.Attribute)):
            save = self.handlers; self.handlers = {}
            try: second = self.eval(test.args[1], st)
            finally: self.handlers = save
            def keepv(v):
                parts = [V(refs=frozenset([r])) for r in v.refs] + [V(consts=frozenset([c])) for c in v.consts]
                out = v.w(refs=E, consts=E)
                for x in parts:
                    save = self.handlers; self.handlers = {}
                    try: t = self.truth(st, self.models.call_builtin(test, test.func.id, [x, second], {}, st))
                    finally: self.handlers = save
                    if t is None or t == want: out = out.w(refs=out.refs | x.refs, consts=out.consts | x.consts)
                return None if out.is_bottom and not v.is_bottom else out
            return self.narrow(test.args[0], keepv, st)
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Attribute) and test.func.attr == "isscalar" and len(test.args) == 1:
            def keeps(v):
                out = v.w(refs=E, consts=E)
                for r in v.refs:
                    o = self.obj(st, r)
                    isarr = o is not None and o.kind in ("array", "list", "tuple", "dict", "inst") and o.get("axes") != ()
                    if not (isarr and want): out = out.w(refs=out.refs | {r})
                for c in v.consts:
                    if (c[0] in ("int", "float", "bool", "str")) == want: out = out.w(consts=out.consts | {c})
                return None if out.is_bottom and not v.is_bottom else out
            return self.narrow(test.args[0], keeps, st)
        if isinstance(test, (ast.Name, ast.Attribute)):
            if isinstance(test, ast.Name):
                d = self.predicate_def(test)
                if d is not None and not self.refine(d, want, st): return False
                fr = st.frames.get(self.frames[-1].fid) or {}
                pv = fr.get("?p:" + test.id)
                if pv is not None:
                    live = [c for _, c in pv.consts if c[1] is None or c[1] == want]
                    if not live: return False
                    if len(live) == 1 and live[0][0]:
                        tests = self._ptab[live[0][0]][0]
                        if live[0][1] is None:
                            if not self.refine(tests[0][0], want, st): return False
                        elif want and not all(self.refine(t, w, st) for t, w in tests): return False
            if want:
                return self.narrow(test, lambda v: self.drop_falsy(v), st)
            def h(v):
                ks = frozenset(k for k in v.consts if not k[1])
                refs = frozenset(o.id for o in self.objs(st, v) if o.kind not in ("func", "class", "module", "ext", "bound", "inst"))
                r2 = v.w(consts=ks, refs=refs)
                return None if r2.is_bottom else r2
            return self.narrow(test, h, st)
        return True

    def predicate_def(self, name):
        """the boolean expression a local was (once) defined from, when its operands are not reassigned later"""
        fn = self.frames[-1].node
        cache = self.__dict__.setdefault("_preds", {})
        if fn not in cache:
            counts = {}; defs = {}
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): counts[n.id] = counts.get(n.id, 0) + 1
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                        isinstance(n.value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call, ast.BinOp)):
                    defs[n.targets[0].id] = n.value
            ok = {}
            for k, v in defs.items():
                if counts.get(k) != 1: continue
                if isinstance(v, ast.Call) and not (isinstance(v.func, ast.Name) and v.func.id in ("isinstance", "hasattr")): continue
                names = [x.id for x in ast.walk(v) if isinstance(x, ast.Name)]
                if any(isinstance(x, (ast.NamedExpr, ast.Lambda)) for x in ast.walk(v)): continue
                if all(counts.get(x, 0) <= 1 for x in names) and k not in names: ok[k] = v
            cache[fn] = ok
        return cache[fn].get(name.id)

    def drop_none(self, v):
        r = v.w(consts=frozenset(k for k in v.consts if k[0] != "NoneType"))
        return None if r.is_bottom else r

    def drop_falsy(self, v):
        r = v.w(consts=frozenset(k for k in v.consts if k[1]))
        return None if r.is_bottom else r

    def narrow(self, expr, f, st):
        if isinstance(expr, ast.NamedExpr): expr = expr.target
        if isinstance(expr, ast.Name):
            fr = self.lookup_frame(st, expr.id)
            if fr is None: return True
            v = fr[expr.id]
            n = f(v)
            if n is None: return False
            fr[expr.id] = n
            return True
        if isinstance(expr, ast.Attribute):
            save = self.handlers; self.handlers = {}
            try: base = self.eval(expr.value, st)
            finally: self.handlers = save
            os_ = list(self.objs(st, base))
            os_ = [o for o in os_ if o.kind in ("inst", "opaque")] if not base.unk else []
            anyok = not os_
            for o in os_:
                v = self.getattr(st, V(refs=frozenset([o.id])), expr.attr, expr, quiet=True)
                n = f(v)
                if n is None: continue
                anyok = True
                o = self.obj(st, o.id)
                if o.kind == "inst" and expr.attr not in (o.get("attrs") or {}):
                    back = self.property_field(st, o, expr.attr)
                    if back is not None and back in (o.get("attrs") or {}):
                        at = dict(o.get("attrs")); m = f(at[back])
                        if m is not None: at[back] = m; self.put(st, o.w(attrs=at))
                    continue
                if expr.attr in (o.get("attrs") or {}):
                    at = dict(o.get("attrs")); at[expr.attr] = n
                    self.put(st, o.w(attrs=at))
            return anyok
        return True

    def property_field(self, st, o, name):
        """the field a property only returns"""
        c = self.obj(st, o.get("cls")) if isinstance(o.get("cls"), str) else o.get("cls")
        if isinstance(c, V): c = next(iter(self.objs(st, c)), None)
        v = self.class_lookup(st, c, name) if c is not None and hasattr(c, "kind") else None
        for fo in (self.objs(st, v) if v is not None else ()):
            if fo.kind == "func" and fo.get("isprop"):
                n = fo.get("node")
                body = [b for b in n.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
                if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) and \
                        isinstance(body[0].value.value, ast.Name) and body[0].value.value.id == "self":
                    return body[0].value.attr
        return None

    # ---- loops
    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        if getattr(self, "_dead", False):
            self._dead = False
            return Flow(exc=st)
        seq = self.known_items(st, it)
        fr = self.frames[-1]
        cd = self.alldeps(st, it)
        if seq is not None and len(seq) <= 12:
            out = Flow(); cur = st; brk = None
            for i, item in enumerate(seq):
                if cur is None: break
                fr.loops.append((s, "unrolled", i))
                self.assign(s.target, item, cur)
                nc = len(fr.contpc)
                f = self.exec_block(s.body, cur)
                fr.loops.pop()
                for c in fr.contpc[nc:]: fr.pc.remove(c)
                del fr.contpc[nc:]
                brk = join_state(brk, f.brk)
                cur = join_state(f.next, f.cont)
                f.brk = f.cont = None
                out.merge_exits(f)
            if s.orelse and cur is not None:
                f = self.exec_block(s.orelse, cur); out.merge_exits(f); cur = f.next
            out.next = join_state(cur, brk)
            return out
        return self.loop(s, st, it, cd)

    def s_Match(self, s, st):
        """match: every case may be taken; names bound by patterns hold anything from the subject"""
        v = self.eval(s.subject, st)
        cd = self.alldeps(st, v)
        fr = self.frames[-1]
        out = Flow(); nxt = None; done = False
        for c in s.cases:
            s2 = st.copy()
            for n in ast.walk(c.pattern):
                nm = getattr(n, "name", None) if isinstance(n, (ast.MatchAs, ast.MatchStar)) else getattr(n, "rest", None) if isinstance(n, ast.MatchMapping) else None
                if nm: self.setname(s2, nm, v if n is c.pattern else V(unk=True, deps=cd), s)
            if c.guard is not None:
                self.eval(c.guard, s2)
                if not self.refine(c.guard, True, s2): continue
            if isinstance(c.pattern, ast.MatchValue):
                t = ast.copy_location(ast.Compare(s.subject, [ast.Eq()], [c.pattern.value]), s.subject)
                tv = self.truth(s2, self.eval(t, s2))
                if tv is False or not self.refine(t, True, s2): continue
            fr.pc.append(cd)
            f = self.exec_block(c.body, s2)
            fr.pc.pop()
            out.merge_exits(f); nxt = join_state(nxt, f.next)
            if c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None: done = True; break
        if not done: nxt = join_state(nxt, st)
        out.next = nxt
        return out

    def s_While(self, s, st):
        return self.loop(s, st, None, E)

    def loop(self, s, st, it, cd):
        fr = self.frames[-1]
        self.stats["loops"] += 1
        out = Flow()
        entry = st
        back = None
        exit_state = None
        brk_all = None
        base_ids = set(st.heap)
        phis = {}
        for n in range(MAX_ITERS):
            cur = join_state(entry, back).copy() if back is not None else entry.copy()
            fl = cur.frames.get(fr.fid)
            if fl is not None:
                for k, y in phis.items():
                    if k in fl: fl[k] = fl[k].w(sym=y)
            head = cur
            pushed = 0
            exit_state = None
            it_out = Flow()
            if it is None:
                c = self.eval(s.test, cur)
                tv = self.truth(cur, c)
                cdw = self.alldeps(cur, c)
                if tv is not True:
                    ex = cur.copy()
                    if self.refine(s.test, False, ex): exit_state = ex
                if tv is False:
                    out.next = exit_state
                    return out
                body = cur.copy()
                self.refine(s.test, True, body)
            else:
                exit_state = cur.copy()
                cdw = cd
                body = cur.copy()
            fr.pc.append(cdw)
            lid = (s, n)
            fr.loops.append((s, "iter"))
            nf = len(fr.facts)
            if it is not None:
                self.assign(s.target, self.iter_item(body, it, s), body)
                if self.track_lv: self.mark_lv(s, body)
            else: fr.facts += self.relations(s.test, True, body)
            f = self.exec_block(s.body, body)
            del fr.facts[nf:]
            fr.loops.pop()
            fr.pc.pop()
            brk = f.brk
            nb = join_state(f.next, f.cont)
            f.brk = f.cont = None
            out.merge_exits(f)
            brk_all = join_state(brk_all, brk)
            if nb is None: break
            f0, f1 = entry.frames.get(fr.fid) or {}, nb.frames.get(fr.fid) or {}
            for k, v in f0.items():
                w = f1.get(k)
                if w is None or v.sym is None or w.sym is None or v.refs or w.refs: continue
                if k not in phis and v.sym != w.sym: phis[k] = Lin.sym(f"phi:{k}@{getattr(s, 'lineno', 0)}@{fr.fid}")
                elif k in phis: self.recs[phis[k].only()] = (v.sym, w.sym, s, self.list_len(st, it) if it is not None else None)
            self.emit("backedge", s, st=nb, entry=entry)
            nb = self.recency(nb, base_ids, s)
            if back is not None and self.leq(nb, back):
                break
            back = join_state(back, nb)
        if it is not None:
            exit_state = join_state(exit_state, back) if back is not None else exit_state
        if exit_state is not None:
            fl = exit_state.frames.get(fr.fid)
            for k, y in phis.items():
                if fl and k in fl and not fl[k].refs: fl[k] = fl[k].w(sym=Lin.sym("end:" + y.only()))
        if s.orelse and exit_state is not None:
            f = self.exec_block(s.orelse, exit_state); out.merge_exits(f); exit_state = f.next
        out.next = join_state(exit_state, brk_all)
        return out

    track_lv = False

    def mark_lv(self, s, st):
        """mark the loop's own variables (and views they select) as belonging to the item in hand"""
        t = frozenset([f"lv:{s.lineno}:{self.frames[-1].fid}"])
        fr = st.frames.get(self.frames[-1].fid)
        for n in ast.walk(s.target):
            if isinstance(n, ast.Name) and fr and n.id in fr:
                v = fr[n.id]
                if not v.refs: fr[n.id] = v.w(tags=v.tags | t)
                else:
                    for o in list(self.objs(st, v)):
                        if o.kind == "array": self.put(st, o.w(lv=(o.get("lv") or E) | t))

    def leq(self, a, b):
        """a adds nothing to b"""
        for fid, f in a.frames.items():
            g = b.frames.get(fid)
            if g is None: return False
            for k, v in f.items():
                o = g.get(k)
                if o is None: return False
                if o is not v and join(o, v) != o: return False
        for k, o in a.heap.items():
            p = b.heap.get(k)
            if p is None: return False
            if p is not o and join_obj(p, o).d != p.d: return False
        return True

    def reach(self, st):
        seen = set(); todo = []
        def addv(v):
            for r in v.refs:
                if r not in seen: seen.add(r); todo.append(r)
        for f in st.frames.values():
            for v in f.values(): addv(v)
        if self.live:
            for v in self.live: addv(v)
        while todo:
            o = self.obj(st, todo.pop())
            if o is None: continue
            for k, x in o.d.items():
                if isinstance(x, V): addv(x)
                elif k in ("attrs", "items") and x:
                    for v in (x.values() if isinstance(x, dict) else x):
                        if isinstance(v, V): addv(v)
                elif k == "base" and x is not None and x not in seen: seen.add(x); todo.append(x)
                elif k in ("args", "kwargs", "defaults", "bases") and x:
                    for v in (x.values() if isinstance(x, dict) else x):
                        if isinstance(v, V): addv(v)
        return seen

    def recency(self, st, base_ids, s):
        """objects allocated in this iteration become 'old' (summary) objects; unreachable ones are dropped"""
        live = self.reach(st)
        ren = {}
        for oid in list(st.heap):
            if oid not in live and not oid.startswith("root:"):
                del st.heap[oid]
                continue
            if oid in base_ids or oid.startswith("root:") or "~" in oid or oid.startswith(("func:", "class:", "ext:")): continue
            ren[oid] = oid + "~"
        if not ren: return st
        def rv(v):
            if v.refs & ren.keys():
                return v.w(refs=frozenset(ren.get(r, r) for r in v.refs))
            return v
        def rx(k, x):
            if isinstance(x, V): return rv(x)
            if k in ("attrs", "items", "args", "kwargs", "defaults") and x is not None:
                if isinstance(x, dict): return {a: (rv(b) if isinstance(b, V) else b) for a, b in x.items()}
                return [rv(b) if isinstance(b, V) else b for b in x]
            if k == "base": return ren.get(x, x)
            return x
        st2 = State({f: {k: rv(v) for k, v in g.items()} for f, g in st.frames.items()}, {}, st.guards)
        for oid, o in st.heap.items():
            nid = ren.get(oid, oid)
            no = Obj(nid, o.kind, **{k: rx(k, x) for k, x in o.d.items()})
            if nid != oid: no = no.w(summary=True)
            st2.heap[nid] = join_obj(st2.heap[nid], no) if nid in st2.heap else no
        return st2

    # ---- with / try
    def s_With(self, s, st):
        ctxs = []
        for item in s.items:
            v = self.eval(item.context_expr, st)
            ctxs.append(v)
            self.emit("with_enter", s, value=v, st=st)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, self.enter(st, v, s), st)
        f = self.exec_block(s.body, st)
        self.emit("with_exit", s, values=ctxs, st=st)
        return f

    s_AsyncWith = s_With

    def enter(self, st, v, s):
        for o in self.objs(st, v):
            if o.kind == "inst":
                m = self.find_method(st, o, "__enter__")
                if m is not None: return self.call(s, m, [v], {}, st, selfarg=True)
        return v

    def s_Try(self, s, st):
        fr = self.frames[-1]
        fr.exc_sink.append(st.copy())
        f = self.exec_block(s.body, st.copy())
        handler_state = join_state(fr.exc_sink.pop(), f.exc)
        out = Flow(ret=f.ret, brk=f.brk, cont=f.cont)
        cur = f.next
        if s.orelse and cur is not None:
            g = self.exec_block(s.orelse, cur)
            out.merge_exits(g); cur = g.next
        nxt = cur
        if s.handlers and self.pending is not None and f.next is None and f.exc is not None:
            g = self.inject_try(s, f, f.exc)
            if g is not None: out.merge_exits(g); nxt = g.next
            else: out.exc = join_state(out.exc, f.exc)
        elif s.handlers and not (self.quiet_try and f.exc is None):
            for h in s.handlers:
                hs = handler_state.copy()
                if h.type is not None: self.eval(h.type, hs)
                if h.name: self.setname(hs, h.name, UNK, h)
                g = self.exec_block(h.body, hs)
                out.merge_exits(g)
                nxt = join_state(nxt, g.next)
        elif not s.handlers:
            out.exc = join_state(out.exc, f.exc)
        if s.finalbody:
            outs = Flow()
            if nxt is not None:
                g = self.exec_block(s.finalbody, nxt); outs.merge_exits(g); nxt = g.next
            if out.ret is not None:
                g = self.exec_block(s.finalbody, out.ret[1].copy()); outs.merge_exits(g)
                out.ret = (out.ret[0], g.next) if g.next is not None else None
            if out.exc is not None or not s.handlers:
                g = self.exec_block(s.finalbody, (out.exc or handler_state).copy())
                out.exc = g.next
            for a in ("brk", "cont"):
                x = getattr(out, a)
                if x is not None:
                    g = self.exec_block(s.finalbody, x.copy()); setattr(out, a, g.next)
            out.merge_exits(outs)
        out.next = nxt
        return out

    # ------------------------------------------------------------------ names
    def lookup_frame(self, st, name):
        fr = self.frames[-1]
        f = st.frames.get(fr.fid)
        if f is not None and name in f: return f
        c = fr.closure
        seen = 0
        while c is not None and seen < 10:
            f = st.frames.get(c)
            if f is not None and name in f: return f
            c = self.closure_of.get(c); seen += 1
        return None

    closure_of = {}

    def getname(self, st, name, node):
        f = self.lookup_frame(st, name)
        if f is not None:
            return f[name]
        fr = self.frames[-1]
        g = self.mods.get(fr.module.name)
        if g is None and fr.fid.startswith("mod:"): g = st.frames.get(fr.fid)
        if g is not None and name in g: return g[name]
        if fr.fid.startswith(("mod:", "cls:")):
            g = st.frames.get("mod:" + fr.module.name)
            if g and name in g: return g[name]
        if name in BUILTINS: return self.ext("builtins." + name)
        self.emit("noname", node, name=name, st=st)
        return UNK

    def setname(self, st, name, v, node):
        fr = self.frames[-1]
        if name in fr.globals_decl:
            self.emit("global_write", node, name=name, value=v, st=st)
            self.mods[fr.module.name][name] = v
            return
        if name in fr.nonlocal_decl and fr.closure in st.frames:
            st.frames[fr.closure][name] = v
            return
        f = st.frames[fr.fid]
        f[name] = v
        if getattr(self, "_ptab", None):
            for k in [k for k in f if k.startswith("?p:")]:
                if k == "?p:" + name: f[k] = V(consts=frozenset([("pred", ("", None))])); continue
                for t, c in f[k].consts:
                    if c[0] and name in self._ptab[c[0]][1]:
                        f[k] = V(consts=frozenset((t2, ("", c2[1])) for t2, c2 in f[k].consts)); break

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.emit("assign", t, name=t.id, value=v, st=st)
            self.setname(st, t.id, self.withctl(v), t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(st, v, n if not star else None, t)
            if star:
                i = star[0]
                after = n - i - 1
                if items is not None and len(items) >= n - 1:
                    mid = items[i:len(items) - after]
                    vals = items[:i] + [self.alloc(st, t, "list", items=list(mid))] + (items[len(items) - after:] if after else [])
                else:
                    e = self.element(st, v)
                    vals = [e] * i + [self.alloc(st, t, "list", items=None, rest=e)] + [e] * after
                for e, x in zip(t.elts, vals): self.assign(e.value if isinstance(e, ast.Starred) else e, x, st)
                return
            if items is None:
                e = self.element(st, v)
                items = [e] * n
            for e, x in zip(t.elts, items): self.assign(e, x, st)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            self.setattr(st, base, t.attr, self.withctl(v), t)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            idx = self.eval_index(t.slice, st)
            self.store_sub(t, base, idx, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def unpack(self, st, v, n, node):
        """known elements of v for unpacking into n targets"""
        cands = []; wrong = []; unknown = False
        for o in self.objs(st, v):
            if o.kind in ("tuple", "list") and o.get("items") is not None: cands.append(list(o.get("items")))
            elif o.kind in ("array", "opaque") and n is not None and n <= 8:
                cands.append([self.element(st, V(refs=frozenset([o.id])))] * n)
            elif o.kind in ("list", "tuple") and n is not None and n <= 8 and o.get("rest") is not None:
                cands.append([self.element(st, V(refs=frozenset([o.id])))] * n)
            else: unknown = True
        if n is None and cands: n = len(cands[0])
        wrong = [c for c in cands if len(c) != n]; cands = [c for c in cands if len(c) == n]
        if wrong and not cands and not unknown and not v.unk: self.emit("badunpack", node, n=n, have=len(wrong[0]), st=st)
        if unknown or not cands: return None
        res = None
        for its in cands:
            its = [x.w(deps=x.deps | v.deps, ctl=x.ctl | v.ctl) for x in its]
            res = its if res is None else [join(a, b) for a, b in zip(res, its)]
        if v.unk and res is not None: res = [join(x, V(unk=True, deps=v.deps, unit=x.unit)) for x in res]
        return res

    def element(self, st, v):
        """an element obtained by iterating over v"""
        r = BOT
        if v.may_none(): self.emit("none_arith", self.cur_node, value=v, op="iteration", st=st)
        for o in self.objs(st, v):
            if o.kind in ("list", "tuple", "set", "gen"):
                r = join(r, joinall((o.get("items") or []) + ([o.get("rest")] if o.get("rest") is not None else [])))
            elif o.kind == "dict":
                for k in (o.get("items") or {}): r = join(r, const(k))
                if o.get("keys") is not None: r = join(r, o.get("keys"))
                elif o.get("rest") is not None or o.get("root"): r = join(r, V(unk=True, deps=v.deps))
            elif o.kind in ("array", "opaque"):
                if o.get("root") and o.kind == "opaque" and not o.get("axes"):
                    r = join(r, self.root_child(st, o, "*", "item"))
                else:
                    r = join(r, self.models.index(self.cur_node, V(refs=frozenset([o.id])), [("int", V(unk=True))], st))
            elif o.kind == "range":
                r = join(r, self.range_item(o))
            elif o.kind == "inst":
                m = self.find_method(st, o, "__iter__")
                if m is not None:
                    it = self.call(self.cur_node, m, [V(refs=frozenset([o.id]))], {}, st)
                    r = join(r, self.element(st, it) if any(x.kind != "inst" for x in self.objs(st, it)) else UNK)
                else: r = join(r, UNK)
            else:
                r = join(r, UNK)
        if v.unk: r = join(r, V(unk=True, deps=v.deps, ctl=v.ctl, unit=U_TOP))
        return r.w(deps=r.deps | v.deps, ctl=r.ctl | v.ctl)

    def range_item(self, o):
        a, b, step = o.get("args3")
        ax = None
        for x in (a, b):
            if x is not None and x.ax is not None: ax = ("idx", x.ax[1])
        k = self.counter(f"k@{o.id}", self.range_count(o))
        s0 = a.sym if a is not None else Lin.const(0)
        s1 = step.sym if step is not None else Lin.const(1)
        sym = s0 + s1 * k if s0 is not None and s1 is not None else k
        c = joinall([x for x in (a, b, step) if x is not None])
        return V(unk=True, deps=c.deps, ctl=c.ctl, sym=sym, ax=ax, unit=U_POLY, tags=frozenset(t for t in c.tags if t.startswith("lv:")))

    def iter_items(self, st, v):
        k = self.known_items(st, v)
        return k if k is not None else [self.element(st, v)]

    def iter_item(self, st, v, node):
        r = self.element(st, v)
        if r.sym is None and not r.refs and r.unk and not v.unk:
            k = self.counter(f"k@{'+'.join(sorted(v.refs))}@{getattr(node, 'lineno', 0)}", self.list_len(st, v))
            r = self.elem_sym(st, v, r, k)
        return r

    def elem_sym(self, st, base, r, k):
        """the k-th number of a list"""
        if r.sym is not None and k is not None and base.refs and not base.unk:
            cs = {o.get("lctr") for o in self.objs(st, base)}
            c = next(iter(cs)) if len(cs) == 1 else None
            return r.w(sym=r.sym.subst(c, k)) if c is not None else r
        if r.sym is not None or r.refs or not r.unk or base.unk or not base.refs or k is None: return r
        if not all(o.kind in ("list", "tuple") for o in self.objs(st, base)): return r
        n = f"elem:{'+'.join(sorted(base.refs))}[{k!r}]"
        self.elems[n] = (tuple(sorted(base.refs)), k)
        return r.w(sym=Lin.sym(n))

    def known_items(self, st, v):
        if v.unk or v.consts: 
            if len(v.consts) == 1 and not v.refs and not v.unk:
                t, c = next(iter(v.consts))
                if t == "str" and len(c) <= 8: return [const(x) for x in c]
            return None
        os_ = list(self.objs(st, v))
        if len(os_) != 1:
            its = [o.get("items") if o.kind == "tuple" else None for o in os_]
            if not its or any(i is None for i in its) or len({len(i) for i in its}) != 1: return None
            return [joinall(list(c)) for c in zip(*its)]
        o = os_[0]
        if o.kind == "inst" and not o.get("root") and self.find_method(st, o, "__iter__") and not self.busy_iter:
            m = self.find_method(st, o, "__iter__")
            self.busy_iter = True
            try: r = self.call(self.cur_node, m, [V(refs=frozenset([o.id]))], {}, st)
            finally: self.busy_iter = False
            return self.known_items(st, r) if not any(x.kind == "inst" for x in self.objs(st, r)) else None
        if o.kind == "gen" and o.get("items") and not o.get("summary"): return list(o.get("items"))
        if o.kind in ("list", "tuple") and o.get("items") is not None and not o.get("summary"): return list(o.get("items"))
        if o.kind == "dict" and o.get("items") is not None and o.get("rest") is None and not o.get("root") and not o.get("summary"):
            return [const(k) for k in o.get("items")]
        if o.kind == "range":
            a, b, step = o.get("args3")
            try:
                r = range(a.single_const() if a is not None else 0, b.single_const(), step.single_const() if step is not None else 1)
            except (KeyError, TypeError, ValueError):
                return None
            if len(r) <= 8: return [const(i) for i in r]
        if o.kind == "array" and o.get("elems") is not None: return list(o.get("elems"))
        return None

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise AnalysisBroken(f"unsupported expression {type(e).__name__}")
        return m(e, st)

    def e_Constant(self, e, st):
        if e.value is Ellipsis: return V(consts=frozenset([("ellipsis", "...")]))
        if isinstance(e.value, (bytes, complex)): return UNK
        if isinstance(e.value, int) and not isinstance(e.value, bool) and e.value != 0:
            return const(e.value, bits=frozenset([f"L:{e.value}"]))
        return const(e.value)

    def e_Name(self, e, st): return self.getname(st, e.id, e)

    def e_JoinedStr(self, e, st):
        d = ctl = E; parts = [""]
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                v = self.eval(x.value, st); d = d | self.alldeps(st, v); ctl = ctl | v.ctl
                ok = parts is not None and v.consts and not v.refs and not v.unk and x.conversion == -1 and x.format_spec is None and all(t in ("str", "int") for t, _ in v.consts)
                parts = [p + str(c) for p in parts for _, c in v.consts] if ok and len(parts) * len(v.consts) <= 16 else None
            elif parts is not None: parts = [p + str(x.value) for p in parts]
        if parts is not None: return joinall([const(p) for p in parts]).w(deps=d, ctl=ctl)
        return V(unk=True, deps=d)

    def e_FormattedValue(self, e, st): return self.eval(e.value, st)

    def e_Tuple(self, e, st): return self.seq(e, st, "tuple")
    def e_List(self, e, st): return self.seq(e, st, "list")
    def e_Set(self, e, st): return self.seq(e, st, "set")

    def seq(self, e, st, kind):
        items = []
        known = True
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                k = self.known_items(st, v)
                if k is None:
                    # a shape tuple with known axes unpacks to known items
                    known = False; items.append(self.element(st, v))
                else: items.extend(k)
            else: items.append(self.eval(x, st))
        if known: return self.alloc(st, e, kind, items=items)
        return self.alloc(st, e, kind, items=None, rest=joinall(items))

    def e_Dict(self, e, st):
        items = {}; rest = None
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st)
            if k is None:
                os = list(self.objs(st, vv))
                if len(os) == 1 and os[0].kind == "dict" and not os[0].get("root") and os[0].get("rest") is None and not os[0].get("summary") and not vv.unk and not vv.consts:
                    items.update(os[0].get("items") or {}); continue
                rest = join_maybe_v(rest, joinall(list(self.dict_values(st, vv)))); continue
            kv = self.eval(k, st)
            try: items[kv.single_const()] = vv
            except KeyError: rest = join_maybe_v(rest, vv)
        return self.alloc(st, e, "dict", items=items, rest=rest)

    def dict_values(self, st, v):
        for o in self.objs(st, v):
            if o.kind == "dict":
                yield from (o.get("items") or {}).values()
                if o.get("rest") is not None: yield o.get("rest")
                if o.get("root"): yield self.root_child(st, o, "*", "item")
            else: yield UNK

    def e_IfExp(self, e, st):
        c = self.eval(e.test, st)
        tv = self.truth(st, c)
        cd = self.alldeps(st, c)
        r = BOT
        results = []
        for want, x in ((True, e.body), (False, e.orelse)):
            if tv is not None and tv != want: continue
            s2 = st.copy()
            if not self.refine(e.test, want, s2): continue
            fr = self.frames[-1]
            fr.pc.append(cd)
            nf = len(fr.facts); fr.facts += self.relations(e.test, want, s2)
            v = self.eval(x, s2)
            fr.pc.pop(); del fr.facts[nf:]
            results.append((v, s2))
        ns = None
        for v, s2 in results:
            r = join(r, v); ns = join_state(ns, s2)
        if ns is not None:
            # keep original narrowing-free bindings but take heap effects
            st.heap.clear(); st.heap.update(ns.heap); st.guards = ns.guards
        if len(results) == 2 and r.sym is None and not r.refs and all(v.sym is not None for v, _ in results):
            r = r.w(sym=struct(f"sel:@{e.lineno}", results[0][0].sym, results[1][0].sym))
        return r.w(ctl=r.ctl | cd)

    def e_BoolOp(self, e, st):
        res = BOT
        deps = E
        s2 = st
        isand = isinstance(e.op, ast.And)
        definite = None
        cur = st.copy()
        for i, x in enumerate(e.values):
            v = self.eval(x, cur)
            deps = deps | self.alldeps(cur, v)
            tv = self.truth(cur, v)
            last = i == len(e.values) - 1
            for k, o in cur.heap.items(): 
                if k not in st.heap: st.heap[k] = o
            if last:
                res = join(res, v); break
            if tv is (not isand):
                res = join(res, v); break
            if tv is None:
                # may short circuit here with a falsy (and) / truthy (or) value
                if isand:
                    sc = v.w(consts=frozenset(k for k in v.consts if not k[1]), refs=E if not v.refs else v.refs)
                    if v.unk or any(o.kind in ("array", "opaque", "list", "tuple", "dict") for o in self.objs(cur, v)):
                        sc = join(sc, V(unk=False, consts=frozenset([("bool", False)])))
                        sc = sc.w(refs=E)
                else:
                    sc = v.w(consts=frozenset(k for k in v.consts if k[1]))
                res = join(res, sc)
            if not self.refine(x, isand, cur):
                res = join(res, v); break
        return res.w(deps=res.deps | deps)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            tv = self.truth(st, v)
            d = self.alldeps(st, v)
            if tv is not None: return const(not tv, deps=d)
            return V(consts=frozenset([("bool", True), ("bool", False)]), deps=d)
        try:
            c = v.single_const()
            if isinstance(e.op, ast.USub): return const(-c, deps=v.deps, ctl=v.ctl)
            if isinstance(e.op, ast.UAdd): return v
            if isinstance(e.op, ast.Invert) and isinstance(c, int): 
                return const(~c, deps=v.deps).w(bits=frozenset("N:" + b for b in (v.bits or ())))
        except (KeyError, TypeError): pass
        return self.models.unary(e, e.op, v, st)

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(e, e.op, a, b, st)

    def binop(self, node, op, a, b, st, inplace=False):
        # strings / sequences
        if isinstance(op, ast.Add):
            sa = [o for o in self.objs(st, a) if o.kind in ("list", "tuple")]
            sb = [o for o in self.objs(st, b) if o.kind in ("list", "tuple")]
            if sa and sb and not a.unk and not b.unk:
                if len(sa) == 1 and len(sb) == 1 and sa[0].get("items") is not None and sb[0].get("items") is not None:
                    return self.alloc(st, node, sa[0].kind, items=list(sa[0].get("items")) + list(sb[0].get("items")))
                n = [self.list_len(st, x) for x in (a, b)]; t = [self.list_sum(st, x) for x in (a, b)]
                return self.alloc(st, node, sa[0].kind, items=None, rest=join(self.element(st, a), self.element(st, b)),
                                  llen=n[0] + n[1] if None not in n else None, lsum=t[0] + t[1] if None not in t else None, lfacts=self.facts())
        if isinstance(op, ast.Mod) and any(t == "str" for t, _ in a.consts):
            return V(unk=True, deps=self.alldeps(st, a) | self.alldeps(st, b))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                sx = [o for o in self.objs(st, x) if o.kind in ("list", "tuple")]
                if sx and not any(o.kind in ("array", "opaque") for o in self.objs(st, y)):
                    n, e = self.list_len(st, x), self.element(st, x)
                    ok = n is not None and y.sym is not None and e.sym is not None
                    return self.alloc(st, node, sx[0].kind, items=None, rest=e, llen=n * y.sym if ok else None, lsum=n * y.sym * e.sym if ok else None,
                                      lfacts=self.facts())
        return self.models.binop(node, op, a, b, st)

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            v = self.models.compare(e, op, left, right, st)
            res = v if res is None else self.models.binop(e, ast.BitAnd(), res, v, st) if v.refs else v.w(deps=v.deps | res.deps)
            if len(e.ops) > 1 and not v.refs: res = V(consts=frozenset([("bool", True), ("bool", False)]), deps=res.deps | v.deps)
            left = right
        return res

    def e_Attribute(self, e, st):
        base = self.eval(e.value, st)
        return self.getattr(st, base, e.attr, e)

    def e_Subscript(self, e, st):
        base = self.eval(e.value, st)
        idx = self.eval_index(e.slice, st)
        return self.subscript(e, base, idx, st)

    def e_Slice(self, e, st):
        a = [None if x is None else self.eval(x, st) for x in (e.lower, e.upper, e.step)]
        return self.alloc(st, e, "slice", args3=a, lo=a[0], hi=a[1])

    def eval_index(self, s, st):
        """list of (kind, V): kind in int, slice, new, ellipsis, val"""
        elts = s.elts if isinstance(s, ast.Tuple) else [s]
        out = []
        for x in elts:
            if isinstance(x, ast.Slice):
                lo = self.eval(x.lower, st) if x.lower is not None else None
                hi = self.eval(x.upper, st) if x.upper is not None else None
                stp = self.eval(x.step, st) if x.step is not None else None
                out.append(("slice", (lo, hi, stp)))
            elif isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                k = self.known_items(st, v)
                if k is None: out.append(("star", v))
                else:
                    for y in k: out.append(self.classify_index(y, st))
            else:
                out.append(self.classify_index(self.eval(x, st), st))
        if len(elts) == 1 and not isinstance(s, ast.Tuple) and len(out) == 1 and out[0][0] == "tuple":
            return out[0][1]
        # a tuple nested in an index list is a single fancy index
        return [(k, v) if k != "tuple" else ("val", self.alloc(st, s, "tuple", items=[y for _, y in v if isinstance(y, V)])) for k, v in out]

    def classify_index(self, v, st):
        if v.only_none(): return ("new", v)
        if any(t == "ellipsis" for t, _ in v.consts): return ("ellipsis", v)
        os_ = list(self.objs(st, v))
        if not os_: return ("int", v)
        if len(os_) == 1 and os_[0].kind == "tuple" and os_[0].get("items") is not None:
            return ("tuple", [self.classify_index(x, st) for x in os_[0].get("items")])
        if all(o.kind == "slice" for o in os_):
            a = os_[0].get("args3")
            return ("slice", tuple(a) if a else (None, None, None))
        return ("val", v)

    def subscript(self, node, base, idx, st):
        self.emit("load_sub", node, base=base, idx=idx, st=st)
        if base.may_none(): self.emit("none_arith", node, value=base, op="subscript", st=st)
        r = BOT
        idxdeps = E
        for k, x in idx:
            for y in (x if isinstance(x, tuple) else (x,)):
                if y is not None: idxdeps = idxdeps | self.alldeps(st, y)
        for o in list(self.objs(st, base)):
            if o.kind in ("list", "tuple", "gen"):
                its = o.get("items")
                if len(idx) == 1 and idx[0][0] == "int" and its is not None:
                    try:
                        c = idx[0][1].single_const()
                        if isinstance(c, int):
                            if -len(its) <= c < len(its): r = join(r, its[c]); continue
                            self.emit("badindex", node, n=len(its), i=c, st=st); continue
                    except KeyError: pass
                if len(idx) == 1 and idx[0][0] == "slice":
                    lo, hi, stp = idx[0][1]
                    try:
                        l = lo.single_const() if lo is not None else None
                        h = hi.single_const() if hi is not None else None
                        t = stp.single_const() if stp is not None else None
                        if its is not None:
                            r = join(r, self.alloc(st, node, o.kind, items=list(its[l:h:t]))); continue
                    except KeyError: pass
                    r = join(r, self.alloc(st, node, o.kind, items=None, rest=self.element(st, V(refs=frozenset([o.id]))))); continue
                r = join(r, self.element(st, V(refs=frozenset([o.id]))))
            elif o.kind == "dict":
                r = join(r, self.dict_get(st, o, idx[0][1] if idx and isinstance(idx[0][1], V) else UNK, node))
            elif o.kind in ("array", "opaque"):
                if o.kind == "opaque" and o.get("root") and len(idx) == 1 and idx[0][0] == "int" and not o.get("axes"):
                    try:
                        c = idx[0][1].single_const()
                        if isinstance(c, str):
                            at = o.get("items") or {}
                            if c in at: r = join(r, at[c])
                            else: r = join(r, self.root_child(st, o, c, "item"))
                            continue
                    except KeyError: pass
                    kv = idx[0][1]
                    if kv.consts and not kv.unk and not kv.refs and all(t == "str" for t, _ in kv.consts):
                        at = o.get("items") or {}
                        for t, c in kv.consts: r = join(r, at[c] if c in at else self.root_child(st, o, c, "item"))
                        continue
                    if o.get("exttype") == "Rows": r = join(r, self.rows_of(st, o, idx)); continue
                    key = "*" 
                    at = o.get("items") or {}
                    x = self.root_child(st, o, "*", "item")
                    r = join(r, joinall([x] + list(at.values())) if at else x)
                    continue
                if o.get("exttype") == "Rows": r = join(r, self.rows_of(st, o, idx)); continue
                r = join(r, self.models.index(node, V(refs=frozenset([o.id])), idx, st))
            elif o.kind == "inst":
                m = self.find_method(st, o, "__getitem__")
                if m is not None: r = join(r, self.call(node, m, [V(refs=frozenset([o.id])), idx[0][1] if isinstance(idx[0][1], V) else UNK], {}, st, selfarg=True))
                elif o.get("extbase"): r = join(r, self.models.ext_item(st, o, idx, node))
                else: r = join(r, UNK)
            elif o.kind == "range":
                r = join(r, self.range_item(o))
            elif o.kind == "ext":
                r = join(r, V(unk=True, unit=U_TOP))
            else: r = join(r, V(unk=True, unit=U_TOP))
        if base.unk:
            r = join(r, V(unk=True, unit=base.unit, bits=base.bits, keep=base.keep))
        for t, c in base.consts:
            if t == "str": r = join(r, V(unk=True))
        if len(idx) == 1 and idx[0][0] == "int": r = self.elem_sym(st, base, r, idx[0][1].sym)
        return r.w(deps=r.deps | base.deps | idxdeps, ctl=r.ctl | base.ctl)

    def rows_of(self, st, o, idx):
        """a table root reduced to some of its rows: the same columns, plus what the selection looked at"""
        tags, deps = o.get("rowtags") or E, o.get("rowdeps") or E
        for k, x in idx:
            if k == "val" and isinstance(x, V): tags = tags | self.content(st, x).tags; deps = deps | self.alldeps(st, x)
        n = o.w(rowtags=tags, rowdeps=deps)
        n.id = "root:" + o.get("root") + "|" + ",".join(sorted(tags)) + "|" + ",".join(sorted(deps))
        self.put(st, n)
        return V(refs=frozenset([n.id]))

    def dict_get(self, st, o, key, node, default=None):
        items = o.get("items") or {}
        try:
            c = key.single_const()
            if c in items: 
                return items[c]
            if o.get("root") is not None:
                lab = f"{o.get('root')}[{c}]"
                spec = self.root_specs.get(lab)
                if spec is None:
                    gen = self.root_specs.get(o.get("root"), {}).get("items")
                    spec = gen(c) if callable(gen) else (gen or {})
                if spec.get("kind") == "const": return const(spec["value"], deps=frozenset([lab]) if spec.get("dep", True) else E)
                if spec.get("kind") == "none": return NONE
                if spec.get("kind") == "scalar" or spec.get("flag"):
                    return self.root_scalar(lab, spec)
                v = self.root(st, lab, spec)
                return join(v, NONE) if spec.get("optional") else v
            if o.get("rest") is not None: return o.get("rest") if default is None else join(o.get("rest"), default)
            if default is not None: return default
            self.emit("badkey", node, key=c, obj=o, st=st)
            return UNK
        except KeyError:
            r = joinall(list(items.values()) + ([o.get("rest")] if o.get("rest") is not None else []))
            if o.get("root") is not None: r = join(r, self.root(st, f"{o.get('root')}[*]", {}))
            if default is not None: r = join(r, default)
            return r

    def store_sub(self, node, base, idx, v, st, aug=None, rhs=None, old=None):
        idxdeps = E
        for k, x in idx:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, V): idxdeps = idxdeps | self.alldeps(st, y)
        for o in list(self.objs(st, base)):
            o = self.obj(st, o.id)
            if o.kind in ("array", "opaque") and not (o.kind == "opaque" and o.get("root") and not o.get("axes") and
                                                       len(idx) == 1 and idx[0][0] == "int" and any(t == "str" for t, _ in idx[0][1].consts)):
                ow = self.owner(st, o)
                full = self.models.is_full_index(idx)
                new = self.withctl(self.content(st, v))
                new = new.w(deps=new.deps, ctl=new.ctl | idxdeps | base.ctl)
                new = self.dq_adjust(o, idx, v, new, st, aug, rhs, old)
                if self.pixel and len(idx) == 1 and idx[0][0] in ("val", "int") and isinstance(idx[0][1], V) and (t := pixel.truth(self.content(st, idx[0][1]))) is not None:
                    if not t: continue      # not this pixel
                    full = True
                self.emit("store", node, obj=o, owner=ow, idx=idx, value=v, rhs=rhs, aug=aug, old=self.obj_content(st, o),
                          how="sub", full=full, st=st, vcontent=new, idxdeps=idxdeps, target=base)
                if self.track_lv: o = self.obj(st, o.id); ow = self.owner(st, o)
                self.models.check_store(node, o, idx, v, st)
                if ow is None: continue
                strong = full and ow is o and not ow.get("summary") and len(base.refs) == 1
                oc = ow.get("content")
                if oc is None or strong or oc.is_bottom: c = new
                else: c = join(oc, new)
                c = self.masked_tags(ow, idx, v, new, oc, c, st)
                self.put(st, ow.w(content=c, written=True, elems=None))
            elif o.kind == "dict" or o.kind == "opaque":
                self.emit("store_item", node, obj=o, key=idx[0][1], value=v, st=st)
                items = dict(o.get("items") or {})
                nv = self.withctl(v)
                try:
                    c = idx[0][1].single_const()
                    items[c] = nv if not o.get("summary") else (join(items[c], nv) if c in items else nv)
                    self.put(st, o.w(items=items))
                except (KeyError, AttributeError):
                    self.put(st, o.w(rest=join_maybe_v(o.get("rest"), nv),
                                     keys=join_maybe_v(o.get("keys"), idx[0][1]) if isinstance(idx[0][1], V) else None))
            elif o.kind == "list":
                self.emit("mutate", node, obj=o, how="setitem", value=v, st=st)
                its = o.get("items")
                nv = self.withctl(v)
                try:
                    c = idx[0][1].single_const() if idx[0][0] == "int" else None
                    if its is not None and isinstance(c, int) and -len(its) <= c < len(its) and not o.get("summary"):
                        its = list(its); its[c] = nv
                        self.put(st, o.w(items=its)); continue
                except KeyError: pass
                self.put(st, o.w(items=None, rest=joinall((its or []) + ([o.get("rest")] if o.get("rest") is not None else []) + [nv])))
            elif o.kind == "inst":
                m = self.find_method(st, o, "__setitem__")
                if m is not None: self.call(node, m, [V(refs=frozenset([o.id])), idx[0][1] if isinstance(idx[0][1], V) else UNK, v], {}, st, selfarg=True)
                else: self.emit("store_item", node, obj=o, key=idx[0][1], value=v, st=st)
            elif o.kind == "ext":
                self.emit("store_item", node, obj=o, key=idx[0][1], value=v, st=st)

    def masked_tags(self, ow, idx, v, new, oc, c, st):
        """what a masked store settles for the whole array: repaired NaN, excluded samples, withdrawn jump flags"""
        tags = E
        for k, x in idx:
            if k in ("int", "val", "arr") and isinstance(x, V): tags = tags | self.content(st, x).tags
        if not tags: return c
        if new.consts and not new.unk and not new.refs and not oc.keep and all(x in (0, False) for t, x in new.consts):
            # a weight that is zero wherever the flags are set
            ex = frozenset("excl:" + t[5:] for t in tags if t.startswith("test:"))
            if ex: c = c.w(tags=c.tags | ex)
        if not c.tags: return c
        gone = set()
        if "nan" in c.tags and "nan" not in new.tags and ("isnan:" + ow.id in tags or "isfinite:" + ow.id in tags): gone.add("nan")
        tests = {t[5:] for t in tags if t.startswith("test:")}
        if tests:
            old = oc.tags if oc is not None else E
            if not new.refs and (v.consts and not v.unk and not v.refs): gone |= self.models.untested(tags)
            cleared = any(t.startswith("clear:F:JUMP_DET") for t in new.tags)
            for f in tests:
                if "coef:" + f not in old: gone.add("coef:" + f)
                if "rawjump:" + f in c.tags and (cleared and "JUMP_DET" in tests or "rawjump:" + f not in old): gone.add("rawjump:" + f)
        return c.w(tags=c.tags - frozenset(gone)) if gone else c

    def dq_adjust(self, o, idx, v, new, st, aug, rhs, old):
        """bits a masked store leaves alone although the stored number does not show it"""
        oc = self.obj_content(st, o)
        if not oc.keep: return new
        tags = E; ln = getattr(self.cur_node, "lineno", 0)
        for k, x in idx:
            if k in ("int", "val", "arr") or isinstance(x, V):
                if isinstance(x, V): tags = tags | self.content(st, x).tags
        only = frozenset(t[5:].rsplit(":", 1)[0] for t in tags if t.startswith("only:"))
        if aug is None and only and not v.refs and not v.unk and v.consts and not (new.keep or E) >= oc.keep:
            # everywhere the word equals exactly that flag: no other bit is there to lose
            return new.w(keep=oc.keep, tags=new.tags | frozenset(f"clear:{f}@only:{ln}" for f in only))
        if isinstance(aug, ast.Sub) and rhs is not None:
            fb = self.content(st, rhs).bits
            if fb and all(t.startswith("F:") for t in fb) and all("test:" + t[2:] in tags for t in fb) and len(fb) == 1:
                return new.w(keep=oc.keep, tags=(new.tags - {"dqsub"}) | frozenset(f"clear:{t}@sub:{ln}" for t in fb))
        return new

    # ---- comprehension
    def comp(self, e, st, elt_fn, kind):
        fr = self.frames[-1]
        saved = dict(st.frames[fr.fid])
        res = []
        known = self.comp_rec(e, st, 0, elt_fn, res)
        cur = st.frames[fr.fid]
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    if n.id in saved: cur[n.id] = saved[n.id]
                    else: cur.pop(n.id, None)
        return known, res

    def comp_rec(self, e, st, i, elt_fn, res):
        fr = self.frames[-1]
        if i == len(e.generators):
            res.append(elt_fn(st)); return True
        g = e.generators[i]
        it = self.eval(g.iter, st)
        seq = self.known_items(st, it)
        cd = self.alldeps(st, it)
        known = seq is not None and len(seq) <= 12
        items = seq if known else [self.element(st, it)]
        self._complen = None
        n = self.list_len(st, it)
        rng = [o.id for o in self.objs(st, it) if o.kind == "range"]
        exact = known
        for k, item in enumerate(items):
            fr.loops.append((e, "comp", k) if exact else (e, "comp"))
            fr.pc.append(E)
            self.assign(g.target, item, st)
            ok = True
            npc = 0
            for c in g.ifs:
                v = self.eval(c, st)
                tv = self.truth(st, v)
                fr.pc.append(self.alldeps(st, v)); npc += 1
                if tv is False: ok = False; break
                if tv is None: known = False
                self.refine(c, True, st)
            if ok:
                k = self.comp_rec(e, st, i + 1, elt_fn, res)
                known = known and k
            for _ in range(npc): fr.pc.pop()
            fr.pc.pop()
            fr.loops.pop()
        self._complen = n
        self._compctr = f"k@{rng[0]}" if len(rng) == 1 and not known else None
        return known

    def e_ListComp(self, e, st, kind="list"):
        known, res = self.comp(e, st, lambda s: self.withctl(self.eval(e.elt, s)), kind)
        if known: return self.alloc(st, e, kind, items=res)
        n = c = None
        if len(e.generators) == 1 and not e.generators[0].ifs and isinstance(e.generators[0].iter, (ast.Call, ast.Name, ast.Attribute)):
            n, c = self._complen, self._compctr
        return self.alloc(st, e, kind, items=None, rest=joinall(res), llen=n, lctr=c)

    def e_GeneratorExp(self, e, st): return self.e_ListComp(e, st, "gen")
    def e_SetComp(self, e, st): return self.e_ListComp(e, st, "set")

    def e_DictComp(self, e, st):
        known, res = self.comp(e, st, lambda s: (self.eval(e.key, s), self.eval(e.value, s)), "dict")
        items = {}; rest = None; keys = None
        for k, v in res:
            try:
                if not known: raise KeyError
                items[k.single_const()] = v
            except KeyError: rest = join_maybe_v(rest, v); keys = join_maybe_v(keys, k)
        return self.alloc(st, e, "dict", items=items, rest=rest, keys=keys)

    def e_Lambda(self, e, st): return self.make_func(e, st, "<lambda>")

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Starred(self, e, st): return self.eval(e.value, st)

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else NONE
        fr = self.frames[-1]
        self.yielded(fr, [v])
        fr.yields = join_maybe_v(fr.yields, v)
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        fr = self.frames[-1]
        self.yielded(fr, self.known_items(st, v))
        fr.yields = join_maybe_v(fr.yields, self.element(st, v))
        return NONE

    def yielded(self, fr, items):
        """the exact sequence a generator yields, while that is certain"""
        if items is None or fr.pc or any(len(l) < 3 or l[1] != "unrolled" for l in fr.loops): fr.yseq = False
        elif fr.yseq is not False: fr.yseq = (fr.yseq or []) + list(items)

    def e_Await(self, e, st): return self.eval(e.value, st)

    # ------------------------------------------------------------------ attributes
    def class_lookup(self, st, cls_o, name, seen=None):
        """(kind, V) for an attribute found on a class or its stcal bases"""
        seen = seen or set()
        if cls_o is None or cls_o.id in seen: return None
        seen.add(cls_o.id)
        if name in cls_o.get("attrs"): return cls_o.get("attrs")[name]
        for b in cls_o.get("bases"):
            for o in self.objs(st, b):
                if o.kind == "class":
                    r = self.class_lookup(st, o, name, seen)
                    if r is not None: return r
        return None

    def class_setter(self, st, cls_o, name):
        if cls_o is None: return None
        if name in cls_o.get("setters"): return cls_o.get("setters")[name]
        for b in cls_o.get("bases"):
            for o in self.objs(st, b):
                if o.kind == "class":
                    r = self.class_setter(st, o, name)
                    if r is not None: return r
        return None

    def ext_bases(self, st, cls_o):
        r = []
        if cls_o is None: return r
        for b in cls_o.get("bases"):
            for o in self.objs(st, b):
                if o.kind == "ext": r.append(o.get("name"))
                elif o.kind == "class": r += self.ext_bases(st, o)
        return r

    def find_method(self, st, o, name):
        c = self.obj(st, o.get("cls")) if o.get("cls") else None
        return self.class_lookup(st, c, name) if c is not None else None

    def getattr(self, st, base, name, node, quiet=False):
        if not quiet: self.emit("getattr", node, base=base, name=name, st=st)
        r = BOT
        for o in list(self.objs(st, base)):
            r = join(r, self.obj_getattr(st, o, name, node, quiet, base))
        if (base.unk and not any(o.kind == 'opaque' and o.get('exttype') and not o.get('axes') for o in self.objs(st, base))) or any(t != "NoneType" for t, _ in base.consts):
            r = join(r, self.models.scalar_attr(st, base, name, node))
        if base.may_none() and not quiet:
            self.emit("none_attr", node, base=base, name=name, st=st)
        return r.w(deps=r.deps | base.deps, ctl=r.ctl | base.ctl) if (base.deps - r.deps or base.ctl - r.ctl) and not r.is_bottom and not self.is_callable_only(st, r) else r

    def is_callable_only(self, st, v):
        return all(o.kind in ("func", "bound", "class", "module", "ext") for o in self.objs(st, v)) and not v.unk and not v.consts

    def obj_getattr(self, st, o, name, node, quiet=False, base=None):
        k = o.kind
        if k == "module":
            return self.module_attr(o.get("name"), name)
        if k == "ext":
            r = self.models.ext_const(o.get("name") + "." + name)
            if r is not None: return r
            return self.ext(o.get("name") + "." + name)
        if k == "superproxy":
            sv = o.get("self")
            b = self.obj(st, o.get("basecls"))
            r = self.class_lookup(st, b, name)
            if r is None:
                if not quiet and not self.ext_bases(st, b): self.emit("noattr", node, obj=b, name=name, st=st)
                return UNK
            out = BOT
            for f in self.objs(st, r):
                out = join(out, self.bound(st, sv, f) if f.kind == "func" and not f.get("static") else V(refs=frozenset([f.id])))
            return out
        if k in ("inst", "opaque") and o.get("lazycopy") and name not in (o.get("attrs") or {}):
            src = self.obj(st, o.get("lazycopy"))
            if src is not None and src.get("root"):
                v = self.obj_getattr(st, src, name, node, quiet, base)
                v = self.models.deepcopy(st, v, {}, node)
                o = self.obj(st, o.id)
                at = dict(o.get("attrs") or {}); at[name] = v
                self.put(st, o.w(attrs=at))
                return v
        if k == "inst":
            at = o.get("attrs") or {}
            if name in at: return at[name]
            if name == "__class__": return V(refs=frozenset([o.get("cls")]))
            if name == "__dict__": return self.alloc(st, node, "dict", items=dict(at), rest=None)
            m = self.find_method(st, o, name)
            if m is not None:
                r = BOT
                for f in self.objs(st, m):
                    if f.kind == "func":
                        if f.get("isprop"):
                            r = join(r, self.call(node, V(refs=frozenset([f.id])), [V(refs=frozenset([o.id]))], {}, st, selfarg=True))
                        elif f.get("static") is True: r = join(r, V(refs=frozenset([f.id])))
                        elif f.get("static") == "class": r = join(r, self.bound(st, V(refs=frozenset([o.get("cls")])), f))
                        else: r = join(r, self.bound(st, V(refs=frozenset([o.id])), f))
                    else: r = join(r, V(refs=frozenset([f.id])))
                if m.consts or m.unk: r = join(r, m.w(refs=E))
                return r
            if o.get("lazy") and o.get("root"):
                v = self.root_child(st, o, name, "attr")
                o = self.obj(st, o.id)
                at = dict(o.get("attrs") or {}); at[name] = v
                self.put(st, o.w(attrs=at))
                return v
            eb = self.ext_bases(st, self.obj(st, o.get("cls"))) if o.get("cls") else []
            if eb:
                return self.models.ext_inst_attr(st, o, eb, name, node)
            if not quiet: self.emit("noattr", node, obj=o, name=name, st=st)
            return UNK
        if k == "class":
            r = self.class_lookup(st, o, name)
            if r is not None: return r
            if name in ("__name__", "__module__", "__doc__"): return V(unk=True)
            if not quiet: self.emit("noattr", node, obj=o, name=name, st=st)
            return UNK
        if k == "opaque":
            at = o.get("attrs") or {}
            if name in at: return at[name]
            if o.get("root"):
                m = self.models.array_attr(st, o, name, node, opaque=True)
                if m is not None: return m
                v = self.root_child(st, o, name, "attr")
                o = self.obj(st, o.id)
                at = dict(o.get("attrs") or {}); at[name] = v
                self.put(st, o.w(attrs=at))
                return v
            m = self.models.array_attr(st, o, name, node, opaque=True)
            if m is not None: return m
            return V(unk=True, deps=self.obj_content(st, o).deps, unit=U_TOP)
        if k == "array":
            m = self.models.array_attr(st, o, name, node)
            return m if m is not None else UNK
        if k in ("list", "tuple", "dict", "set", "gen", "range", "slice"):
            if self.coords and k == "tuple" and o.id.startswith("root:") and not hasattr((), name) and base.refs == {o.id} and not base.unk:
                self._dead = True               # AttributeError
                return BOT
            return self.method_of(st, o, name)
        if k == "func":
            at = o.get("attrs") or {}
            if name in at: return at[name]
            return V(unk=True)
        return UNK

    def bound(self, st, selfv, f):
        oid = f"bound:{f.id}:{'|'.join(sorted(selfv.refs))}"
        st.heap[oid] = Obj(oid, "bound", self=selfv, func=f.id)
        return V(refs=frozenset([oid]))

    def method_of(self, st, o, name):
        oid = f"meth:{o.id}:{name}"
        st.heap[oid] = Obj(oid, "meth", self=V(refs=frozenset([o.id])), name=name, base=None)
        return V(refs=frozenset([oid]))

    def setattr(self, st, base, name, v, node, aug=None, rhs=None):
        objs = list(self.objs(st, base))
        self.emit("setattr", node, objs=objs, name=name, value=v, base=base, st=st, aug=aug, rhs=rhs)
        for o in objs:
            o = self.obj(st, o.id)
            if o.kind == "inst":
                c = self.obj(st, o.get("cls")) if o.get("cls") else None
                s = self.class_setter(st, c, name) if c is not None else None
                if s is not None:
                    self.call(node, s, [V(refs=frozenset([o.id])), v], {}, st, selfarg=True)
                    continue
            if o.kind in ("inst", "opaque", "func", "class", "array"):
                at = dict(o.get("attrs") or {})
                weak = o.get("summary") or len(objs) > 1
                at[name] = join(at[name], v) if weak and name in at else v
                if o.kind == "array" and name == "shape":
                    continue
                self.put(st, o.w(attrs=at))
            elif o.kind == "module":
                self.mods[o.get("name")][name] = v

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = self.eval(e.func, st)
        args = []
        star = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                k = self.known_items(st, v)
                if k is None: star = True; args.append(("star", v))
                else: args.extend(k)
            else: args.append(self.eval(a, st))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                for o in self.objs(st, v):
                    if o.kind == "dict":
                        for kk, vv in (o.get("items") or {}).items(): kw[kk] = join(kw[kk], vv) if kk in kw else vv
                        if o.get("rest") is not None or o.get("root"): kw["**"] = o.get("rest") or UNK
                    else: kw["**"] = UNK
            else: kw[k.arg] = v
        return self.call(e, f, args, kw, st)

    def call(self, node, f, args, kw, st, selfarg=False):
        self.stats["calls"] += 1
        r = BOT
        live0 = self.live
        self.live = (live0 or []) + [a if isinstance(a, V) else a[1] for a in args] + list(kw.values()) + [f]
        objs = list(self.objs(st, f))
        outs = []
        nst = None
        ncallable = 0
        multi = len(objs) > 1
        for o in objs:
            s2 = st.copy() if multi else st
            v = self.call_obj(node, o, args, kw, s2, f)
            dead = getattr(self, "_dead", False)
            if multi:
                if not dead: nst = join_state(nst, s2)
                self._dead = False
                if dead: continue
            r = join(r, v)
        if multi:
            if nst is None: self._dead = True
            else:
                st.heap.clear(); st.heap.update(nst.heap); st.guards = nst.guards
                for fid in list(st.frames):
                    if fid in nst.frames: st.frames[fid] = nst.frames[fid]
        if self.want_hasattr and args and len(objs) == 1 and (objs[0].get("root") or "").endswith(".hasattr"):
            try: nm = objs[0].get("root")[:-7] + args[0].single_const()
            except (KeyError, TypeError): nm = None
            if nm in self.root_specs and not self.root_specs[nm].get("optional"): return const(True)
        if f.unk or not objs:
            if not objs and f.only_none(): self.emit("none_call", node, st=st, f=f)
            r = join(r, self.models.unknown_call(node, f, args, kw, st))
        self.live = live0
        return r

    def call_obj(self, node, o, args, kw, st, f=None):
        k = o.kind
        if k == "func":
            return self.call_func(node, o, args, kw, st)
        if k == "bound":
            return self.call_func(node, self.obj(st, o.get("func")), [o.get("self")] + list(args), kw, st)
        if k == "class":
            return self.instantiate(node, o, args, kw, st)
        if k == "ext":
            self.emit("extcall", node, name=o.get("name"), args=args, kw=kw, st=st)
            if self.inject is not None and o.get("name") in self.inject:
                self.pending = self.inject[o.get("name")]
                self._dead = True
                return BOT
            h = self.ext_hook.get(o.get("name"))
            if h is not None:
                r = h(self, node, args, kw, st)
                if r is not None: return r
            return self.models.call_ext(node, o.get("name"), args, kw, st)
        if k == "meth":
            self.emit("methcall", node, self_=o.get("self"), name=o.get("name"), args=args, kw=kw, st=st)
            return self.models.call_method(node, o.get("self"), o.get("name"), args, kw, st)
        if k == "inst":
            m = self.find_method(st, o, "__call__")
            if m is not None: return self.call(node, m, [V(refs=frozenset([o.id]))] + list(args), kw, st)
            return self.models.unknown_call(node, V(refs=frozenset([o.id])), args, kw, st)
        return self.models.unknown_call(node, V(refs=frozenset([o.id])), args, kw, st)

    def instantiate(self, node, cls, args, kw, st):
        v = self.alloc(st, node, "inst", tag=":" + cls.get("name"), cls=cls.id, attrs={}, root=None)
        oid = next(iter(v.refs))
        init = self.class_lookup(st, cls, "__init__")
        self.emit("new", node, cls=cls, args=args, kw=kw, st=st, obj=v)
        if init is not None:
            self.call(node, init, [v] + list(args), kw, st, selfarg=True)
        else:
            for e in self.ext_bases(st, cls):
                self.models.ext_init(st, v, e, args, kw, node)
        return v

    def call_func(self, node, fo, args, kw, st):
        fn = fo.get("node")
        modname = fo.get("module")
        module = self.p.modules.get(modname) or self.virtual.get(modname)
        depth = len(self.frames)
        qual = fo.get("qual")
        # recursion guard
        rec = sum(1 for f in self.frames if f.node is fn)
        bound = self.bind(node, fo, args, kw, st)
        if self.frames:
            fr0 = self.frames[-1]
            cs = (fr0.module.rel, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        else: cs = None
        self.emit("call", node, func=fo, bound=bound, args=args, kw=kw, st=st)
        if rec >= 2 or depth > MAX_DEPTH:
            d = E
            for v in bound.values(): d = d | self.alldeps(st, v)
            return V(unk=True, deps=d, unit=U_TOP)
        h = self.intercept.get(f"{modname}.{qual}")
        if h is not None:
            r = h(self, node, bound, st)
            if r is not None: return r
        fid = f"{modname}.{qual}#{depth}"
        fr = Frame(fid, module, qual, fn, callsite=cs, closure=fo.get("closure"), depth=depth)
        self.closure_of[fid] = fo.get("closure")
        saved = st.frames.get(fid)
        st.frames[fid] = dict(bound)
        self.frames.append(fr)
        self.visited.add((module.rel, qual))
        live0 = self.live
        self.emit("enter", node, func=fo, bound=bound, st=st)
        try:
            if isinstance(fn, ast.Lambda):
                v = self.eval(fn.body, st)
                flow = Flow(ret=(v, st))
            else:
                flow = self.exec_block(fn.body, st)
            isgen = fr.yields is not None
            res = None; rst = None
            if flow.ret is not None: res, rst = flow.ret
            if flow.next is not None:
                res = NONE if res is None else join(res, NONE)
                rst = join_state(rst, flow.next)
            if rst is not None and self.ret_hook: res = self.ret_hook(self, f"{modname}.{qual}", res, rst)
            self.emit("exit", fn, func=fo, result=res, st=rst, exc=flow.exc, bound=bound)
        finally:
            self.frames.pop()
            self.live = live0
        if self.frames and self.frames[-1].exc_sink and flow.exc is not None:
            x = flow.exc.copy(); x.frames.pop(fid, None)
            self.frames[-1].exc_sink[-1] = join_state(self.frames[-1].exc_sink[-1], x)
        if rst is None:
            # never returns normally
            self._dead = True
            if flow.exc is not None and flow.exc is not st:
                st.heap.clear(); st.heap.update(flow.exc.heap); st.guards = flow.exc.guards
            st.frames.pop(fid, None)
            if saved is not None: st.frames[fid] = saved
            return BOT
        if rst is not st:
            keep_closure = {k: v for k, v in rst.frames.items()}
            st.heap.clear() if st.heap is not rst.heap else None
            st.heap.update(rst.heap); st.guards = rst.guards
            for k in list(st.frames):
                if k in keep_closure: st.frames[k] = keep_closure[k]
            for k, v in keep_closure.items(): st.frames.setdefault(k, v)
        # frames of closures that may escape are kept only if a function object refers to them
        locs = st.frames.pop(fid, None)
        if locs is not None and any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(fn) if n is not fn):
            st.frames[fid] = locs
        if saved is not None: st.frames[fid] = saved
        if isgen:
            return self.alloc(st, node, "gen", items=fr.yseq or None, rest=fr.yields)
        return res

    virtual = {}
    intercept = {}
    ret_hook = None         # called with (interpreter, name, result, state) when a function returns; gives the result to use

    def bind(self, node, fo, args, kw, st):
        fn = fo.get("node")
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        rest = []
        staral = None
        i = 0
        for v in args:
            if isinstance(v, tuple) and v[0] == "star":
                staral = self.element(st, v[1])
                for j in range(i, len(pos)):
                    if pos[j] not in kw: out[pos[j]] = staral
                i = len(pos); continue
            if i < len(pos): out[pos[i]] = v
            else: rest.append(v)
            i += 1
        extra = {}
        for k, v in kw.items():
            if k == "**":
                continue
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in out and staral is None: self.emit("badcall", node, func=fo, why=f"argument {k} given twice", st=st)
                out[k] = v
            else: extra[k] = v
        if rest and a.vararg is None and staral is None:
            self.emit("badcall", node, func=fo, why=f"{len(args)} positional arguments, takes {len(pos)}", st=st)
        if extra and a.kwarg is None:
            self.emit("badcall", node, func=fo, why=f"unexpected keyword {sorted(extra)}", st=st)
        if a.vararg is not None:
            out[a.vararg.arg] = self.alloc(st, node, "tuple", tag=":va", items=rest if staral is None else None, rest=None if staral is None else joinall(rest + [staral]))
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.alloc(st, node, "dict", tag=":kw", items=extra, rest=kw.get("**"))
        nd = len(fo.get("defaults"))
        used_default = []
        for j, p in enumerate(pos):
            if p not in out:
                di = j - (len(pos) - nd)
                if di >= 0: out[p] = fo.get("defaults")[di]; used_default.append(p)
                elif "**" in kw: out[p] = UNK
                else:
                    self.emit("badcall", node, func=fo, why=f"missing argument {p}", st=st)
                    out[p] = UNK
        for x, d in zip(a.kwonlyargs, fo.get("kwdefaults")):
            if x.arg not in out:
                if d is None:
                    if "**" not in kw: self.emit("badcall", node, func=fo, why=f"missing keyword argument {x.arg}", st=st)
                    out[x.arg] = UNK
                else: out[x.arg] = d
        return out

    # ------------------------------------------------------------------ drivers
    def run_driver(self, name, source, roots, specs):
        """abstractly execute driver `source` (a Python snippet defining drive(...)) on root inputs"""
        from .project import Module
        from .values import V
        m = Module("driver_" + name, f"<driver {name}>", False, source=source)
        m.rel = f"<driver:{name}>"
        self.virtual[m.name] = m
        self.mods[m.name] = {}
        self.root_specs = dict(specs)
        fid = "mod:" + m.name
        fr = Frame(fid, m, "<module>", m.tree)
        self.frames = [fr]
        st = State({fid: self.mods[m.name]}, {})
        self.exec_block(m.tree.body, st)
        g = st.frames[fid]
        self.mods[m.name].update(g)
        # module-level heap of the driver becomes static
        self.static.update(st.heap)
        fv = g["drive"]
        st = State({}, {})
        args = []
        for r in roots:
            spec = specs.get(r, {})
            if spec.get("kind") == "scalar": args.append(self.root_scalar(r, spec))
            elif spec.get("kind") == "const": args.append(const(spec["value"], deps=frozenset([r]) if spec.get("dep", True) else E))
            elif spec.get("kind") == "none": args.append(NONE)
            else:
                v = self.root(st, r, spec)
                if spec.get("optional"): v = join(v, NONE)
                args.append(v)
        self.frames = []
        self._dead = False
        fo = next(self.objs(st, fv))
        self.frames = []
        fr = Frame(fid, m, "<driver>", m.tree)
        st.frames[fid] = {}
        self.frames = [fr]
        r = self.call(ast.parse("0").body[0], fv, args, {}, st)
        dead = getattr(self, "_dead", False)
        self._dead = False
        self.frames = []
        return r, st, dead


def join_maybe_v(a, b):
    if a is None: return b
    if b is None: return a
    return join(a, b)


import builtins as _b
BUILTINS = set(dir(_b))
