"""The compiled ramp fitter as one interpreted run: what it reads from the ramp object and its arguments, what it writes to
its products, and every combination of quantities on the way."""
from .cfront import CUnit, c_ast, strip, show, callname
from . import cinterp as C
from .values import unit, NODIM, U_POLY, U_TOP

DN = unit(ct=1); T = unit(s=1); RATE = unit(ct=1, s=-1)
CUBE = ("I", "G", "Y", "X"); IMG = ("Y", "X")
INPUTS = {"attr:data": dict(axes=CUBE, unit=DN), "attr:groupdq": dict(axes=CUBE, unit=U_POLY), "attr:orig_gdq": dict(axes=CUBE, unit=U_POLY),
          "attr:pixeldq": dict(axes=IMG, unit=U_POLY), "attr:zeroframe": dict(axes=("I", "Y", "X"), unit=DN),
          "attr:average_dark_current": dict(axes=IMG, unit=RATE), "arg:1": dict(axes=IMG, unit=unit(n=2, ct=-1)), "arg:2": dict(axes=IMG, unit=unit(n=1)),
          "attr:frame_time": dict(unit=T), "attr:group_time": dict(unit=T)}


class CRun:
    """events of one run over the translation unit; each list holds (node, details)"""
    KINDS = ("getattr", "number", "np_load", "np_store", "build", "unit_pair", "kind_pair", "index", "newarr", "getptr", "store", "parsed", "compare",
             "dimless", "strcmp", "alloc", "exit", "call")

    def __init__(self, u=None, inputs=None, entry=None, keep=None):
        self.u = u or CUnit()
        self.entry, self.pyname = C.entry_of(self.u) if entry is None else (entry, entry)
        self.ip = C.CInterp(self.u, INPUTS if inputs is None else inputs)
        self.ev = {k: [] for k in self.KINDS}
        seen = {}
        self.funcs = set()

        def listen(kind):
            def f(node, d):
                # the interpretation visits a construct many times: keep distinct facts
                key = (kind, id(node), repr([(k, v if not isinstance(v, C.CV) else (v.unit, v.kind, sorted(v.deps), sorted(v.ctl), v.src, sorted(map(str, v.ptr)), sorted(v.keep or ()), v.const))
                                             for k, v in sorted(d.items()) if k not in ("st", "fr", "info", "old", "node")]))
                if key in seen: return
                seen[key] = 1
                d = dict(d); d.pop("st", None); d.pop("fr", None)
                d["where"] = self.ip.where(node); d["path"] = self.ip.path(); d["func"] = self.ip.stack[-1][0] if self.ip.stack else ""
                self.ev[kind].append((node, d))
            return f
        for k in (keep or self.KINDS): self.ip.on(k, listen(k))
        self.ip.on("call", lambda n, d: self.funcs.add(d["name"]))
        self.ret, self.st = self.ip.run(self.entry)
        self.funcs.add(self.entry)

    # ------------------------------------------------------------ products
    def products(self):
        """[(position in the returned tuple or None, {key: array}), ...] of the dictionaries built"""
        dicts, order = {}, None
        for node, d in self.ev["build"]:
            fmt = d["fmt"]
            key = ("built", f"{d['path']}:{getattr(node.coord, 'line', 0)}")
            if fmt.startswith("{"):
                items = {}
                a = d["args"]
                for i in range(0, len(a) - 1, 2):
                    if isinstance(a[i].const, str): items.setdefault(a[i].const, []).extend(l[1] for l, _ in a[i + 1].ptr if l[0] == "arr")
                dicts[key] = (items, d["where"])
            elif fmt.startswith("("):
                got = [[l[1] for l, _ in v.ptr if l[0] == "pyo"] for v in d["args"]]
                if any(got): order = got
        out = {}
        for k, (items, where) in dicts.items():
            pos = [i for i, x in enumerate(order or []) if k in x]
            out[k] = (pos[0] if pos else None, items, where)
        return out

    def contents(self):
        """{array: joined value stored into it}, with the source fields of each store"""
        out = {}
        for node, d in self.ev["np_store"]:
            v, srcs, uns = out.setdefault(d["arr"], (None, set(), []))
            out[d["arr"]] = (C.join(v, d["value"]), srcs | ({d["value"].src} if d["value"].src else set()), uns + [(d["value"], d["where"], d["ctype"], d["path"])])
        return out
