"""P11: no path uses an unassigned variable, a missing name/attribute/key, a wrong call signature or an unchecked None."""
import ast
from sa import entries, defassign as D
from sa.names import Names
from sa.project import Project, Module
from sa.runner import run_units, run_entry, functions_of, Result

KINDS = {
    "noattr": "attribute '{name}' does not exist",
    "badcall": "call does not fit the signature of the function called",
    "badkey": "key does not exist in the mapping",
    "badunpack": "unpacks {have} values into {n} targets",
    "badindex": "index {i} is outside a sequence of length {n}",
    "badoperand": "orders a number against a container",
    "noname": "name is not defined",
    "none_attr": "attribute '{name}' of a value that may be None",
    "none_call": "calls None",
    "none_arith": "uses a value that may be None ({op})",
    "bad_axis": "axis does not exist in the array",
    "too_many_indices": "more indices than the array has axes",
}


def shape_length_choice(node):
    """indexing a .shape inside a branch chosen by a test on the sizes: the branch condition implies the rank"""
    b = node.value if isinstance(node, ast.Subscript) else None
    if not (isinstance(b, ast.Attribute) and b.attr == "shape"): return False
    n = node
    while getattr(n, "_parent", None) is not None:
        n = n._parent
        if isinstance(n, (ast.If, ast.IfExp, ast.Try)): return True
        if isinstance(n, ast.FunctionDef): return False
    return False


def setup(ip, en, r):
    def mk(kind, text):
        def h(ev):
            if kind == "badindex" and shape_length_choice(ev.node): return
            d = {k: v for k, v in ev.d.items() if isinstance(v, (str, int))}
            class F(dict):
                def __missing__(self, k): return "?"
            what = ast.unparse(ev.node)[:100] if isinstance(ev.node, ast.AST) else ""
            r.find(kind, f"{ev.mod.rel.split('/')[-1]}:{kind}:{what}", ev.where(), text.format_map(F(d)) + f": {what}", ev.path())
        return h
    for k, t in KINDS.items(): ip.on(k, mk(k, t))
    ip.on("getattr", lambda ev: r.oblige("attribute access", ev.where() + "." + ev.name))
    ip.on("call", lambda ev: r.oblige("call binding", f"{ev.where()} {ev.func.get('name') if hasattr(ev.func, 'get') else ''}"))
    ip.on("load_sub", lambda ev: r.oblige("subscript", ev.where()))


def unit(name, r, project):
    if name.startswith("module "): return module_unit(name[7:], r, project)
    if name == "names": return names_unit(r, project)
    en = entries.ENTRIES[name]
    ip, res, st = run_entry(project, en, lambda ip: setup(ip, en, r))
    r.functions |= functions_of(ip)


def module_unit(mod, r, project):
    m = project.modules[mod]
    scan_module(m, r)


def scan_module(m, r):
    nr = D.noreturn_functions(m.tree)
    for nm, node in D.undefined_names(m.tree):
        r.find("undefined-name", f"{m.rel}:{nm}", f"{m.rel}:{node.lineno}", f"name '{nm}' is defined in no enclosing scope")
    r.oblige("name resolution", m.rel)
    for q, fn, enc in D.functions(m.tree) + [("<module>", m.tree, [])]:
        def rep(name, node, facts):
            r.find("unassigned-variable", f"{m.rel}:{q}:{name}", f"{m.rel}:{node.lineno} ({q})",
                   f"'{name}' is read on a path on which it was never assigned" + (f" (path: {'; '.join(facts[:8])})" if facts else ""))
        d = D.DefAssign(fn, rep, nr)
        d.run()
        r.functions.add((m.rel, q))
        r.oblige("definite assignment (function)", f"{m.rel}:{q}")
        for i in range(d.reads): r.oblige("variable read", (m.rel, q, i))


def names_unit(r, project):
    nm = Names(project)
    for m, n, name, ok in nm.imports():
        r.oblige("project import", f"{m.rel}:{n.lineno} {name}", ok)
        if not ok: r.find("missing-import", f"{m.rel}:{name}", f"{m.rel}:{n.lineno}", f"imports '{name}', which the module does not define")
    for m, n, name, ok in nm.exports():
        r.oblige("exported name", f"{m.rel} {name}", ok)
        if not ok: r.find("missing-export", f"{m.rel}:{name}", f"{m.rel}:{n.lineno}", f"__all__ names '{name}', which does not exist")
    for m, q, call, fn, bad in nm.calls():
        r.oblige("direct call signature", f"{m.rel}:{call.lineno}:{call.col_offset}", bad is None)
        if bad: r.find("badcall", f"{m.rel}:{q}:{fn.name}", f"{m.rel}:{call.lineno} ({q})", bad)
    for m, c, n, name, ok in nm.self_attrs():
        r.oblige("own attribute", f"{m.rel}:{n.lineno} self.{name}", ok)
        if not ok: r.find("noattr", f"{m.rel}:{c.name}:{name}", f"{m.rel}:{n.lineno} ({c.name})", f"self.{name} is assigned nowhere")


EXAMPLE = '''
import numpy as np
class R:
    def __init__(self): self.a = None
def helper(x, y): return x + y
def drive(a, opt):
    r = R()
    if opt.flag:
        r.b = 1
    z = r.a[0]
    w = helper(a)
    q = (5,)
    if q > 3: pass
    t = (1, 2)
    u, v, ww = t
    return r.zz
'''
EX2 = '''
def f(a, n):
    if a > 1:
        x = 1
    for i in range(n):
        if i == 0: y = 2
        z = y
    if not a <= 1: return x
    try:
        k = g()
    except ValueError:
        pass
    return k
def g():
    return undefined_thing
def h(m):
    if m == 1: p = 2
    return p
'''


def run(rep):
    p = Project()
    rep.rules += ["abstract interpretation of every driver: attribute, key, call binding, unpacking, index, axis and None use",
                  "path-sensitive definite assignment of every local variable of every function",
                  "every project import, exported name, direct call signature and own attribute resolves"]
    units = list(entries.ENTRIES) + ["module " + m for m in p.modules] + ["names"]
    run_units(rep, units, unit, p)
    rep.floor("attribute access", 300); rep.floor("variable read", 3000); rep.floor("call binding", 100)
    rep.floor("direct call signature", 80)
    r = Result("selftest")
    en = entries.Entry("selftest", EXAMPLE, ["a", "opt"], {"a": entries.arr(("Y", "X"))})
    run_entry(p, en, lambda ip: setup(ip, en, r))
    fired = {f.rule for f in r.findings.values()}
    for k in ("none_arith", "badcall", "badoperand", "badunpack", "noattr"): rep.selftest(k, k in fired)
    m = Module("selftest", "/repo/src/selftest.py", False, EX2)
    r = Result("selftest2"); scan_module(m, r)
    got = {f.key.split(":", 1)[1] for f in r.findings.values()}
    rep.selftest("unassigned-variable", "f:k" in got and "h:p" in got)
    rep.selftest("unassigned-variable (correlated tests and first iteration are feasible paths only)", not ({"f:x", "f:y"} & got))
    rep.selftest("undefined-name", "undefined_thing" in got)
    rep.assumptions += ["loops over images, groups, integrations and extensions run at least once",
                        "tests repeated without an assignment in between have the same outcome"]
