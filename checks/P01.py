"""P01: no store reaches memory owned by a caller's argument, except the documented in-place outputs."""
from sa import entries
from sa.project import Project
from sa.interp import Interp
from sa.runner import run_units, run_entry, functions_of

ENT = entries.ENTRIES
# attributes of a caller's object changed temporarily and restored on every exit (decided by P12)
RESTORED = {"bounding_box"}


def targets(ev):
    if ev.kind == "store": return [(ev.owner.get("root"), ev.obj)] if ev.owner is not None else []
    if ev.kind in ("mutate", "store_item"): return [(ev.obj.get("root"), ev.obj)]
    return [((o.get("root") + "." + ev.name) if o.get("root") else None, o) for o in ev.objs]


def how(ev):
    if ev.kind == "store":
        h = ev.d.get("how") or "sub"
        return h if not ev.d.get("aug") else "aug:" + type(ev.d["aug"]).__name__
    return ev.kind


def allowed(en, label):
    for a in en.inplace:
        if label == a or label.startswith(a + ".") or label.startswith(a + "["): return True
    return False


def setup(ip, en, r, pend=None, back=None):
    pend = {} if pend is None else pend
    back = set() if back is None else back
    def h(ev):
        for label, o in targets(ev):
            w = ev.where()
            if label is None:
                if ev.kind == "store": r.oblige("array store", w)
                else: r.oblige("object update", w)
                continue
            ok = allowed(en, label)
            if ev.kind == "setattr" and ev.name in RESTORED:
                # a temporary change: the original value has to be put back (that it is on every exit is P12's matter)
                pend.setdefault(label, []).append((w, ev.path()))
                if any(x == label or x.startswith(label) for x in ev.value.deps): back.add(label)
                continue
            r.oblige("write to caller memory", f"{en.step} {label} at {w}", ok)
            if not ok:
                frm = ""
                if ev.kind == "store":
                    frm = ",".join(sorted(x for x in ev.vcontent.deps if x != label and
                                          not any(y != x and y.startswith(x + ".") for y in ev.vcontent.deps)))
                r.find("caller-memory-write", f"{en.step}:{label}:from={frm}", w,
                       f"step '{en.step}' writes to the caller's '{label}', which it does not document as an in-place output ({how(ev)})",
                       ev.path())
    for k in ("store", "mutate", "store_item", "setattr"): ip.on(k, h)


def unit(name, r, project):
    en = ENT[name]
    pend, back = {}, set()
    ip, res, st = run_entry(project, en, lambda ip: setup(ip, en, r, pend, back))
    r.functions |= functions_of(ip)
    for label, ws in pend.items():
        ok = label in back or allowed(en, label)
        r.oblige("temporary change of a caller's attribute", f"{en.step} {label}", ok)
        if not ok:
            r.find("caller-memory-write", f"{en.step}:{label}:never-restored", ws[0][0],
                   f"step '{en.step}' changes the caller's '{label}' and never puts the original value back", ws[0][1])


EXAMPLE = '''
import numpy as np
def helper(x):
    v = x.reshape(-1)
    v[np.isnan(v)] = 0
    return v
def drive(a, b):
    c = a.copy()
    c[0] = 1
    return helper(b[1:])
'''


def run(rep):
    p = Project()
    rep.rules.append("every subscript/augmented/out=/in-place-method store, container mutation and attribute write is resolved "
                     "through views and aliases to the object that owns the memory; owners reachable from a caller's argument "
                     "must be documented in-place outputs")
    run_units(rep, list(ENT), unit, p)
    rep.floor("array store", 60)
    rep.floor("write to caller memory", 6)
    # the rule fires on a write through a view, and not on a copy
    from sa.runner import Result
    r = Result("selftest")
    en = entries.Entry("selftest", EXAMPLE, ["a", "b"], {"a": entries.arr(("Y", "X")), "b": entries.arr(("Y", "X"))})
    run_entry(p, en, lambda ip: setup(ip, en, r))
    keys = {f.key for f in r.findings.values()}
    rep.selftest("caller-memory-write (view)", any(":b:" in k for k in keys))
    rep.selftest("caller-memory-write (copy is exempt)", not any(":a:" in k for k in keys))
    rep.assumptions += ["external libraries (astropy, gwcs, drizzle, tweakwcs, scipy) do not modify their array arguments unless modelled",
                        "documented in-place outputs: jump groupdq/pixeldq, saturation gdq/zframe, linearity data/zframe, "
                        "ramp groupdq, skymatch images when subtracting, tweakreg correctors, nanmedian3D input"]
