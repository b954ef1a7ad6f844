"""Helpers shared by the checks."""
from sa.project import Project, Module


def mini(name, src):
    """a project containing one extra module with the given source (for self-tests)"""
    p = Project()
    p.modules[name] = Module(name, f"/repo/src/{name.replace('.', '/')}.py", False, src)
    return p


def at(ip, st, v, path):
    """the values at a path such as [0][slope] or [0].data in a result"""
    for part in path.replace("]", "").replace(".", "[.").split("[")[1:]:
        nxt = []
        for o in ip.objs(st, v):
            its = (o.get("attrs") or {}) if part[0] == "." else o.get("items")
            k = part[1:] if part[0] == "." else (int(part) if part.isdigit() else part)
            if isinstance(its, dict) and k in its: nxt.append(its[k])
            elif isinstance(its, (list, tuple)) and isinstance(k, int) and k < len(its): nxt.append(its[k])
        if not nxt: return None
        v = nxt[0]
    return v
