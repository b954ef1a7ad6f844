"""Named-axis helpers. A label such as 'Y' means the full axis, "Y'" a part of it, '1' a broadcast axis,
'?' an axis of unknown meaning."""


def base(l): return l.rstrip("'") if isinstance(l, str) else l


def known(l): return l is not None and base(l) not in ("1", "?")


def broadcast(x, y):
    """(result axes, mismatch or None)"""
    if x is None or y is None: return None, None
    n = max(len(x), len(y))
    a = ("1",) * (n - len(x)) + tuple(x)
    b = ("1",) * (n - len(y)) + tuple(y)
    out = []; bad = None
    for p, q in zip(a, b):
        if base(p) == "1": out.append(q)
        elif base(q) == "1": out.append(p)
        elif base(p) == "?": out.append(q)
        elif base(q) == "?": out.append(p)
        elif base(p) == base(q): out.append(p if p == q else base(p) + "'")
        else:
            bad = (p, q); out.append("?")
    return tuple(out), bad
