"""Cython front end: rewrites the subset of Cython used by stcal into plain Python with the same line numbers and parses it."""
import ast, os, re
from .project import AnalysisBroken

SCALARS = {"int", "float", "double", "bool", "long", "char", "short", "unsigned", "size_t", "bint"}


def split(s, sep=","):
    """split at top-level separators"""
    out, depth, cur, q = [], 0, "", None
    for ch in s:
        if q: q = None if ch == q else q
        elif ch in "'\"": q = ch
        elif ch in "([{": depth += 1
        elif ch in ")]}": depth -= 1
        if ch == sep and depth == 0 and not q: out.append(cur); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur)
    return out


def depth_of(line):
    line = re.sub(r"#.*", "", re.sub(r"\"(\\.|[^\"])*\"|'(\\.|[^'])*'", "''", line))
    return sum(line.count(c) for c in "([{") - sum(line.count(c) for c in ")]}")


NAME = re.compile(r"^(?P<type>.*?[\s\]\*>])(?P<name>[A-Za-z_]\w*)\s*$")


def argname(a):
    a = a.strip()
    d = ""
    p = split(a, "=")
    if len(p) > 1: a, d = p[0].strip(), "=" + "=".join(p[1:]).strip()
    a = re.sub(r"\bnot None$", "", a).strip()
    m = NAME.match(a)
    return ((m.group("name") if m else a.split(":")[0].strip()) + d), (m.group("type").strip() if m else None)


class PyxModule:
    def __init__(self, path=None, text=None):
        self.path = path; self.enums = {}; self.structs = {}; self.argtypes = {}; self.vartypes = {}
        src = text if text is not None else open(path).read()
        self.py = self.convert(src)
        try: self.tree = ast.parse(self.py)
        except SyntaxError as e: raise AnalysisBroken(f"{path}: {e}")

    def declare(self, path):
        """read the enumerations and structures of a .pxd file"""
        if os.path.exists(path): self.convert(open(path).read())

    def convert(self, src):
        lines = src.split("\n"); out = []; i = 0
        while i < len(lines):
            l = lines[i]; s = l.strip(); ind = l[:len(l) - len(l.lstrip())]
            # docstrings pass through untouched
            m = re.match(r'^\s*[rRbuU]*("""|\'\'\')', l)
            if m:
                q = m.group(1); out.append(l)
                if l.count(q) == 1:
                    i += 1
                    while i < len(lines) and q not in lines[i]: out.append(lines[i]); i += 1
                    if i < len(lines): out.append(lines[i])
                i += 1; continue
            n = 1; log = l
            starts = re.match(r"^\s*(cdef|cpdef|ctypedef|cimport|from\s+\S+\s+cimport|def|include)\b", l)
            if starts:
                while depth_of(log) > 0 and i + n < len(lines): log += "\n" + lines[i + n]; n += 1
            s = log.strip()
            if re.match(r"^(cimport|include|ctypedef)\b", s) or re.match(r"^from\s+\S+\s+cimport\b", s):
                out += [ind + "pass"] + [""] * (n - 1)
            elif re.match(r"^(cdef|cpdef)\s+(enum|struct|union|extern)\b", s):
                out.append(ind + "pass"); kind = s.split()[1]
                nm = re.match(r"^(?:cdef|cpdef)\s+\w+\s*(\w*)", s).group(1)
                i += 1; body = []
                while i < len(lines) and (not lines[i].strip() or len(lines[i]) - len(lines[i].lstrip()) > len(ind)):
                    body.append(lines[i].split("#")[0].strip()); out.append(""); i += 1
                body = [b for b in body if b and not b.startswith(('"', "'"))]
                if kind == "enum":
                    v = 0
                    for b in body:
                        for x in b.rstrip(",").split(","):
                            k, _, val = x.partition("=")
                            v = int(val) if val.strip().isdigit() else v
                            self.enums.setdefault(nm, {})[k.strip()] = v; v += 1
                elif kind == "struct":
                    for b in body:
                        m = NAME.match(b)
                        if m: self.structs.setdefault(nm, {})[m.group("name")] = m.group("type").strip()
                continue
            elif re.match(r"^cdef\s+class\b", s): out.append(ind + s[5:])
            elif re.match(r"^(cdef|cpdef|def)\b", s) and re.search(r"\)\s*(noexcept|nogil|except[^:]*|with gil|->[^:]*)*\s*:?\s*$", s) and "(" in s and not re.match(r"^cdef[^()]*=", s):
                head, _, rest = re.sub(r"^(cdef|cpdef|def)\s+(inline\s+)?", "", s).partition("(")
                if not head.strip():      # tuple return type: (int, float) name(args)
                    d = 1; k = 0
                    while d: d += {"(": 1, ")": -1}.get(rest[k], 0); k += 1
                    ret = "(" + rest[:k]; head, _, rest = rest[k:].partition("(")
                fname = head.split()[-1].split("]")[-1].strip() if head.split() else ""
                args = rest[:rest.rindex(")")]
                if not s.endswith(":"): out += [ind + "pass"] + [""] * (n - 1); i += n; continue
                al = [argname(re.sub(r"#.*", "", a).replace("\n", " ")) for a in split(args)]
                self.argtypes[fname] = {a.split("=")[0]: t for a, t in al}
                out += [f"{ind}def {fname}({', '.join(a for a, _ in al)}):"] + [""] * (n - 1)
            elif s.startswith("cdef "):
                body = s[5:].strip()
                parts = split(re.sub(r"#.*", "", body) if n == 1 else body)
                p = split(parts[0], "=")
                left = p[0].strip()
                mm = NAME.match(left)
                if not mm: raise AnalysisBroken(f"{self.path}:{i + 1}: cannot read the declaration {left[:60]!r}")
                typ = mm.group("type").strip(); first = mm.group("name") + (" = " + "=".join(p[1:]).strip() if len(p) > 1 else "")
                stm = []
                for p in [first] + [x.strip() for x in parts[1:]]:
                    nm = re.match(r"\w+", p).group(0)
                    self.vartypes[nm] = typ
                    if "=" in p: stm.append(p)
                    elif typ.split("[")[0] not in SCALARS and typ not in SCALARS: stm.append(f"{nm} = __declare__({typ!r})")
                text = ind + ("; ".join(stm) if stm else "pass")
                k = text.count("\n")
                out += text.split("\n") + [""] * (n - 1 - k)
            else:
                x = re.sub(r"<\s*[A-Za-z_][\w\.]*\s*\**\s*>\s*(?=[\w(])", "", l) if re.search(r"[=(,+\-*/]\s*<\s*\w+\s*\**\s*>", l) else l
                out.append(x); i += 1; continue
            i += n
        return "\n".join(out)


def load(project):
    """module name -> PyxModule (with the declarations of its .pxd files)"""
    res = {}
    for mod, paths in project.pyx.items():
        for p in paths:
            if p.endswith(".pyx"):
                m = PyxModule(p)
                for q in paths:
                    if q.endswith(".pxd"): m.declare(q)
                res[mod] = m
    return res
