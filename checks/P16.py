"""P16: memory and references of the compiled ramp fitter are released exactly once on every path, and failures are reported."""
from sa.cfront import CUnit
from sa.cinterp import entry_of
from sa.cwalk import CWalk
from sa.runner import Result

RULETEXT = {"leak": "released exactly once", "double-free": "released exactly once", "over-release": "released exactly once", "bad-free": "released exactly once"}


def decide(r, u, faults):
    w = CWalk(u, entry_of(u)[0], faults).run()
    for (rule, key), (where, fn, msg, trail) in w.findings.items(): r.find(rule, key, where, msg, " -> ".join(trail))
    for cls, items in w.count.items():
        for i in items: r.oblige(cls, str(i))
    for f in w.funcs: r.functions.add((u.rel, f))
    for k in range(w.exits): r.oblige("entry exit state (path class)", str(k))
    for i, m in enumerate(w.memo): r.oblige("function followed in an entry state", f"{m[0]} #{i}")
    return w


def run(rep):
    u = CUnit()
    faults = 2 if rep.tier == "thorough" else 1
    rep.rules.append("from the method-table entry every path of the C source is followed, every malloc/calloc and every Python API call that can fail split into success and failure "
                     f"(up to {faults} failing call(s) per path): a NULL result is never used, a block or object is never used or released after its last release, no reference is released "
                     "that is not owned ('N' in Py_BuildValue gives one up), nothing owned becomes unreachable, an object is used as an array only after a check that it is one and subscripted "
                     "only after its number of dimensions and its extents were compared, and the entry returns NULL exactly when an exception is set and never a result after a failed allocation")
    r = Result("C extension")
    w = decide(r, u, faults)
    rep.add(r)
    for c, n in (("allocation", 12), ("Python API call that can fail", 25), ("pointer used", 300), ("reference released", 20), ("block freed", 15), ("function followed in an entry state", 60)): rep.floor(c, n)
    for name, text, want in EXAMPLES:
        q = Result("selftest")
        decide(q, CUnit(text=HEAD + text + TAIL), 1)
        got = {f.rule for f in q.findings.values()}
        rep.selftest(name, got == want)
    rep.assumptions += [f"at most {faults} allocation or API call(s) fail on one path", "list nodes belong to their list once stored in it: leaks of nodes inside lists are not followed",
                        "Python API functions behave as documented (new or borrowed references, exception set on failure)"]


HEAD = """
#include <Python.h>
struct box { double *buf; PyObject *arr; };
static void drop(struct box *b) { if (b->buf) { free(b->buf); b->buf = NULL; } Py_XDECREF(b->arr); b->arr = NULL; }
"""
TAIL = """
static PyMethodDef methods[] = { {"go", go, METH_VARARGS, "doc"}, {NULL, NULL, 0, NULL} };
"""
BODY = """
static PyObject *go(PyObject *self, PyObject *args) {
    struct box b = {0}; PyObject *in = NULL; PyObject *res = NULL; int i; double x = 0;
    if (!PyArg_ParseTuple(args, "O", &in)) return NULL;
    %s
    b.buf = calloc(10, sizeof(double));
    if (NULL == b.buf) { %s goto END; }
    for (i = 0; i < 10; i++) { b.buf[i] = i; x += b.buf[i]; }
    b.arr = PyObject_GetAttrString(in, "a");
    if (!b.arr) goto END;
    %s
    res = Py_BuildValue("(dO)", x, b.arr);
END:
    %s
    return res;
}
"""
SET = "PyErr_SetString(PyExc_MemoryError, \"m\");"
EXAMPLES = [
    ("correct ownership is accepted", BODY % ("", SET, "", "drop(&b);"), set()),
    ("leak on the exit path", BODY % ("", SET, "", ""), {"leak"}),
    ("allocation failure without an exception", BODY % ("", "", "", "drop(&b);"), {"exit"}),
    ("second release and use after release", BODY % ("", SET, "free(b.buf);", "drop(&b);"), {"double-free"}),
    ("borrowed argument released", BODY % ("Py_DECREF(in);", SET, "", "drop(&b);"), {"over-release"}),
    ("reference given up by N and released again", BODY.replace("(dO)", "(dN)") % ("", SET, "", "drop(&b);"), {"over-release"}),
    ("exception left behind with a result", BODY % ("", SET, "PyErr_SetString(PyExc_ValueError, \"v\");", "drop(&b);"), {"exit"}),
    ("array macro on an unchecked object", BODY % ("", SET, "x += PyArray_DIM(b.arr, 0);", "drop(&b);"), {"unchecked-array"}),
]
