#ifndef STUB_PYTHON_H
#define STUB_PYTHON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
typedef long Py_ssize_t;
typedef struct _object { long ob_refcnt; } PyObject;
typedef struct _typeobject PyTypeObject;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct PyMethodDef { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct PyModuleDef_Base { int x; } PyModuleDef_Base;
typedef struct PyModuleDef { PyModuleDef_Base m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size; PyMethodDef *m_methods; void *m_slots; void *m_traverse; void *m_clear; void *m_free; } PyModuleDef;
#define PyModuleDef_HEAD_INIT { 0 }
#define PyMODINIT_FUNC PyObject *
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
extern PyObject *Py_None; extern PyObject *Py_True; extern PyObject *Py_False;
extern PyObject *PyExc_MemoryError, *PyExc_ValueError, *PyExc_TypeError, *PyExc_IndexError, *PyExc_RuntimeError,
  *PyExc_Exception, *PyExc_KeyError, *PyExc_AttributeError, *PyExc_ArithmeticError, *PyExc_OverflowError, *PyExc_FloatingPointError,
  *PyExc_ZeroDivisionError, *PyExc_SystemError, *PyExc_NotImplementedError, *PyExc_OSError, *PyExc_RuntimeWarning, *PyExc_UserWarning;
void Py_INCREF(void *); void Py_DECREF(void *); void Py_XINCREF(void *); void Py_XDECREF(void *);
void Py_CLEAR(void *); void Py_SETREF(void *, void *); void Py_XSETREF(void *, void *);
PyObject *Py_NewRef(void *); PyObject *Py_XNewRef(void *);
int Py_IsNone(void *); int Py_IsTrue(void *); int Py_IsFalse(void *);
#define Py_RETURN_NONE do { Py_INCREF(Py_None); return Py_None; } while (0)
#define Py_RETURN_TRUE do { Py_INCREF(Py_True); return Py_True; } while (0)
#define Py_RETURN_FALSE do { Py_INCREF(Py_False); return Py_False; } while (0)
#define Py_BEGIN_ALLOW_THREADS {
#define Py_END_ALLOW_THREADS }
#define Py_UNUSED(x) x
#define PY_SSIZE_T_MAX 9223372036854775807L
#endif
