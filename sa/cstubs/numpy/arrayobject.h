#ifndef STUB_NPY_H
#define STUB_NPY_H
#include <Python.h>
#include <stdbool.h>
typedef struct { PyObject base; int nd; } PyArrayObject;
typedef struct { int type_num; } PyArray_Descr;
typedef long npy_intp; typedef int npy_int; typedef float npy_float; typedef double npy_double; typedef float npy_float32; typedef double npy_float64;
typedef unsigned int npy_uint32; typedef int npy_int32; typedef unsigned char npy_uint8; typedef unsigned char npy_ubyte; typedef unsigned char npy_bool; typedef long npy_int64; typedef unsigned long npy_uint64; typedef unsigned long npy_uintp;
enum { NPY_BOOL, NPY_BYTE, NPY_UBYTE, NPY_SHORT, NPY_USHORT, NPY_INT, NPY_UINT, NPY_LONG, NPY_ULONG, NPY_LONGLONG, NPY_ULONGLONG, NPY_FLOAT, NPY_DOUBLE, NPY_LONGDOUBLE, NPY_CFLOAT, NPY_CDOUBLE, NPY_CLONGDOUBLE, NPY_OBJECT, NPY_STRING, NPY_UNICODE, NPY_VOID, NPY_DATETIME, NPY_TIMEDELTA, NPY_HALF, NPY_NTYPES_LEGACY, NPY_NOTYPE, NPY_CHAR, NPY_USERDEF };
enum { NPY_FLOAT32 = 11, NPY_FLOAT64 = 12, NPY_UINT8 = 2, NPY_UINT32 = 6, NPY_INT32 = 5, NPY_INT64 = 7, NPY_INTP = 7 };
enum { NPY_ARRAY_C_CONTIGUOUS = 1, NPY_ARRAY_F_CONTIGUOUS = 2, NPY_ARRAY_OWNDATA = 4, NPY_ARRAY_ALIGNED = 0x100, NPY_ARRAY_WRITEABLE = 0x400, NPY_ARRAY_WRITEBACKIFCOPY = 0x2000, NPY_ARRAY_CARRAY = 0x501, NPY_ARRAY_IN_ARRAY = 0x101, NPY_ARRAY_DEFAULT = 0x501 };
#define import_array() stub_import_array()
int stub_import_array(void);
#endif
