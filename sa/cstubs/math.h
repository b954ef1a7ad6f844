#ifndef STUB_MATH
#define STUB_MATH
extern double STUB_NAN, STUB_INF;
#define NAN STUB_NAN
#define INFINITY STUB_INF
#define HUGE_VAL STUB_INF
#define M_PI 3.14159265358979323846
#define NPY_NAN STUB_NAN
#define NPY_INFINITY STUB_INF
#endif
