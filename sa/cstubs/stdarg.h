#include <stdlib.h>
#define va_start(a,b)
#define va_end(a)
#define va_copy(a,b)
