#include <math.h>
