#include <stdlib.h>
