/* trace points in C code */
#include "points.h"
#define PRE(x) c_##x
#define TABLE c_points
#include "points.inc"
