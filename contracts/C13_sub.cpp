#define OPNAME sub
#define OPFILE "emp-tool/circuits/float32_sub.cpp"
#define OPREF "ref/sub.inc"
#define OPEXPR a - b
#define OPARITY 2
#define OPOUTS 32
#define OPWIRES 2521
#include "C13_op.h"
//@ f_sub sym=0 limit=600
