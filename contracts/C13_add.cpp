#define OPNAME add
#define OPFILE "emp-tool/circuits/float32_add.cpp"
#define OPREF "ref/add.inc"
#define OPEXPR a + b
#define OPARITY 2
#define OPOUTS 32
#define OPWIRES 2520
#include "C13_op.h"
//@ f_add sym=0 limit=600
