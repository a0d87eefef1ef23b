#define OPNAME mul
#define OPFILE "emp-tool/circuits/float32_mul.cpp"
#define OPREF "ref/mul.inc"
#define OPEXPR a * b
#define OPARITY 2
#define OPOUTS 32
#define OPWIRES 8918
#include "C13_op.h"
//@ f_mul sym=0 limit=600
