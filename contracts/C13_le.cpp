#define OPNAME le
#define OPFILE "emp-tool/circuits/float32_le.cpp"
#define OPREF "ref/le.inc"
#define OPEXPR a.less_than(b)
#define OPARITY 2
#define OPOUTS 1
#define OPWIRES 511
#include "C13_op.h"
//@ f_le sym=0 limit=600
