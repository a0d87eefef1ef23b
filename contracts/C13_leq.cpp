#define OPNAME leq
#define OPFILE "emp-tool/circuits/float32_leq.cpp"
#define OPREF "ref/leq.inc"
#define OPEXPR a.less_equal(b)
#define OPARITY 2
#define OPOUTS 1
#define OPWIRES 514
#include "C13_op.h"
//@ f_leq sym=0 limit=600
