#define OPNAME exp2
#define OPFILE "emp-tool/circuits/float32_exp2.cpp"
#define OPREF "ref/exp2.inc"
#define OPEXPR a.exp2()
#define OPARITY 1
#define OPOUTS 31
#define OPWIRES 15725
#include "C13_op.h"
//@ f_exp2 sym=0 limit=600
