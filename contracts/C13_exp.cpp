#define OPNAME exp
#define OPFILE "emp-tool/circuits/float32_exp.cpp"
#define OPREF "ref/exp.inc"
#define OPEXPR a.exp()
#define OPARITY 1
#define OPOUTS 31
#define OPWIRES 19694
#include "C13_op.h"
//@ f_exp sym=0 limit=600
