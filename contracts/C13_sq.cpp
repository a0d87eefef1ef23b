#define OPNAME sq
#define OPFILE "emp-tool/circuits/float32_sq.cpp"
#define OPREF "ref/sq.inc"
#define OPEXPR a.sqr()
#define OPARITY 1
#define OPOUTS 31
#define OPWIRES 4316
#include "C13_op.h"
//@ f_sq sym=0 limit=600
