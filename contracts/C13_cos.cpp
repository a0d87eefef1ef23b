#define OPNAME cos
#define OPFILE "emp-tool/circuits/float32_cos.cpp"
#define OPREF "ref/cos.inc"
#define OPEXPR a.cos()
#define OPARITY 1
#define OPOUTS 32
#define OPWIRES 9454
#include "C13_op.h"
//@ f_cos sym=0 limit=600
