#define OPNAME sin
#define OPFILE "emp-tool/circuits/float32_sin.cpp"
#define OPREF "ref/sin.inc"
#define OPEXPR a.sin()
#define OPARITY 1
#define OPOUTS 32
#define OPWIRES 9430
#include "C13_op.h"
//@ f_sin sym=0 limit=600
