#define OPNAME div
#define OPFILE "emp-tool/circuits/float32_div.cpp"
#define OPREF "ref/div.inc"
#define OPEXPR a / b
#define OPARITY 2
#define OPOUTS 32
#define OPWIRES 10717
#include "C13_op.h"
//@ f_div sym=0 limit=600
