#define OPNAME log2
#define OPFILE "emp-tool/circuits/float32_log2.cpp"
#define OPREF "ref/log2.inc"
#define OPEXPR a.log2()
#define OPARITY 1
#define OPOUTS 32
#define OPWIRES 17797
#include "C13_op.h"
//@ f_log2 sym=0 limit=600
