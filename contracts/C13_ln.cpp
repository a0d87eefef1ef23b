#define OPNAME ln
#define OPFILE "emp-tool/circuits/float32_ln.cpp"
#define OPREF "ref/ln.inc"
#define OPEXPR a.ln()
#define OPARITY 1
#define OPOUTS 32
#define OPWIRES 14538
#include "C13_op.h"
//@ f_ln sym=0 limit=600
