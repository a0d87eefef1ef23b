#define OPNAME eq
#define OPFILE "emp-tool/circuits/float32_eq.cpp"
#define OPREF "ref/eq.inc"
#define OPEXPR a.equal(b)
#define OPARITY 2
#define OPOUTS 1
#define OPWIRES 507
#include "C13_op.h"
//@ f_eq sym=0 limit=600
