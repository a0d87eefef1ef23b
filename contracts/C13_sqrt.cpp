#define OPNAME sqrt
#define OPFILE "emp-tool/circuits/float32_sqrt.cpp"
#define OPREF "ref/sqrt.inc"
#define OPEXPR a.sqrt()
#define OPARITY 1
#define OPOUTS 32
#define OPWIRES 6057
#include "C13_op.h"
//@ f_sqrt sym=0 limit=600
