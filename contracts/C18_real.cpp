//@ all sym=0
#define REAL_SIZE
#include "C18.cpp"
