#define GAS_DIM3
#include "gas.cpp"
