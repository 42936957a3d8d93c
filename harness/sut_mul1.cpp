#include "sut_mul.inc"
void sutFillMul1() { row<D>(); row<S>(); row<V>(); }
