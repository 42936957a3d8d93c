#include "sut_mul.inc"
void sutFillMul3() { row<IS>(); row<CX>(); }
