#include "sut_mul.inc"
void sutFillMul2() { row<B>(); row<T>(); row<SP>(); }
