#include "sut_mul.inc"
void sutFillMul4() { row<DX>(); row<MV>(); }
