#include "adapt.hpp"
namespace {
template <int a, int b> void m(Val const * x, Val const * y, Val * o)
{ call2<a, b>(x, y, o, [](auto && p, auto && q) -> decltype(auto) { return FW(p) * FW(q); }); }
template <int a> void row()
{
	if constexpr (a != D) sut.mul[a][D] = m<a, D>;
	sut.mul[a][S] = m<a, S>; sut.mul[a][V] = m<a, V>; sut.mul[a][B] = m<a, B>; sut.mul[a][T] = m<a, T>;
	sut.mul[a][SP] = m<a, SP>; sut.mul[a][IS] = m<a, IS>; sut.mul[a][CX] = m<a, CX>; sut.mul[a][DX] = m<a, DX>;
	sut.mul[a][MV] = m<a, MV>;
}
}
