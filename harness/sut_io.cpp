#include "adapt.hpp"
#include <iostream>
namespace {
template <int a> void fput(std::ostream & os, Val const * x) { Cell<a> c(*x); os << c.ref(); c.check(); }
template <int a> void fget(std::istream & is, Val * x)
{
	Ty<a> y(get<a>(*x));
	try { is >> y; }
	catch (...) { put(*x, y); throw; } // what is left in the object counts
	put(*x, y);
}
template <int a> std::string ffix(Val const * x, std::size_t b, std::size_t f, int n)
{
	Cell<a> c(*x);
	return n == 0 ? g3::io::fixed(c.ref()) : n == 1 ? g3::io::fixed(c.ref(), b) : g3::io::fixed(c.ref(), b, f);
}
template <int a> std::string feno(Val const * x, std::size_t f, int n)
{
	Cell<a> c(*x);
	return n == 0 ? g3::io::enote(c.ref()) : g3::io::enote(c.ref(), f);
}
template <int a> void row()
{
	if constexpr (a != D) { sut.put[a] = fput<a>; sut.get[a] = fget<a>; }
	if constexpr (a != CX && a != DX) { sut.fixed[a] = ffix<a>; sut.enote[a] = feno<a>; }
}
}
void sutFillIo()
{
	row<D>(); row<S>(); row<V>(); row<B>(); row<T>(); row<SP>(); row<IS>(); row<CX>(); row<DX>(); row<MV>();
}
