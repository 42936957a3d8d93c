#include "adapt.hpp"
namespace {
template <int a> bool fnear(Val const * x, Val const * y, double tol, int useTol)
{
	Cell<a> p(*x), q(*y);
	bool r;
	if (x == y) r = useTol ? g3::nearlyEquals(p.ref(), p.ref(), tol) : g3::nearlyEquals(p.ref(), p.ref());
	else r = useTol ? g3::nearlyEquals(p.ref(), q.ref(), tol) : g3::nearlyEquals(p.ref(), q.ref());
	p.check(); q.check();
	return r;
}
template <int a> bool feq(Val const * x, Val const * y)
{
	Cell<a> p(*x), q(*y);
	bool const r = (x == y) ? (p.ref() == p.ref()) : (p.ref() == q.ref());
	p.check(); q.check();
	return r;
}
bool fabsn(Val const * x, Val const * y, double tol, int useTol)
{ return useTol ? g3::nearlyEqualsAbs(x->c[0], y->c[0], tol) : g3::nearlyEqualsAbs(x->c[0], y->c[0]); }
bool freln(Val const * x, Val const * y, double tol, int useTol)
{ return useTol ? g3::nearlyEqualsRel(x->c[0], y->c[0], tol) : g3::nearlyEqualsRel(x->c[0], y->c[0]); }
bool fbool(Val const * x, Val const * y)
{ bool const a = x->c[0] != 0., b = y->c[0] != 0.; return g3::nearlyEquals(a, b); }
template <int a> void fnull(Val * o) { put(*o, g3::null<Ty<a>>()); }
template <int a> void fzero(Val * o) { put(*o, g3::zero<Ty<a>>()); }
template <int a> void fone(Val * o) { put(*o, g3::one<Ty<a>>()); }
template <int a> void row()
{
	sut.nearly[a] = fnear<a>; sut.null[a] = fnull<a>; sut.zero[a] = fzero<a>;
	if constexpr (a == S || a == V || a == B || a == T || a == SP || a == IS || a == MV) sut.eq[a] = feq<a>;
	if constexpr (a == D || a == S || a == SP || a == CX || a == MV) sut.one[a] = fone<a>;
}
}
void sutFillCmp()
{
	row<D>(); row<S>(); row<V>(); row<B>(); row<T>(); row<SP>(); row<IS>(); row<CX>(); row<DX>(); row<MV>();
	sut.nearlyAbs = fabsn; sut.nearlyRel = freln; sut.nearlyBool = fbool;
}
