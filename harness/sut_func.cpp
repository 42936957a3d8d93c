#include "adapt.hpp"
namespace {
#define UN(NAME, EXPR) \
template <int a> void NAME(Val const * x, Val * o) \
{ call1<a>(x, o, [](auto && p) -> decltype(auto) { return EXPR; }); }
UN(fmagSq, g3::magSq(FW(p)))
UN(fmag, g3::magnitude(FW(p)))
UN(fdirn, g3::direction(FW(p)))
UN(fampSq, g3::ampSq(FW(p)))
UN(famp, g3::amplitude(FW(p)))
UN(fexp, g3::exp(FW(p)))
template <int a> void finv(Val const * x, Val * o)
{
	if constexpr (!CanInv<Ty<a>>::value) call1<a>(x, o, [](auto && p) -> decltype(auto) { return g3::inverse<Ty<a>>(FW(p)); });
	else call1<a>(x, o, [](auto && p) -> decltype(auto) { return g3::inverse(FW(p)); });
}
template <int a> void fpair(Val const * x, Val * o)
{
	Cell<a> c(*x);
	auto const r = g3::pairMagDirFrom(c.ref());
	put(o[0], r.first);
	put(o[1], r.second);
	c.check();
}
template <int a> bool fvalid(Val const * x)
{
	Cell<a> c(*x);
	bool const r = g3::isValid(c.ref());
	c.check();
	return r;
}
template <int a> void row()
{
	sut.magSq[a] = fmagSq<a>; sut.mag[a] = fmag<a>;
	if constexpr (a != D)
	{
		sut.pairMD[a] = fpair<a>; sut.direction[a] = fdirn<a>;
		sut.ampSq[a] = fampSq<a>; sut.amp[a] = famp<a>;
	}
	if constexpr (a == S || a == V || a == B || a == T || a == CX || a == MV) sut.inv[a] = finv<a>;
	if constexpr (a == B || a == SP || a == MV) sut.exp[a] = fexp<a>;
	sut.isValid[a] = fvalid<a>;
}
void flog(Val const * x, Val * o) { call1<SP>(x, o, [](auto && p) -> decltype(auto) { return g3::logG2(FW(p)); }); }
void fsqrt(Val const * x, Val * o) { call1<SP>(x, o, [](auto && p) -> decltype(auto) { return g3::sqrtG2(FW(p)); }); }
void flogp(Val const * x, Val const * y, Val * o) { call2<SP, B>(x, y, o, [](auto && p, auto && q) -> decltype(auto) { return g3::logG2(FW(p), FW(q)); }); }
void fsqrtp(Val const * x, Val const * y, Val * o) { call2<SP, B>(x, y, o, [](auto && p, auto && q) -> decltype(auto) { return g3::sqrtG2(FW(p), FW(q)); }); }
}
void sutFillFunc()
{
	row<D>(); row<S>(); row<V>(); row<B>(); row<T>(); row<SP>(); row<IS>(); row<CX>(); row<DX>(); row<MV>();
	sut.logG2 = flog; sut.sqrtG2 = fsqrt; sut.logG2p = flogp; sut.sqrtG2p = fsqrtp;
}
