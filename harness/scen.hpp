// Helpers shared by the monitors.
#pragma once
#include "engine.hpp"

#define OPV(...) do { x.viol(__VA_ARGS__); return true; } while (0)

inline Ref<LD> rl(Val const & v) { return Ref<LD>(v); }
inline Ref<Q> rq(Val const & v) { return Ref<Q>(v); }

// own notion of a valid number: zero or normal, from the bit pattern
inline bool okNum(double d)
{
	uint64_t b;
	std::memcpy(&b, &d, 8);
	unsigned const e = (b >> 52) & 0x7ff;
	if (e == 0x7ff) return false;
	return e != 0 || (b << 1) == 0;
}
inline bool isNanBits(double d)
{
	uint64_t b;
	std::memcpy(&b, &d, 8);
	return ((b >> 52) & 0x7ff) == 0x7ff && (b << 12) != 0;
}
inline bool okVal(Val const & v)
{
	for (int i = 0; i < nComp(v.t); ++i) if (!okNum(v.c[i])) return false;
	return true;
}
inline bool isZero(Val const & v)
{
	for (int i = 0; i < nComp(v.t); ++i) if (v.c[i] != 0.) return false;
	return true;
}
inline bool caseIn(Case const & c)
{
	for (int i = 0; i < c.n; ++i) if (!inDom(c.a[i], c.s->dom)) return false;
	return true;
}
// all components multiples of 2^-12 of size <= lim: products and sums exact
inline bool dyadic(Val const & v, double lim = 1e4)
{
	for (int i = 0; i < nComp(v.t); ++i)
	{
		double const y = v.c[i] * 4096.;
		if (!(std::fabs(v.c[i]) <= lim) || y != std::nearbyint(y)) return false;
	}
	return true;
}
inline bool smallInt(Val const & v, double lim = 100.)
{
	for (int i = 0; i < nComp(v.t); ++i)
		if (!(std::fabs(v.c[i]) <= lim) || v.c[i] != std::nearbyint(v.c[i])) return false;
	return true;
}
inline LD magLd(Val const & v)
{
	LD s = 0;
	for (int i = 0; i < nComp(v.t); ++i) s += (LD)v.c[i] * v.c[i];
	return sqrtl(s);
}
// the components of type `to` taken from an eight component value
inline Val project(Val const & mv, int to)
{
	Val r;
	r.t = (Tag)to;
	double full[8]{};
	for (int k = 0; k < nComp(mv.t); ++k) full[mvIdx(mv.t, k)] = mv.c[k];
	for (int k = 0; k < nComp(to); ++k) r.c[k] = full[mvIdx(to, k)];
	return r;
}
inline Val toMv(Val const & v)
{
	Val r;
	r.t = MV;
	for (int k = 0; k < nComp(v.t); ++k) r.c[mvIdx(v.t, k)] = v.c[k];
	return r;
}
inline bool hasIdx(int t, int i)
{
	for (int k = 0; k < nComp(t); ++k) if (mvIdx(t, k) == i) return true;
	return false;
}
inline double at(Val const & v, int i)
{
	for (int k = 0; k < nComp(v.t); ++k) if (mvIdx(v.t, k) == i) return v.c[k];
	return 0.;
}
inline bool sameNum(Val const & a, Val const & b) // by value, over all grades
{
	for (int i = 0; i < 8; ++i) if (!(at(a, i) == at(b, i))) return false;
	return true;
}
// |a-b| <= tol in each of the eight components
inline bool close(Val const & a, Ref<LD> const & w, LD tol)
{
	for (int i = 0; i < 8; ++i) if (!(fabsl((LD)at(a, i) - w.c[i]) <= tol)) return false;
	return true;
}
inline bool closeV(Val const & a, Val const & b, LD tol)
{
	for (int i = 0; i < 8; ++i) if (!(fabsl((LD)at(a, i) - (LD)at(b, i)) <= tol)) return false;
	return true;
}
inline std::string showRef(Ref<LD> const & w)
{
	std::string s = "[";
	for (int i = 0; i < 8; ++i) { char b[40]; snprintf(b, sizeof b, "%s%.17Lg", i ? "," : "", w.c[i]); s += b; }
	return s + "]";
}
// x-y came out as y-x: named, so that it is told apart from any other wrong result
inline bool reversedSub(Val const & got, Val const & x, Val const & y)
{
	bool wrong = false;
	for (int i = 0; i < 8; ++i)
	{
		double const w = at(y, i) - at(x, i);
		if (!(at(got, i) == w)) return false;
		if (w != 0.) wrong = true;
	}
	return wrong;
}
inline std::string reversedKey(Val const & x, Val const & y) { return std::string(tagName(x.t)) + "-" + tagName(y.t) + ":reversed"; }
inline Val negOf(Val v) { for (int i = 0; i < nComp(v.t); ++i) v.c[i] = -v.c[i]; return v; }
inline Val scaled(Val v, double k) { for (int i = 0; i < nComp(v.t); ++i) v.c[i] *= k; return v; }
void regAlg(); void regMag(); void regExp(); void regCmp(); void regIo(); void regSys(); void regType(); void regGeo();
