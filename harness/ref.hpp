// Independent reference: Clifford algebra of 3D Euclidean space from the
// bitmask definition, in long double or __float128, with a running bound on
// the sum of absolute values of expanded terms. Shares nothing with the
// library under test.
#pragma once
#include "val.hpp"
#include <quadmath.h>
#include <cmath>

using LD = long double;
using Q = __float128;

// basis index (1,e1,e2,e3,e23,e31,e12,e123) -> bitmask and sign w.r.t. the
// ascending-order blade of that mask (e31 = -e13)
struct Basis
{
	int mask[8]{ 0, 1, 2, 4, 6, 5, 3, 7 };
	int sign[8]{ 1, 1, 1, 1, 1, -1, 1, 1 };
	int idx[8][8]; // product index
	int sgn[8][8]; // product sign
	static int swaps(int a, int b)
	{
		int n = 0;
		for (a >>= 1; a; a >>= 1) n += __builtin_popcount(a & b);
		return n;
	}
	Basis()
	{
		int inv[8];
		for (int i = 0; i < 8; ++i) inv[mask[i]] = i;
		for (int i = 0; i < 8; ++i)
			for (int j = 0; j < 8; ++j)
			{
				int const m = mask[i] ^ mask[j];
				int const k = inv[m];
				int s = (swaps(mask[i], mask[j]) & 1) ? -1 : 1;
				s *= sign[i] * sign[j] * sign[k]; // squares of vectors are +1
				idx[i][j] = k;
				sgn[i][j] = s;
			}
	}
};
inline Basis const & basis() { static Basis const b; return b; }
inline int gradeOf(int i) { static int const g[8]{ 0, 1, 1, 1, 2, 2, 2, 3 }; return g[i]; }

template <typename R> inline R rabs(R x) { return x < 0 ? -x : x; }

template <typename R> struct Ref
{
	R c[8];
	R a[8]; // bound: sum of absolute values of the expanded terms
	Ref() { for (int i = 0; i < 8; ++i) c[i] = a[i] = 0; }
	explicit Ref(Val const & v) : Ref()
	{
		for (int k = 0; k < nComp(v.t); ++k)
		{
			int const i = mvIdx(v.t, k);
			c[i] = v.c[k];
			a[i] = rabs(c[i]);
		}
	}
	static Ref scalar(R x) { Ref r; r.c[0] = x; r.a[0] = rabs(x); return r; }
	R magSq() const { R s = 0; for (int i = 0; i < 8; ++i) s += c[i] * c[i]; return s; }
	R absMax() const { R s = 0; for (int i = 0; i < 8; ++i) if (rabs(c[i]) > s) s = rabs(c[i]); return s; }
	R boundSum() const { R s = 0; for (int i = 0; i < 8; ++i) s += a[i]; return s; }
};
template <typename R> Ref<R> operator*(Ref<R> const & x, Ref<R> const & y)
{
	Basis const & b = basis();
	Ref<R> r;
	for (int i = 0; i < 8; ++i)
	{
		if (x.a[i] == 0) continue;
		for (int j = 0; j < 8; ++j)
		{
			if (y.a[j] == 0) continue;
			int const k = b.idx[i][j];
			r.c[k] += b.sgn[i][j] * (x.c[i] * y.c[j]);
			r.a[k] += x.a[i] * y.a[j];
		}
	}
	return r;
}
template <typename R> Ref<R> operator+(Ref<R> const & x, Ref<R> const & y)
{ Ref<R> r; for (int i = 0; i < 8; ++i) { r.c[i] = x.c[i] + y.c[i]; r.a[i] = x.a[i] + y.a[i]; } return r; }
template <typename R> Ref<R> operator-(Ref<R> const & x, Ref<R> const & y)
{ Ref<R> r; for (int i = 0; i < 8; ++i) { r.c[i] = x.c[i] - y.c[i]; r.a[i] = x.a[i] + y.a[i]; } return r; }
template <typename R> Ref<R> flip(Ref<R> x, int g0, int g1, int g2, int g3)
{
	int const g[4]{ g0, g1, g2, g3 };
	for (int i = 0; i < 8; ++i) if (g[gradeOf(i)]) x.c[i] = -x.c[i];
	return x;
}
template <typename R> Ref<R> rneg(Ref<R> const & x) { return flip(x, 1, 1, 1, 1); }
template <typename R> Ref<R> rrev(Ref<R> const & x) { return flip(x, 0, 0, 1, 1); }
template <typename R> Ref<R> rodd(Ref<R> const & x) { return flip(x, 0, 1, 0, 1); }
template <typename R> Ref<R> rdir(Ref<R> const & x) { return flip(x, 0, 1, 1, 0); }
template <typename R> Ref<R> rdual(Ref<R> const & x)
{ Ref<R> e; e.c[7] = 1; e.a[7] = 1; return e * x; }

// exponential by scaling and squaring of the power series (quad or long double)
template <typename R> inline Ref<R> rexp(Ref<R> m)
{
	R norm = 0;
	for (int i = 0; i < 8; ++i) norm += rabs(m.c[i]);
	int k = 0;
	R f = 1;
	while (norm > R(0.0625) && k < 60) { norm /= 2; f /= 2; ++k; }
	for (int i = 0; i < 8; ++i) { m.c[i] *= f; m.a[i] = 1; }
	Ref<R> sum = Ref<R>::scalar(1), term = sum;
	for (int n = 1; n <= 26; ++n)
	{
		term = term * m;
		for (int i = 0; i < 8; ++i) { term.c[i] /= n; }
		sum = sum + term;
		for (int i = 0; i < 8; ++i) sum.a[i] = term.a[i] = 1;
	}
	for (int i = 0; i < k; ++i)
	{
		for (int j = 0; j < 8; ++j) sum.a[j] = 1;
		sum = sum * sum;
	}
	return sum;
}
