// Conversions between Val and the library's types (adapter side only).
#pragma once
#ifdef ADAPT_HEADERS // a file with other ways of including the library
#include ADAPT_HEADERS
#else
#include "engabra.hpp"
#endif
#include "val.hpp"
#include <complex>
#include <new>
#include <type_traits>
#include <utility>

namespace g3 = engabra::g3;

template <int t> struct TypeOf;
template <> struct TypeOf<D> { using type = double; };
template <> struct TypeOf<S> { using type = g3::Scalar; };
template <> struct TypeOf<V> { using type = g3::Vector; };
template <> struct TypeOf<B> { using type = g3::BiVector; };
template <> struct TypeOf<T> { using type = g3::TriVector; };
template <> struct TypeOf<SP> { using type = g3::Spinor; };
template <> struct TypeOf<IS> { using type = g3::ImSpin; };
template <> struct TypeOf<CX> { using type = g3::ComPlex; };
template <> struct TypeOf<DX> { using type = g3::DirPlex; };
template <> struct TypeOf<MV> { using type = g3::MultiVector; };
template <int t> using Ty = typename TypeOf<t>::type;

// whether g3::inverse(x) deduces its type (some overloads are called as inverse<X>(x))
template <typename X, typename = void> struct CanInv : std::false_type {};
template <typename X> struct CanInv<X, std::void_t<decltype(g3::inverse(std::declval<X const &>()))>> : std::true_type {};

template <int t> inline Ty<t> get(Val const & v)
{
	double const * c = v.c;
	if constexpr (t == D) { return c[0]; }
	else if constexpr (t == S) { return g3::Scalar{ c[0] }; }
	else if constexpr (t == V) { return g3::Vector{ c[0], c[1], c[2] }; }
	else if constexpr (t == B) { return g3::BiVector{ c[0], c[1], c[2] }; }
	else if constexpr (t == T) { return g3::TriVector{ c[0] }; }
	else if constexpr (t == SP) { return g3::Spinor{ g3::Scalar{ c[0] }, g3::BiVector{ c[1], c[2], c[3] } }; }
	else if constexpr (t == IS) { return g3::ImSpin{ g3::Vector{ c[0], c[1], c[2] }, g3::TriVector{ c[3] } }; }
	else if constexpr (t == CX) { return g3::ComPlex{ g3::Scalar{ c[0] }, g3::TriVector{ c[1] } }; }
	else if constexpr (t == DX) { return g3::DirPlex{ g3::Vector{ c[0], c[1], c[2] }, g3::BiVector{ c[3], c[4], c[5] } }; }
	else
	{
		g3::MultiVector m;
		m.theSca = g3::Scalar{ c[0] };
		m.theVec = g3::Vector{ c[1], c[2], c[3] };
		m.theBiv = g3::BiVector{ c[4], c[5], c[6] };
		m.theTri = g3::TriVector{ c[7] };
		return m;
	}
}

inline void put(Val & o, double const & x) { o.t = D; o.c[0] = x; }
inline void put(Val & o, bool const & x) { o.t = BOOL; o.c[0] = x ? 1. : 0.; }
inline void put(Val & o, g3::Scalar const & x) { o.t = S; o.c[0] = x.theData[0]; }
inline void put(Val & o, g3::Vector const & x) { o.t = V; for (int i = 0; i < 3; ++i) o.c[i] = x.theData[i]; }
inline void put(Val & o, g3::BiVector const & x) { o.t = B; for (int i = 0; i < 3; ++i) o.c[i] = x.theData[i]; }
inline void put(Val & o, g3::TriVector const & x) { o.t = T; o.c[0] = x.theData[0]; }
inline void put(Val & o, g3::Spinor const & x) { o.t = SP; o.c[0] = x.theSca.theData[0]; for (int i = 0; i < 3; ++i) o.c[1 + i] = x.theBiv.theData[i]; }
inline void put(Val & o, g3::ImSpin const & x) { o.t = IS; for (int i = 0; i < 3; ++i) o.c[i] = x.theVec.theData[i]; o.c[3] = x.theTri.theData[0]; }
inline void put(Val & o, g3::ComPlex const & x) { o.t = CX; o.c[0] = x.theSca.theData[0]; o.c[1] = x.theTri.theData[0]; }
inline void put(Val & o, g3::DirPlex const & x) { o.t = DX; for (int i = 0; i < 3; ++i) { o.c[i] = x.theVec.theData[i]; o.c[3 + i] = x.theBiv.theData[i]; } }
inline void put(Val & o, g3::MultiVector const & x)
{
	o.t = MV; o.c[0] = x.theSca.theData[0]; o.c[7] = x.theTri.theData[0];
	for (int i = 0; i < 3; ++i) { o.c[1 + i] = x.theVec.theData[i]; o.c[4 + i] = x.theBiv.theData[i]; }
}

// Arguments live in these cells; they are handed to the library as const
// references and compared with what was put in afterwards.
// Each argument stands at another address modulo 64: the type asks for the
// alignment of a double only.
extern thread_local unsigned sutCellShift;
template <int t> struct Cell
{
	Ty<t> y;
	alignas(64) unsigned char room[sizeof(Ty<t>) + 64];
	Ty<t> * x;
	explicit Cell(Val const & v) : y(get<t>(v)), x(nullptr)
	{
		sutCellShift = sutCellShift * 5u + 3u;
		x = new (room + alignof(Ty<t>) * ((sutCellShift >> 4) % (64 / alignof(Ty<t>)))) Ty<t>(get<t>(v));
	}
	Cell(Cell const &) = delete;
	Cell & operator=(Cell const &) = delete;
	Ty<t> const & ref() const { return *x; }
	void check() const
	{
		if (std::memcmp(static_cast<void const *>(x), static_cast<void const *>(&y), sizeof y) != 0)
			__atomic_fetch_add(&sutArgChanged, 1ul, __ATOMIC_RELAXED);
	}
};

// How the caller uses the result: 0 at once, 1 assigned to the first operand,
// 2 assigned to the second operand, 3 held under a name while other calls run.
// And what the operands are: 0-3 const objects, 4 temporaries (and the result
// held under a name), 5 variables, 6 a temporary and a const object, 7 a const
// object and a temporary.
extern thread_local int sutUse;
// other calls of the same function, with other numbers
template <int a> inline Ty<a> stranger(Val const & v)
{
	Val w(v);
	for (double & z : w.c) z = 7.25 - z;
	return get<a>(w);
}
#define FW(p) std::forward<decltype(p)>(p)
template <int a, typename F> inline void call1(Val const * pa, Val * out, F const & f)
{
	Cell<a> ca(*pa);
	using R = std::decay_t<decltype(f(ca.ref()))>;
	if (sutUse == 3)
	{
		Ty<a> const o(stranger<a>(*pa));
		auto const & r = f(ca.ref());
		R const keep(r);
		auto const & r2 = f(o);
		R const keep2(r2);
		(void)f(ca.ref()); (void)f(o);
		if (std::memcmp(static_cast<void const *>(&keep2), static_cast<void const *>(&r2), sizeof(R)) != 0) __atomic_fetch_add(&sutArgChanged, 1ul, __ATOMIC_RELAXED);
		put(*out, r);
		ca.check();
		return;
	}
	if (sutUse == 4 || sutUse == 6)
	{
		auto const & r = f(get<a>(*pa));
		R const keep(r);
		(void)f(stranger<a>(*pa));
		if (std::memcmp(static_cast<void const *>(&keep), static_cast<void const *>(&r), sizeof(R)) != 0) __atomic_fetch_add(&sutArgChanged, 1ul, __ATOMIC_RELAXED);
		put(*out, r);
		return;
	}
	if (sutUse == 5 || sutUse == 7)
	{
		put(*out, f(*ca.x));
		ca.check();
		return;
	}
	if constexpr (std::is_same_v<R, Ty<a>>)
		if (sutUse == 1)
		{
			*ca.x = f(ca.ref());
			put(*out, *ca.x);
			return;
		}
	put(*out, f(ca.ref()));
	ca.check();
}
template <int a, int b, typename F> inline void call2(Val const * pa, Val const * pb, Val * out, F const & f)
{
	Cell<a> ca(*pa);
	using R = std::decay_t<decltype(f(std::declval<Ty<a> const &>(), std::declval<Ty<b> const &>()))>;
	if constexpr (a == b)
	{
		if (pa == pb) // same object on both sides
		{
			if (sutUse > 3)
			{
				put(*out, f(*ca.x, *ca.x));
				ca.check();
				return;
			}
			if constexpr (std::is_same_v<R, Ty<a>>)
				if (sutUse > 0)
				{
					*ca.x = f(ca.ref(), ca.ref());
					put(*out, *ca.x);
					return;
				}
			put(*out, f(ca.ref(), ca.ref()));
			ca.check();
			return;
		}
	}
	Cell<b> cb(*pb);
	if (sutUse == 3)
	{
		Ty<a> const o(stranger<a>(*pa));
		auto const & r = f(ca.ref(), cb.ref());
		R const keep(r);
		auto const & r2 = f(o, cb.ref());
		R const keep2(r2);
		(void)f(ca.ref(), cb.ref()); (void)f(o, cb.ref());
		if (std::memcmp(static_cast<void const *>(&keep2), static_cast<void const *>(&r2), sizeof(R)) != 0) __atomic_fetch_add(&sutArgChanged, 1ul, __ATOMIC_RELAXED);
		put(*out, r);
		ca.check(); cb.check();
		return;
	}
	if (sutUse == 4)
	{
		auto const & r = f(get<a>(*pa), get<b>(*pb));
		R const keep(r);
		(void)f(stranger<a>(*pa), stranger<b>(*pb));
		if (std::memcmp(static_cast<void const *>(&keep), static_cast<void const *>(&r), sizeof(R)) != 0) __atomic_fetch_add(&sutArgChanged, 1ul, __ATOMIC_RELAXED);
		put(*out, r);
		return;
	}
	if (sutUse == 5) { put(*out, f(*ca.x, *cb.x)); ca.check(); cb.check(); return; }
	if (sutUse == 6) { put(*out, f(get<a>(*pa), cb.ref())); cb.check(); return; }
	if (sutUse == 7) { put(*out, f(ca.ref(), get<b>(*pb))); ca.check(); return; }
	if constexpr (std::is_same_v<R, Ty<a>>)
		if (sutUse == 1)
		{
			*ca.x = f(ca.ref(), cb.ref());
			put(*out, *ca.x);
			cb.check();
			return;
		}
	if constexpr (std::is_same_v<R, Ty<b>>)
		if (sutUse == 2)
		{
			*cb.x = f(ca.ref(), cb.ref());
			put(*out, *cb.x);
			ca.check();
			return;
		}
	put(*out, f(ca.ref(), cb.ref()));
	ca.check(); cb.check();
}
