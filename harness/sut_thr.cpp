// Every operation on one set of shared operand objects, for use from many
// threads at once (no copies are made of the operands).
#include "adapt.hpp"
#include "engabra.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <tuple>
#include <unistd.h>
#include <vector>
namespace {
using Objs = std::tuple<Ty<D>, Ty<S>, Ty<V>, Ty<B>, Ty<T>, Ty<SP>, Ty<IS>, Ty<CX>, Ty<DX>, Ty<MV>>;
struct Out
{
	double * p; int n{ 0 }, max;
	void put1(double d) { if (n < max) p[n] = d; ++n; }
	template <typename X> void add(X const & x) { Val v; put(v, x); for (int i = 0; i < nComp(v.t); ++i) put1(v.c[i]); }
	void add(std::string const & s) { std::uint32_t h = 0; for (unsigned char c : s) h = h * 31u + c; put1(h); }
};
template <typename A, typename B, typename = void> struct HasAdd : std::false_type {};
template <typename A, typename B> struct HasAdd<A, B, std::void_t<decltype(std::declval<A const &>() + std::declval<B const &>())>> : std::true_type {};
template <typename A, typename B, typename = void> struct HasSub : std::false_type {};
template <typename A, typename B> struct HasSub<A, B, std::void_t<decltype(std::declval<A const &>() - std::declval<B const &>())>> : std::true_type {};

template <int a, int b> void pair(Objs const & o, Out & r)
{
	auto const & x = std::get<a>(o);
	auto const & y = std::get<b>(o);
	if constexpr (a != D || b != D)
	{
		r.add(x * y);
		if constexpr (HasAdd<Ty<a>, Ty<b>>::value) r.add(x + y);
		if constexpr (HasSub<Ty<a>, Ty<b>>::value) r.add(x - y);
	}
}
template <int a> void row(Objs const & o, Out & r)
{
	pair<a, D>(o, r); pair<a, S>(o, r); pair<a, V>(o, r); pair<a, B>(o, r); pair<a, T>(o, r);
	pair<a, SP>(o, r); pair<a, IS>(o, r); pair<a, CX>(o, r); pair<a, DX>(o, r); pair<a, MV>(o, r);
	auto const & x = std::get<a>(o);
	r.add(g3::magSq(x)); r.add(g3::magnitude(x)); r.add(g3::dual(x)); r.add(g3::reverse(x));
	r.add(g3::MultiVector(x));
	r.add(g3::isValid(x));
	r.add(g3::nearlyEquals(x, x));
	r.add(g3::null<Ty<a>>()); r.add(g3::zero<Ty<a>>());
	if constexpr (a != D)
	{
		r.add(-x); r.add(g3::oddverse(x)); r.add(g3::dirverse(x));
		r.add(g3::direction(x)); r.add(g3::ampSq(x)); r.add(g3::amplitude(x));
		auto const md = g3::pairMagDirFrom(x);
		r.add(md.first); r.add(md.second);
		for (std::size_t k = 0; k < 12; ++k) r.put1(x[k]);
		std::ostringstream os;
		os << x;
		r.add(os.str());
		std::istringstream is(os.str());
		Ty<a> y{};
		is >> y;
		r.add(y);
	}
	if constexpr (a == D || a == S || a == SP || a == CX || a == MV) { r.add(g3::sq(x)); r.add(g3::cube(x)); r.add(g3::one<Ty<a>>()); }
	if constexpr (CanInv<Ty<a>>::value) r.add(g3::inverse(x)); else if constexpr (a == CX || a == MV) r.add(g3::inverse<Ty<a>>(x));
	if constexpr (a == S || a == V || a == B || a == T) r.add(g3::inverse(x));
	if constexpr (a == B || a == SP || a == MV) r.add(g3::exp(x));
	if constexpr (a == S || a == V || a == B || a == T || a == SP || a == IS || a == MV) r.add(x == x);
	if constexpr (a != CX && a != DX) { r.add(g3::io::fixed(x)); r.add(g3::io::enote(x)); }
}
void * make(Val const * v)
{
	return new Objs(get<D>(v[D]), get<S>(v[S]), get<V>(v[V]), get<B>(v[B]), get<T>(v[T]), get<SP>(v[SP]), get<IS>(v[IS]), get<CX>(v[CX]), get<DX>(v[DX]), get<MV>(v[MV]));
}
int run(void const * p, double * out, int max)
{
	Objs const & o = *static_cast<Objs const *>(p);
	Out r{ out, 0, max };
	row<D>(o, r); row<S>(o, r); row<V>(o, r); row<B>(o, r); row<T>(o, r);
	row<SP>(o, r); row<IS>(o, r); row<CX>(o, r); row<DX>(o, r); row<MV>(o, r);
	r.add(g3::logG2(std::get<SP>(o))); r.add(g3::sqrtG2(std::get<SP>(o)));
	r.add(g3::logG2(std::get<SP>(o), std::get<B>(o))); r.add(g3::sqrtG2(std::get<SP>(o), std::get<B>(o)));
	r.add(g3::logG2(-1. * std::get<SP>(o)));
	std::complex<double> const z = std::get<CX>(o);
	r.add(g3::ComPlex::from(z));
	r.add(g3::e0); r.add(g3::e1); r.add(g3::e2); r.add(g3::e3); r.add(g3::e23); r.add(g3::e31); r.add(g3::e12); r.add(g3::e123);
	r.add(engabra::projectVersion()); r.add(engabra::sourceIdentity());
	return r.n;
}
void drop(void * p) { delete static_cast<Objs *>(p); }
// the same operations while static objects are being constructed, and again when they are being destroyed
struct Life
{
	enum { N = 5, MAX = 6000 };
	void * objs[N];
	std::vector<double> early[N];
	bool late{ false };
	bool cold;
	Life() : cold(std::getenv("VERIF_COLD") != nullptr)
	{
		if (cold) return; // nothing of the library is to run before main
		static double const base[N][8]{ { 1, 2, 3, 4, 5, 6, 7, 8 }, { -1, 0, 0, 0, 0, 0, 0, 0 }, { .3, -.7, .11, .5, -.25, .9, -1.1, .6 },
			{ 0, 1, 0, 0, 0, 1, 0, 0 }, { -2.5, 1e-9, -3e-9, 0, 40, -7e5, 1e-3, 0 } };
		for (int k = 0; k < N; ++k)
		{
			Val v[10];
			for (int t = 0; t < 10; ++t) { v[t].t = (Tag)t; for (int i = 0; i < 8; ++i) v[t].c[i] = base[k][t == D ? 2 : i]; }
			objs[k] = make(v);
			again(k, early[k]);
		}
	}
	void again(int k, std::vector<double> & out) const
	{
		out.assign(MAX, 0.);
		out.resize((std::size_t)run(objs[k], out.data(), MAX));
	}
	int differs(int k) const
	{
		std::vector<double> now;
		again(k, now);
		if (now.size() != early[k].size()) return 0;
		for (std::size_t i = 0; i < now.size(); ++i)
			if (std::memcmp(&now[i], &early[k][i], 8) != 0 && !(now[i] != now[i] && early[k][i] != early[k][i])) return (int)i;
		return -1;
	}
	~Life()
	{
		if (cold) return;
		for (int k = 0; k < N; ++k)
		{
			int const d = late ? differs(k) : -1;
			if (d >= 0)
			{
				std::fprintf(stderr, "result %d of battery %d differs after main from before main\n", d, k);
				_exit(78);
			}
			drop(objs[k]);
		}
	}
};
Life life;
int lifeDiffers(int k) { life.late = true; return k < Life::N && !life.cold ? life.differs(k) : -2; }
}
void sutFillThr() { sut.shMake = make; sut.shRun = run; sut.shFree = drop; sut.lifeDiffers = lifeDiffers; }
