// Plain arrays of doubles, the small predicates, copying, and the type traits.
#include "adapt.hpp"
#include <array>
#include <algorithm>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <tuple>
#include <vector>
namespace {
template <typename A, typename = void> struct CanValid : std::false_type {};
template <typename A> struct CanValid<A, std::void_t<decltype(g3::isValid(std::declval<A const &>()))>> : std::true_type {};
template <typename A, typename = void> struct CanNearly : std::false_type {};
template <typename A> struct CanNearly<A, std::void_t<decltype(g3::nearlyEquals(std::declval<A const &>(), std::declval<A const &>(), 1.))>> : std::true_type {};
template <typename A, typename = void> struct CanGet : std::false_type {};
template <typename A> struct CanGet<A, std::void_t<decltype(std::declval<std::istream &>() >> std::declval<A &>())>> : std::true_type {};

template <std::size_t n> using Arr = std::array<double, n>;
template <std::size_t n> Arr<n> from(double const * p) { Arr<n> a; for (std::size_t i = 0; i < n; ++i) a[i] = p[i]; return a; }
template <typename A> void same(A const & a, A const & b) { if (std::memcmp(&a, &b, sizeof a) != 0) __atomic_fetch_add(&sutArgChanged, 1ul, __ATOMIC_RELAXED); }
template <std::size_t n> bool valid(double const * p)
{
	Arr<n> const a = from<n>(p), b = a;
	bool const r = g3::isValid(a);
	same(a, b);
	return r;
}
template <std::size_t n> bool nearly(double const * p, double const * q, double tol, int useTol)
{
	Arr<n> const a = from<n>(p), b = a, c = from<n>(q), d = c;
	bool const r = p == q ? (useTol ? g3::nearlyEquals(a, a, tol) : g3::nearlyEquals(a, a)) : useTol ? g3::nearlyEquals(a, c, tol) : g3::nearlyEquals(a, c);
	same(a, b); same(c, d);
	return r;
}
template <std::size_t n> void get(std::istream & is, double * p)
{
	Arr<n> a = from<n>(p);
	auto const out = [&] { for (std::size_t i = 0; i < n; ++i) p[i] = a[i]; };
	try { is >> a; }
	catch (...) { out(); throw; }
	out();
}
template <std::size_t n> void size()
{
	ArrFns & f = sut.arr[sut.nArr++];
	f.n = (int)n;
	if constexpr (CanValid<Arr<n>>::value) f.valid = valid<n>;
	if constexpr (CanNearly<Arr<n>>::value) f.nearly = nearly<n>;
	if constexpr (CanGet<Arr<n>>::value) f.get = get<n>;
}
bool small(int which, double a, double b, double tol)
{
	return which == 0 ? g3::isSmallAbs(a, tol) : which == 1 ? g3::isSmallAbsDiff(a, b, tol) : g3::bothAreValid(a, b);
}

// the value must come out of every way of copying it
template <typename X> struct Holder { int before; X x; int after; };
template <typename X> X pass(X x) { return x; }
template <int a> void copies(Val const * in, Val const * other, Val * out)
{
	using X = Ty<a>;
	X const x(get<a>(*in)), y(get<a>(*other));
	X const c1(x); put(out[0], c1);
	X c2(y); c2 = x; put(out[1], c2);
	X c3(x); X const c4(std::move(c3)); put(out[2], c4);
	X c5(y); { X t(x); c5 = std::move(t); } put(out[3], c5);
	using std::swap; // the swap that generic code would find
	X s1(y), s2(x); std::swap(s1, s2); put(out[4], s1); put(out[5], s2);
	X s3(y), s4(x); swap(s3, s4); put(out[24], s3); put(out[25], s4);
	X s5[3]{ y, x, y }, s6[3]{ x, y, x }; std::swap_ranges(s5, s5 + 3, s6); put(out[26], s5[0]); put(out[27], s5[1]); put(out[28], s6[1]);
	std::reverse(s6 + 1, s6 + 3); put(out[29], s6[1]); put(out[30], s6[2]);
	X s7(x); swap(s7, s7); put(out[31], s7);
	std::pair<X, X> s8(y, x), s9(x, y); s8.swap(s9); put(out[32], s8.first); put(out[33], s8.second);
	std::vector<X> s10{ y, x, y, x }; std::rotate(s10.begin(), s10.begin() + 1, s10.end()); put(out[34], s10[0]); put(out[35], s10[1]);
	std::optional<X> s11(y), s12(x); s11.swap(s12); put(out[36], *s11); put(out[37], *s12);
	std::array<X, 2> s13{ y, x }, s14{ x, y }; s13.swap(s14); put(out[38], s13[0]); put(out[39], s13[1]);
	X & self = c2; c2 = self; put(out[6], c2);
	std::vector<X> v(1, x); v.push_back(y); v.insert(v.begin() + 1, 5, v[0]); v.erase(v.begin() + 2); v.reserve(100); put(out[7], v[0]);
	put(out[8], pass(pass(x)));
	Holder<X> h{ -1, x, -1 }; Holder<X> const g = h; put(out[9], g.before == -1 && g.after == -1 ? g.x : y);
	std::unique_ptr<X> const p(new X(x)); put(out[10], *p);
	put(out[11], x);
	put(out[12], v[3]);
	put(out[13], v.back()); // y
	X arr[3]{ y, y, y }; arr[1] = x; X brr[3]{ x, y, x }; std::copy(arr, arr + 3, brr); put(out[14], brr[1]); put(out[15], brr[2]);
	std::optional<X> opt; opt = y; opt = x; std::optional<X> const opt2 = opt; put(out[16], *opt2);
	std::tuple<int, X, X> tup(0, y, y); tup = std::make_tuple(1, x, y); put(out[17], std::get<1>(tup));
	auto const lam = [x, &y]() { X t(y); t = x; return t; }; put(out[18], lam());
	std::map<int, X> mp; mp.emplace(1, y); mp.insert_or_assign(1, x); mp.emplace(0, y); put(out[19], mp.at(1));
	std::list<X> ls; ls.push_back(y); ls.push_back(x); ls.reverse(); put(out[20], ls.front()); put(out[21], ls.back());
	X const cond = out[20].t == a ? x : y; put(out[22], cond);
	X h1(y), h2(y); h1 = h2 = x; put(out[23], h1);
}
// built-in numbers other than double as factors
template <typename X, typename N, typename = void> struct CanNum : std::false_type {};
template <typename X, typename N> struct CanNum<X, N, std::void_t<decltype(std::declval<N const &>() * std::declval<X const &>(), std::declval<X const &>() * std::declval<N const &>())>> : std::true_type {};
template <typename X, typename N> void num(X const & x, N const & n, Val * out)
{
	out[0].t = out[1].t = ERR;
	if constexpr (CanNum<X, N>::value) { put(out[0], n * x); put(out[1], x * n); }
}
template <int a> void mulNum(Val const * v, int i, float f, Val * out)
{
	Ty<a> const x(get<a>(*v));
	num(x, i, out); num(x, (unsigned)(i < 0 ? -i : i), out + 2); num(x, (long long)i * 65537, out + 4); num(x, (short)(i % 1000), out + 6); num(x, f, out + 8);
}
template <template <typename> class Is> void traits(int w)
{
	bool * r = sut.trait[w];
	r[D] = Is<double>::value; r[S] = Is<g3::Scalar>::value; r[V] = Is<g3::Vector>::value; r[B] = Is<g3::BiVector>::value; r[::T] = Is<g3::TriVector>::value;
	r[SP] = Is<g3::Spinor>::value; r[IS] = Is<g3::ImSpin>::value; r[CX] = Is<g3::ComPlex>::value; r[DX] = Is<g3::DirPlex>::value; r[MV] = Is<g3::MultiVector>::value;
	r[NTAG] = Is<std::array<double, 3>>::value || Is<int>::value || Is<std::complex<double>>::value || Is<std::string>::value || Is<void>::value;
}
}
void sutFillArr()
{
	size<1>(); size<2>(); size<3>(); size<4>(); size<5>(); size<7>(); size<8>(); size<16>(); size<33>();
	sut.small = small;
	sut.copies[D] = copies<D>; sut.copies[S] = copies<S>; sut.copies[V] = copies<V>; sut.copies[B] = copies<B>; sut.copies[T] = copies<T>;
	sut.copies[SP] = copies<SP>; sut.copies[IS] = copies<IS>; sut.copies[CX] = copies<CX>; sut.copies[DX] = copies<DX>; sut.copies[MV] = copies<MV>;
	sut.mulNum[S] = mulNum<S>; sut.mulNum[V] = mulNum<V>; sut.mulNum[B] = mulNum<B>; sut.mulNum[T] = mulNum<T>; sut.mulNum[SP] = mulNum<SP>;
	sut.mulNum[IS] = mulNum<IS>; sut.mulNum[CX] = mulNum<CX>; sut.mulNum[DX] = mulNum<DX>; sut.mulNum[MV] = mulNum<MV>;
	traits<g3::is::blade>(0); traits<g3::is::Scalar>(S); traits<g3::is::Vector>(V); traits<g3::is::BiVector>(B); traits<g3::is::TriVector>(T);
	traits<g3::is::Spinor>(SP); traits<g3::is::ImSpin>(IS); traits<g3::is::ComPlex>(CX); traits<g3::is::DirPlex>(DX); traits<g3::is::MultiVector>(MV);
}
