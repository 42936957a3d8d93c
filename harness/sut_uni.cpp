#include "adapt.hpp"
namespace {
#define UN(NAME, EXPR) \
template <int a> void NAME(Val const * x, Val * o) \
{ call1<a>(x, o, [](auto && p) -> decltype(auto) { return EXPR; }); }
UN(fneg, -FW(p))
UN(frev, g3::reverse(FW(p)))
UN(fodd, g3::oddverse(FW(p)))
UN(fdir, g3::dirverse(FW(p)))
UN(fdual, g3::dual(FW(p)))
UN(fsq, g3::sq(FW(p)))
UN(fcube, g3::cube(FW(p)))
UN(fprom, g3::MultiVector(FW(p)))
template <int a> void row()
{
	if constexpr (a != D)
	{
		sut.neg[a] = fneg<a>; sut.odd[a] = fodd<a>; sut.dir[a] = fdir<a>;
	}
	sut.rev[a] = frev<a>; sut.dual[a] = fdual<a>;
	if constexpr (a == D || a == S || a == SP || a == CX || a == MV)
	{
		sut.sq[a] = fsq<a>; sut.cube[a] = fcube<a>;
	}
	sut.promote[a] = fprom<a>;
}
void join(Val const * x, Val const * y, Val * o)
{ call2<CX, DX>(x, y, o, [](auto && p, auto && q) -> decltype(auto) { return g3::MultiVector(FW(p), FW(q)); }); }
void grades(Val const * s, Val const * v, Val const * b, Val const * t, Val * o)
{
	Cell<S> cs(*s); Cell<V> cv(*v); Cell<B> cb(*b); Cell<T> ct(*t);
	put(*o, g3::MultiVector(cs.ref(), cv.ref(), cb.ref(), ct.ref()));
	cs.check(); cv.check(); cb.check(); ct.check();
}
void comps(Val const * x, Val * o)
{
	double const * c = x->c;
	put(*o, g3::MultiVector(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]));
}
void cplxFrom(Val const * x, Val * o)
{ put(*o, g3::ComPlex::from(std::complex<double>{ x->c[0], x->c[1] })); }
void cplxTo(Val const * x, Val * o)
{
	Cell<CX> c(*x);
	std::complex<double> const z = c.ref();
	o->t = CX; o->c[0] = z.real(); o->c[1] = z.imag();
	c.check();
}
void cplxMulStd(Val const * x, Val const * y, Val * o)
{
	std::complex<double> const zx = get<CX>(*x), zy = get<CX>(*y);
	put(*o, g3::ComPlex::from(zx * zy));
}
template <int a> double subc(Val const * x, std::size_t n)
{
	Ty<a> const c(get<a>(*x));
	return c[n];
}
double readMut(Val const * x, std::size_t n)
{
	g3::MultiVector m(get<MV>(*x));
	return m[n];
}
void write(Val * x, std::size_t n, double v)
{
	g3::MultiVector m(get<MV>(*x));
	m[n] = v;
	put(*x, m);
}
}
void sutFillUni()
{
	row<D>(); row<S>(); row<V>(); row<B>(); row<T>(); row<SP>(); row<IS>(); row<CX>(); row<DX>(); row<MV>();
	sut.join = join; sut.grades = grades; sut.comps = comps;
	sut.cplxFrom = cplxFrom; sut.cplxTo = cplxTo; sut.cplxMulStd = cplxMulStd;
	sut.sub1[S] = subc<S>; sut.sub1[V] = subc<V>; sut.sub1[B] = subc<B>; sut.sub1[T] = subc<T>;
	sut.sub1[SP] = subc<SP>; sut.sub1[IS] = subc<IS>; sut.sub1[CX] = subc<CX>; sut.sub1[DX] = subc<DX>; sut.sub1[MV] = subc<MV>;
	sut.readMut = readMut; sut.write = write;
}
