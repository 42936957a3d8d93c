#include "engine.hpp"
#include <cstdarg>
#include <cstdio>
#include <valgrind/memcheck.h>

std::vector<Scen> scens;
std::vector<Special> specials;
thread_local Counters counters;
bool underValgrind = false;
unsigned long undefinedSeen = 0, definedChecks = 0;
std::vector<double> dict;

void Ctx::viol(char const * fmt, ...)
{
	if (!fail.empty()) return;
	char b[2000];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	fail = b;
}
Scen & scen(char const * prop, std::string name, std::vector<int> tags, Dom dom, Run run, double weight, Gen gen)
{
	Scen s;
	s.prop = prop; s.name = std::move(name); s.tags = std::move(tags); s.dom = dom;
	s.run = std::move(run); s.gen = std::move(gen); s.weight = weight; s.idx = (int)scens.size();
	scens.push_back(std::move(s));
	return scens.back();
}
void special(char const * prop, char const * name, std::function<void(Ctx &, Rng &)> run)
{ specials.push_back({ prop, name, std::move(run) }); }

void checkDefined(void const * p, size_t n, char const *)
{
	if (!underValgrind) return;
	++definedChecks;
	if (VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) ++undefinedSeen;
}
// part of the calls have temporaries or variables for operands
void vary(Val const & a)
{
	uint64_t h = 0x9e3779b97f4a7c15ull, b;
	for (int i = 0; i < nComp(a.t); ++i) { std::memcpy(&b, &a.c[i], 8); h = (h ^ b) * 0xff51afd7ed558ccdull; h ^= h >> 29; }
	if (h & 64) sutUse = 4 + (int)((h >> 7) & 3);
}
Val op(Fn1 f, Val const & a)
{
	Val r;
	++counters.calls;
	if (sutUse) f(&a, &r);
	else { vary(a); f(&a, &r); sutUse = 0; }
	checkDefined(r.c, sizeof(double) * nComp(r.t), "result");
	return r;
}
void op2out(Fn1 f, Val const & a, Val & r0, Val & r1)
{
	Val r[2];
	++counters.calls;
	f(&a, r);
	checkDefined(r[0].c, sizeof(double) * nComp(r[0].t), "result");
	checkDefined(r[1].c, sizeof(double) * nComp(r[1].t), "result");
	r0 = r[0]; r1 = r[1];
}
Val op(Fn2 f, Val const & a, Val const & b)
{
	Val r;
	++counters.calls;
	if (sutUse) f(&a, &b, &r);
	else { vary(a); f(&a, &b, &r); sutUse = 0; }
	checkDefined(r.c, sizeof(double) * nComp(r.t), "result");
	return r;
}
Val opSame(Fn2 f, Val const & a) { return op(f, a, a); }

std::vector<OpRef> const & allOps()
{
	static std::vector<OpRef> v;
	if (!v.empty()) return v;
	auto a1 = [&](char const * k, Fn1 const * f) {
		for (int t = 0; t < NTAG; ++t) if (f[t])
		{ OpRef o; o.name = std::string(k) + "(" + tagName(t) + ")"; o.n = 1; o.in[0] = t; o.in[1] = -1; o.f1 = f[t]; o.kind = k; o.out = -1; v.push_back(o); } };
	auto a2 = [&](char const * k, Fn2 const (*f)[NTAG]) {
		for (int t = 0; t < NTAG; ++t) for (int u = 0; u < NTAG; ++u) if (f[t][u])
		{ OpRef o; o.name = std::string(tagName(t)) + k + tagName(u); o.n = 2; o.in[0] = t; o.in[1] = u; o.f2 = f[t][u]; o.kind = k; o.out = -1; v.push_back(o); } };
	a2("*", sut.mul); a2("+", sut.add); a2("-", sut.sub);
	a1("neg", sut.neg); a1("reverse", sut.rev); a1("oddverse", sut.odd); a1("dirverse", sut.dir); a1("dual", sut.dual);
	a1("sq", sut.sq); a1("cube", sut.cube); a1("magSq", sut.magSq); a1("magnitude", sut.mag);
	a1("pairMagDirFrom", sut.pairMD); a1("direction", sut.direction); a1("ampSq", sut.ampSq); a1("amplitude", sut.amp);
	a1("inverse", sut.inv); a1("exp", sut.exp); a1("promote", sut.promote);
	auto one = [&](char const * k, Fn1 f, int t) { OpRef o; o.name = k; o.n = 1; o.in[0] = t; o.in[1] = -1; o.f1 = f; o.kind = k; o.out = -1; v.push_back(o); };
	auto two = [&](char const * k, Fn2 f, int t, int u) { OpRef o; o.name = k; o.n = 2; o.in[0] = t; o.in[1] = u; o.f2 = f; o.kind = k; o.out = -1; v.push_back(o); };
	one("logG2", sut.logG2, SP); one("sqrtG2", sut.sqrtG2, SP);
	two("logG2(plane)", sut.logG2p, SP, B); two("sqrtG2(plane)", sut.sqrtG2p, SP, B);
	two("MultiVector(ComPlex,DirPlex)", sut.join, CX, DX); one("MultiVector(8)", sut.comps, MV);
	one("ComPlex::from", sut.cplxFrom, CX); one("complex(ComPlex)", sut.cplxTo, CX);
	return v;
}

//
// values
//
static double const specialNums[]{ 1., .5, 2., 3., 4., .25, .1, 10., 100., 1000., 1e-3, 1e-4, 1e-5, 1e-6, 1e-8, 1e-9, 1e-10, 1e-12, 1e-15
	, 1e4, 1e5, 1e6, 1e8, 1e9, 1e12, 1e15, 1e16, 3.141592653589793, 1.5707963267948966, .78539816339744828, 6.283185307179586
	, .70710678118654757, 1.4142135623730951, .8660254037844386, 2.718281828459045, EPS, 2 * EPS, 4 * EPS, .5 * EPS, 1.4901161193847656e-08
	, 9007199254740992., 4503599627370496., 4294967296., 2147483648., 65536., 256., 255., 7., 5., 6., 8., 9., 1.5, 180., 360., 90., 45., 60., 30.
	, 57.29577951308232, .017453292519943295, 1. / 3., 2. / 3., .75, .9, .99, .999, .9999, 1.1, 1.01, 1.001, 42., 1234.5, 1e20, 1e30, 1e50, 1e-20, 1e-30, 1e-50, 1e100, 1e-100 };

static double logUni(Rng & r, double lo, double hi)
{
	double const a = std::log(lo), b = std::log(hi);
	double x = std::exp(a + (b - a) * r.uni());
	if (x < lo) x = lo;
	if (x > hi) x = hi;
	return x;
}
double num(Rng & r, Dom const & d)
{
	for (int k = 0; k < 8; ++k)
	{
		double x = 0.;
		uint32_t const m = r.below(100);
		if (m < 14) x = r.range(-12, 12);
		else if (m < 20) x = r.range(-1000, 1000) * std::ldexp(1., -r.range(0, 12));
		else if (m < 36) x = r.sym();
		else if (m < 50) x = r.sym() * std::pow(10., r.range(-3, 3));
		else if (m < 62) x = r.sgn() * logUni(r, d.lo, d.hi);
		else if (m < 72) x = r.sgn() * logUni(r, 1e-9, 1e9);
		else if (m < 80) x = r.sgn() * specialNums[r.below(sizeof specialNums / sizeof *specialNums)];
		else if (m < 85) x = r.sgn() * ulpUp(specialNums[r.below(sizeof specialNums / sizeof *specialNums)], r.range(-3, 3));
		else if (m < 90 && !dict.empty()) x = r.sgn() * ulpUp(dict[r.below((uint32_t)dict.size())], r.range(-1, 1));
		else if (m < 94) x = r.sgn() * std::ldexp(1., r.range(-60, 60));
		else if (m < 96) x = r.sgn() * 0.;
		else x = r.sym() * r.range(1, 20);
		if (d.has(x)) return x;
	}
	return r.sgn() * logUni(r, d.lo, d.hi);
}
static double moderate(Rng & r, Dom const & d)
{
	double lo = d.lo, hi = d.hi;
	double c = r.chance(.7) ? logUni(r, std::max(lo, std::min(hi, 1e-4)), std::min(hi, std::max(lo, 1e4))) : logUni(r, lo, hi);
	return c;
}
Val entity(Rng & r, int tag, Dom const & d)
{
	static thread_local Val pool[NTAG][16];
	static thread_local int np[NTAG];
	Val v;
	v.t = (Tag)tag;
	int const n = nComp(tag);
	uint32_t m = r.below(100);
	auto fix = [&](double x) { if (d.has(x)) return x; if (d.zero && std::fabs(x) < d.lo) return 0.; return r.sgn() * logUni(r, d.lo, d.hi); };
	if (m < 22) { double const s = moderate(r, d); for (int i = 0; i < n; ++i) v.c[i] = fix(s * r.sym()); }
	else if (m < 37) { for (int i = 0; i < n; ++i) v.c[i] = num(r, d); }
	else if (m < 50) { for (int i = 0; i < n; ++i) v.c[i] = fix(r.range(-9, 9)); }
	else if (m < 58) { for (int i = 0; i < n; ++i) v.c[i] = fix(0.); v.c[r.below(n)] = num(r, d); }
	else if (m < 65) { for (int i = 0; i < n; ++i) v.c[i] = fix(0.); v.c[r.below(n)] = num(r, d); v.c[r.below(n)] = num(r, d); }
	else if (m < 74)
	{
		double s = 0.;
		for (int i = 0; i < n; ++i) { v.c[i] = r.chance(.15) ? 0. : r.sym(); s += v.c[i] * v.c[i]; }
		s = s > 0. ? 1. / std::sqrt(s) : 1.;
		if (r.chance(.3)) s *= std::pow(10., r.range(-6, 6));
		for (int i = 0; i < n; ++i) v.c[i] = fix(v.c[i] * s);
	}
	else if (m < 80) { double const x = num(r, d); for (int i = 0; i < n; ++i) v.c[i] = r.chance(.5) ? x : fix(-x); }
	else if (m < 85)
	{
		double const s = moderate(r, d);
		for (int i = 0; i < n; ++i) v.c[i] = fix(s * r.sym() * std::pow(10., -r.range(4, 18)));
		v.c[r.below(n)] = fix(s);
	}
	else if (m < 90)
	{
		double const s = moderate(r, d);
		uint64_t const keep = r.u64();
		for (int i = 0; i < n; ++i) v.c[i] = (keep >> gradeOf(mvIdx(tag, i)) & 1) ? fix(s * r.sym()) : fix(0.);
	}
	else if (np[tag] > 0)
	{
		v = pool[tag][r.below(np[tag])];
		switch (r.below(7))
		{
			case 0: v.c[r.below(n)] = num(r, d); break;
			case 1: for (int i = 0; i < n; ++i) v.c[i] = -v.c[i]; break;
			case 2: { int const i = r.below(n); v.c[i] = -v.c[i]; break; }
			case 3: { double const s = r.chance(.5) ? r.range(2, 5) : std::ldexp(1., r.range(-4, 4)); for (int i = 0; i < n; ++i) v.c[i] *= s; break; }
			case 4: { int const i = r.below(n), j = r.below(n); std::swap(v.c[i], v.c[j]); break; }
			case 5: { int const i = r.below(n); v.c[i] = ulpUp(v.c[i], r.range(-2, 2)); break; }
			default: break;
		}
		for (int i = 0; i < n; ++i) v.c[i] = fix(v.c[i]);
	}
	else { for (int i = 0; i < n; ++i) v.c[i] = num(r, d); }
	if (np[tag] < 16) pool[tag][np[tag]++] = v;
	else if (r.chance(.3)) pool[tag][r.below(16)] = v;
	return v;
}
void relate(Rng & r, Case & c, Dom const & d)
{
	c.alias = false;
	if (c.n < 2 || r.chance(.45)) return;
	int const i = r.below(c.n), j = (i + 1 + (int)r.below(c.n - 1)) % c.n;
	Val & x = c.a[i];
	Val & y = c.a[j];
	auto fix = [&](double z) { return d.has(z) ? z : (d.zero && std::fabs(z) < d.lo) ? 0. : r.sgn() * logUni(r, d.lo, d.hi); };
	int const nx = nComp(x.t), ny = nComp(y.t);
	double s = 1.;
	switch (r.below(8))
	{
		case 0: s = 1.; break;
		case 1: s = -1.; break;
		case 2: s = r.sgn() * std::ldexp(1., r.range(-8, 8)); break;
		case 3: s = r.sgn() * r.range(2, 9); break;
		default: s = 1.; break;
	}
	switch (r.below(7))
	{
		case 0: case 1: // shared basis components equal or proportional
		{
			double full[8]{}; bool has[8]{};
			for (int k = 0; k < nx; ++k) { full[mvIdx(x.t, k)] = x.c[k]; has[mvIdx(x.t, k)] = true; }
			for (int k = 0; k < ny; ++k) if (has[mvIdx(y.t, k)]) y.c[k] = fix(s * full[mvIdx(y.t, k)]);
			break;
		}
		case 2: // same numbers in storage order
			for (int k = 0; k < ny; ++k) y.c[k] = fix(s * x.c[k % nx]);
			break;
		case 3: // one coincidence
			y.c[r.below(ny)] = fix(s * x.c[r.below(nx)]);
			break;
		case 4: // equal but for one component
			for (int k = 0; k < ny && k < nx; ++k) y.c[k] = fix(x.c[k]);
			{ int const k = r.below(ny); y.c[k] = r.chance(.5) ? fix(ulpUp(y.c[k], r.range(-3, 3))) : r.chance(.5) ? fix(-y.c[k]) : num(r, d); }
			break;
		case 5: // orthogonal in the leading three components
			if (nx >= 3 && ny >= 3)
			{
				double const * p = x.c;
				double w[3]{ r.sym(), r.sym(), r.sym() };
				y.c[0] = fix(p[1] * w[2] - p[2] * w[1]); y.c[1] = fix(p[2] * w[0] - p[0] * w[2]); y.c[2] = fix(p[0] * w[1] - p[1] * w[0]);
				break;
			}
			[[fallthrough]];
		default: // dual / permuted
			for (int k = 0; k < ny; ++k) y.c[k] = fix(s * x.c[(nx - 1 - k % nx)]);
	}
	if (x.t == y.t && i + j == 1 && r.chance(.25)) { c.a[1] = c.a[0]; c.alias = true; }
}
double anyBits(Rng & r)
{
	switch (r.below(12))
	{
		case 0: return std::nan("");
		case 1: return -std::nan("7");
		case 2: return INFINITY;
		case 3: return -INFINITY;
		case 4: return r.sgn() * 5e-324 * r.range(1, 1000);
		case 5: return r.sgn() * 1.7976931348623157e308 * (r.chance(.5) ? 1. : r.uni());
		case 6: return r.sgn() * 2.2250738585072014e-308 * (1. + r.sym() * 1e-3);
		case 7: return r.sgn() * 0.;
		case 8: return r.range(-5, 5);
		case 9: return r.sym();
		default: { uint64_t b = r.u64(); double x; std::memcpy(&x, &b, 8); return x; }
	}
}
std::string show(Val const & v)
{
	std::string s = tagName(v.t);
	s += "{";
	for (int i = 0; i < nComp(v.t); ++i) { char b[40]; snprintf(b, sizeof b, "%s%.17g", i ? "," : "", v.c[i]); s += b; }
	return s + "}";
}
std::string showCase(Case const & c)
{
	std::string s = c.s ? c.s->name : "?";
	s += c.alias ? " [same object]" : "";
	for (int i = 0; i < c.n; ++i) s += " " + show(c.a[i]);
	char b[40];
	snprintf(b, sizeof b, " seed=%llu", (unsigned long long)c.seed);
	return s + b;
}
bool sameBits(Val const & a, Val const & b)
{
	if (a.t != b.t) return false;
	for (int i = 0; i < nComp(a.t); ++i)
	{
		if (a.c[i] != a.c[i] && b.c[i] != b.c[i]) continue;
		if (std::memcmp(&a.c[i], &b.c[i], 8) != 0) return false;
	}
	return true;
}
bool finite(Val const & v) { for (int i = 0; i < nComp(v.t); ++i) if (!std::isfinite(v.c[i])) return false; return true; }
bool inDom(Val const & v, Dom const & d) { for (int i = 0; i < nComp(v.t); ++i) if (!d.has(v.c[i])) return false; return true; }
Val mk(int tag, std::initializer_list<double> c)
{
	Val v; v.t = (Tag)tag; int i = 0;
	for (double x : c) v.c[i++] = x;
	return v;
}
