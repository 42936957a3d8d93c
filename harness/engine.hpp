// Workload engine: cases, generators, scenario registry, monitored calls.
#pragma once
#include "ref.hpp"
#include "val.hpp"
#include <functional>
#include <random>
#include <string>
#include <vector>

struct Rng
{
	uint64_t s[2];
	explicit Rng(uint64_t seed = 1)
	{
		uint64_t z = seed;
		for (auto & x : s)
		{
			z += 0x9E3779B97F4A7C15ull;
			uint64_t y = z;
			y = (y ^ (y >> 30)) * 0xBF58476D1CE4E5B9ull;
			y = (y ^ (y >> 27)) * 0x94D049BB133111EBull;
			x = y ^ (y >> 31);
		}
	}
	uint64_t u64()
	{
		uint64_t s1 = s[0];
		uint64_t const s0 = s[1];
		uint64_t const r = s0 + s1;
		s[0] = s0;
		s1 ^= s1 << 23;
		s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
		return r;
	}
	uint32_t below(uint32_t n) { return static_cast<uint32_t>((u64() >> 32) * n >> 32); }
	int range(int a, int b) { return a + static_cast<int>(below(static_cast<uint32_t>(b - a + 1))); }
	double uni() { return static_cast<double>(u64() >> 11) * 0x1p-53; }       // [0,1)
	double sym() { return 2. * uni() - 1.; }
	bool chance(double p) { return uni() < p; }
	double sgn() { return (u64() >> 63) ? -1. : 1.; }
};

// magnitudes a component may have; zero allowed if zero is set
struct Dom
{
	double lo{ 1e-100 }, hi{ 1e100 };
	bool zero{ true };
	bool has(double x) const
	{
		double const a = std::fabs(x);
		return (x == 0.) ? zero : (lo <= a && a <= hi);
	}
};

struct Scen;
struct Case
{
	Scen const * s{ nullptr };
	int n{ 0 };
	Val a[6];
	uint64_t seed{ 0 }; // source of every secondary choice of the scenario
	bool alias{ false }; // a[0] and a[1] are one object
	Val const * p0() const { return &a[0]; }
	Val const * p1() const { return alias ? &a[0] : &a[1]; }
};

struct Ctx
{
	std::string fail; // description of a violation, empty when none
	// a failure that has a name: the driver reports it as a violation unless
	// the list of known findings has that name for this property
	std::vector<std::pair<std::string, std::string>> named;
	bool bad() const { return !fail.empty(); }
	void name(std::string const & key, std::string const & detail) { for (auto & n : named) if (n.first == key) return; named.emplace_back(key, detail); }
	void viol(char const * fmt, ...) __attribute__((format(printf, 2, 3)));
};

// returns false when the case is outside the property's domain (skipped)
using Run = std::function<bool(Case const &, Ctx &)>;
// adjusts a generated case (args already filled from dom)
using Gen = std::function<void(Case &, Rng &)>;

struct Scen
{
	std::string prop, name;
	std::vector<int> tags;
	Dom dom;
	Run run;
	Gen gen;
	double weight{ 1. };
	int idx{ 0 };
};

extern std::vector<Scen> scens;
Scen & scen(char const * prop, std::string name, std::vector<int> tags, Dom dom, Run run, double weight = 1., Gen gen = {});

// one-off monitors of a property (each runs once per process)
struct Special { std::string prop, name; std::function<void(Ctx &, Rng &)> run; };
extern std::vector<Special> specials;
void special(char const * prop, char const * name, std::function<void(Ctx &, Rng &)> run);

//
// monitored calls
//
struct Counters
{
	unsigned long calls{ 0 };
	unsigned long badTag{ 0 };
	unsigned long foreign{ 0 }; // calls made under a C locale with a decimal comma
};
extern thread_local Counters counters;
void vary(Val const & a); // sets sutUse
Val op(Fn1 f, Val const & a);
Val op(Fn2 f, Val const & a, Val const & b);
Val opSame(Fn2 f, Val const & a); // same object both sides
void op2out(Fn1 f, Val const & a, Val & r0, Val & r1);
void checkDefined(void const * p, size_t n, char const * what);
extern bool underValgrind;
extern unsigned long undefinedSeen;
extern unsigned long definedChecks;

// registry of every operation by name, for workloads over "all operations"
struct OpRef
{
	std::string name;
	int n;          // 1 or 2 arguments
	int in[2];
	int out;        // -1 when not fixed
	Fn1 f1{};
	Fn2 f2{};
	std::string kind;
};
std::vector<OpRef> const & allOps();

//
// values
//
extern std::vector<double> dict; // literals found in the headers
double num(Rng & r, Dom const & d);
Val entity(Rng & r, int tag, Dom const & d);
void relate(Rng & r, Case & c, Dom const & d);
double anyBits(Rng & r); // any class of double
std::string show(Val const & v);
std::string showCase(Case const & c);
bool sameBits(Val const & a, Val const & b); // NaNs equal
bool finite(Val const & v);
bool inDom(Val const & v, Dom const & d);
Val mk(int tag, std::initializer_list<double> c);
inline double ulpUp(double x, int n)
{
	for (; n > 0; --n) x = std::nextafter(x, 1e308);
	for (; n < 0; ++n) x = std::nextafter(x, -1e308);
	return x;
}
constexpr double EPS = 2.220446049250313e-16;

// compare a library value with a reference: grades the type lacks must be
// (nearly) zero in the reference; |err| <= k*EPS*a[i] + tiny
template <typename R>
bool near(Val const & got, Ref<R> const & want, R k, R tiny, std::string * why)
{
	R g[8];
	bool has[8]{};
	for (auto & x : g) x = 0;
	for (int i = 0; i < nComp(got.t); ++i) { g[mvIdx(got.t, i)] = got.c[i]; has[mvIdx(got.t, i)] = true; }
	for (int i = 0; i < 8; ++i)
	{
		R const tol = k * R(EPS) * want.a[i] + tiny;
		R const err = rabs(g[i] - want.c[i]);
		if (!(err <= tol))
		{
			if (why)
			{
				char b[300];
				snprintf(b, sizeof b, "component %d%s: got %.17g want %.17g err %.3g tol %.3g", i
					, has[i] ? "" : " (absent from result type)", (double)g[i], (double)want.c[i], (double)err, (double)tol);
				*why = b;
			}
			return false;
		}
	}
	return true;
}
void registerAll();
