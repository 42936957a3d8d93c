// C21..C23: purity, side effects, wild inputs.
#include "scen.hpp"
#include "sys.hpp"
#include <atomic>
#include <mutex>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <new>
#include <fstream>
#include <iostream>
#include <locale>
#include <memory>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <xmmintrin.h>

//
// one arbitrary library call, a pure function of its 64-bit description
//
static Val plainVal(Rng & r, int t, int wild)
{
	Val v;
	v.t = (Tag)t;
	int const n = nComp(t);
	double const s = std::pow(10., r.range(-3, 3));
	for (int i = 0; i < n; ++i)
	{
		v.c[i] = r.chance(.25) ? (double)r.range(-9, 9) : s * r.sym();
		if (wild && r.chance(wild * .2)) v.c[i] = anyBits(r);
	}
	if (r.chance(.1)) { double const x = v.c[0]; for (int i = 0; i < n; ++i) v.c[i] = r.chance(.5) ? x : 0.; }
	return v;
}
static size_t digits(Rng & r) { return r.chance(.95) ? r.below(61) : r.below(1001); }
struct Call { int kind; int t; OpRef const * o; Val a, b; size_t k; size_t d1, d2; int n; std::string text; };
static Call makeCall(uint64_t id, int wild)
{
	Rng r(id);
	Call c{};
	auto const & ops = allOps();
	uint32_t const m = r.below(100);
	if (m < 62)
	{
		c.kind = 0;
		c.o = &ops[r.below((uint32_t)ops.size())];
		c.a = plainVal(r, c.o->in[0], wild);
		if (c.o->n == 2) c.b = plainVal(r, c.o->in[1], wild);
		c.n = r.chance(.1) && c.o->n == 2 && c.o->in[0] == c.o->in[1];
		return c;
	}
	c.t = r.below(NTAG);
	c.a = plainVal(r, c.t, wild); c.b = r.chance(.4) ? c.a : plainVal(r, c.t, wild);
	if (m < 67) c.kind = 1;                                                 // isValid
	else if (m < 73) { c.kind = 2; c.n = r.below(2); c.a.c[nComp(c.t) - 1] *= 1.; }  // nearlyEquals
	else if (m < 76) { c.kind = 3; if (!sut.eq[c.t]) c.t = V; }
	else if (m < 80) { c.kind = 4; if (c.t == D) c.t = MV; c.k = r.chance(.7) ? r.below(12) : r.u64() >> r.below(64); } // subscript
	else if (m < 83) { c.kind = 5; c.t = MV; c.k = r.below(8); }          // write by subscript
	else if (m < 86) { c.kind = 6; if (!sut.fixed[c.t]) c.t = MV; c.n = r.below(3); c.d1 = digits(r); c.d2 = digits(r); }
	else if (m < 89) { c.kind = 7; if (!sut.enote[c.t]) c.t = MV; c.n = r.below(2); c.d1 = digits(r); }
	else if (m < 92) { c.kind = 8; if (c.t == D) c.t = SP; if (r.chance(.5)) { c.k = 1; c.d1 = r.u64(); } } // insert
	else if (m < 97)
	{
		c.kind = 9;                                                          // extract
		if (r.chance(.35)) { c.k = 1; c.d1 = r.u64(); }
		if (c.t == D) c.t = IS;
		int const len = r.range(0, 60);
		static char const al[]{ "0123456789012345678901234567890123456789......   \t\n  eE+-+-nainfxX#,:\"" };
		for (int i = 0; i < len; ++i) c.text += r.chance(.02) ? (char)r.below(256) : al[r.below(sizeof al - 1)];
		if (r.chance(.4)) { c.text.clear(); for (int i = 0; i < 8; ++i) { char b[40]; snprintf(b, sizeof b, "%.*g ", r.range(1, 18), r.sym() * std::pow(10., r.range(-9, 9))); c.text += b; } }
	}
	else if (m < 98) { c.kind = 10; c.k = r.below(8); c.n = r.below(2); }  // constants
	else if (m < 99 && r.chance(.5)) c.kind = 11;                          // null, zero, one
	else if (m < 99) { c.kind = 13; c.k = r.below(16); c.n = r.below(4); c.d1 = r.u64(); } // arrays, predicates, copies
	else c.kind = 12;                                                      // version
	c.a.t = c.b.t = (Tag)c.t;
	return c;
}
static std::string callName(Call const & c)
{
	static char const * const k[]{ "", "isValid", "nearlyEquals", "operator==", "operator[]", "operator[]=", "io::fixed", "io::enote", "operator<<", "operator>>", "constant", "null/zero/one", "version", "array/predicate/copy" };
	if (c.kind == 0) return c.o->name + " " + show(c.a) + (c.o->n == 2 ? " " + show(c.b) : "");
	char b[100];
	snprintf(b, sizeof b, " (%zu,%zu,%zu,%d)", c.k, c.d1, c.d2, c.n);
	return std::string(k[c.kind]) + " " + show(c.a) + " " + show(c.b) + b + (c.kind == 9 ? " \"" + c.text + "\"" : "");
}
struct Res { double v[18]; int n; };
static void putD(Res & r, double d) { if (r.n < 18) r.v[r.n++] = d; }
static void putS(Res & r, std::string const & s) { uint64_t h = 1469598103934665603ull; for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; } putD(r, (double)(h >> 12)); putD(r, (double)s.size()); }
static void putV(Res & r, Val const & v) { putD(r, v.t); for (int i = 0; i < nComp(v.t); ++i) putD(r, v.c[i]); }
// a stream buffer that takes and gives only so many characters
namespace {
struct ShortBuf : std::streambuf
{
	std::string text;
	size_t room;
	bool throws;
	ShortBuf(std::string const & t, size_t n, bool thr) : text(t), room(n), throws(thr) { setg(&text[0], &text[0], &text[0] + std::min(n, text.size())); }
	int_type overflow(int_type ch) override
	{
		if (text.size() >= room) { if (throws) throw 7; return traits_type::eof(); }
		text += (char)ch;
		return ch;
	}
	int_type underflow() override { if (throws) throw 7; return traits_type::eof(); }
};
}
// formatting, error states, exception masks; returns the buffer to use instead of the stream's own
static std::unique_ptr<std::streambuf> oddState(std::ios & s, uint64_t bits, std::string const & text)
{
	Rng r(bits);
	if (r.chance(.5))
	{
		using I = std::ios;
		I::fmtflags const all[]{ I::hex, I::oct, I::showpos, I::showpoint, I::scientific, I::fixed, I::uppercase, I::left, I::internal, I::unitbuf, I::boolalpha, I::showbase };
		for (I::fmtflags f : all) if (r.chance(.3)) s.setf(f);
		if (r.chance(.4)) s.unsetf(I::skipws);
		if (r.chance(.5)) s.precision(r.range(-2, 60));
		if (r.chance(.5)) s.width(r.range(0, 80));
		if (r.chance(.5)) s.fill((char)r.range(33, 126));
	}
	std::unique_ptr<std::streambuf> b;
	int const m = r.below(8);
	if (m == 0) s.rdbuf(nullptr);
	if (m == 1 || m == 2) { b.reset(new ShortBuf(text, r.below(90), r.chance(.5))); s.rdbuf(b.get()); }
	if (r.chance(.4))
	{
		std::ios::iostate st{};
		if (r.chance(.4)) st |= std::ios::failbit;
		if (r.chance(.4)) st |= std::ios::badbit;
		if (r.chance(.4)) st |= std::ios::eofbit;
		s.clear(s.rdbuf() ? st : st | std::ios::badbit);
	}
	if (r.chance(.2))
	{
		try { s.exceptions(r.chance(.5) ? std::ios::badbit : std::ios::badbit | std::ios::failbit | std::ios::eofbit); } // throws at once when already set
		catch (std::ios_base::failure const &) {}
	}
	return b;
}
template <typename F> static int guarded(std::ios const & s, F const & f)
{
	if (s.exceptions() == std::ios::goodbit) { f(); return 0; }
	try { f(); }
	catch (std::ios_base::failure const &) { return 1; } // what the stream was asked to do
	catch (int v) { if (v != 7) throw; return 2; }
	return 0;
}
static void doCall(Call const & c, Res & out)
{
	out.n = 0;
	++counters.calls;
	switch (c.kind)
	{
		case 0:
		{
			Val r[2];
			vary(c.a);
			if (c.o->n == 1) c.o->f1(&c.a, r);
			else c.o->f2(&c.a, c.n ? &c.a : &c.b, r);
			sutUse = 0;
			putV(out, r[0]);
			if (c.o->kind == "pairMagDirFrom") putV(out, r[1]);
			break;
		}
		case 1: putD(out, sut.isValid[c.t](&c.a)); break;
		case 2: putD(out, sut.nearly[c.t](&c.a, &c.b, std::fabs(c.b.c[0]), c.n)); break;
		case 3: putD(out, sut.eq[c.t](&c.a, &c.b)); break;
		case 4: putD(out, sut.sub1[c.t](&c.a, c.k)); break;
		case 5: { Val w = c.a; sut.write(&w, c.k, c.b.c[0]); putV(out, w); putD(out, sut.readMut(&c.a, c.k)); break; }
		case 6: putS(out, sut.fixed[c.t](&c.a, c.d1, c.d2, c.n)); break;
		case 7: putS(out, sut.enote[c.t](&c.a, c.d1, c.n)); break;
		case 8:
		{
			std::ostringstream os;
			auto const alt = c.k ? oddState(os, c.d1, "") : nullptr;
			putD(out, guarded(os, [&] { sut.put[c.t](os, &c.a); }));
			putD(out, (double)os.rdstate());
			putS(out, alt ? static_cast<ShortBuf *>(alt.get())->text : os.str());
			break;
		}
		case 9:
		{
			std::istringstream is(c.text);
			auto const alt = c.k ? oddState(is, c.d1, c.text) : nullptr;
			Val w = c.a;
			int const thrown = guarded(is, [&] { sut.get[c.t](is, &w); });
			putV(out, w);
			putD(out, (double)is.rdstate());
			is.exceptions(std::ios::goodbit);
			is.clear();
			putD(out, (double)is.tellg() + thrown);
			break;
		}
		case 10: { Val w; sut.konst[c.n]((int)c.k, &w); putV(out, w); break; }
		case 11: { Val w; sut.null[c.t](&w); putV(out, w); sut.zero[c.t](&w); putV(out, w); if (sut.one[c.t]) { sut.one[c.t](&w); if (out.n < 9) putV(out, w); } break; }
		case 13:
		{
			if (c.n == 3) { Val o[NCOPIES]; sut.copies[c.t](&c.a, &c.b, o); for (Val const & v : o) putV(out, v); break; }
			if (c.n == 2) { for (int i = 0; i < 3; ++i) putD(out, sut.small(i, c.a.c[0], c.b.c[0], std::fabs(c.b.c[1]))); break; }
			ArrFns const & f = sut.arr[c.k % sut.nArr];
			std::vector<double> p(f.n), q(f.n);
			Rng r(c.d1);
			for (int i = 0; i < f.n; ++i) { p[i] = i < 8 ? c.a.c[i] : r.sym(); q[i] = r.chance(.7) ? p[i] : c.b.c[i % 8]; }
			if (c.n == 0)
			{
				if (f.valid) putD(out, f.valid(p.data()));
				if (f.nearly) putD(out, f.nearly(q.data(), p.data(), std::fabs(c.b.c[0]), (int)(c.d1 & 1)));
				break;
			}
			std::string t;
			for (double z : p) { char b[40]; snprintf(b, sizeof b, "%.17g ", z); t += b; }
			if (c.d1 & 2) t.resize(c.d1 % (t.size() + 1));
			std::istringstream is(t);
			if (f.get) f.get(is, q.data());
			putD(out, (double)is.rdstate());
			for (double z : q) putD(out, z);
			break;
		}
		default: putS(out, sut.version()); putS(out, sut.identity()); break;
	}
	checkDefined(out.v, sizeof(double) * out.n, "call");
}
static bool sameRes(Res const & a, Res const & b)
{
	if (a.n != b.n) return false;
	for (int i = 0; i < a.n; ++i)
	{
		if (a.v[i] != a.v[i] && b.v[i] != b.v[i]) continue;
		if (std::memcmp(&a.v[i], &b.v[i], 8) != 0) return false;
	}
	return true;
}
static std::string showRes(Res const & a)
{
	std::string s = "[";
	for (int i = 0; i < a.n; ++i) { char b[40]; snprintf(b, sizeof b, "%s%.17g", i ? "," : "", a.v[i]); s += b; }
	return s + "]";
}
static uint64_t callId(uint64_t seed, uint64_t i) { return seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull; }

// a call of the i-th operation, or of kind i - (number of operations)
static Call callOf(Rng & r, size_t i, int wild)
{
	auto const & ops = allOps();
	for (;;)
	{
		Call c = makeCall(r.u64(), wild);
		if (i < ops.size())
		{
			if (c.kind != 0) continue;
			c.o = &ops[i];
			c.a = plainVal(r, c.o->in[0], wild && r.chance(.3));
			if (c.o->n == 2) c.b = plainVal(r, c.o->in[1], wild && r.chance(.3));
			if (c.o->n == 2 && c.n && c.o->in[0] != c.o->in[1]) c.n = 0;
			return c;
		}
		if (c.kind == (int)(i - ops.size())) return c;
	}
}

// executes the calls in another order and writes the results by index
int runDump(uint64_t seed, unsigned long n, unsigned perm, std::string const & file)
{
	std::vector<Res> res(n);
	std::vector<uint32_t> order(n);
	for (uint32_t i = 0; i < n; ++i) order[i] = i;
	Rng r(perm * 77 + 1);
	if (perm == 1) std::reverse(order.begin(), order.end());
	else if (perm >= 2) for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[r.below((uint32_t)i)]);
	for (uint32_t i : order) { Call const c = makeCall(callId(seed, i), 1); doCall(c, res[i]); }
	std::ofstream o(file, std::ios::binary);
	for (auto & x : res)
	{
		for (int k = 0; k < 18; ++k) { double v = k < x.n ? x.v[k] : 0.; if (v != v) v = std::nan(""); o.write(reinterpret_cast<char const *>(&v), 8); }
	}
	return o ? 0 : 2;
}
std::string dumpName(uint64_t seed, unsigned long i) { return callName(makeCall(callId(seed, i), 1)); }

// Threads that start together make the first calls of the process: nothing of
// the library has run before (VERIF_COLD keeps the static initialisers of the
// harness from using it). Relaxed atomics only, so that a race detector sees
// no order between the threads but the library's own.
int runCold(uint64_t seed, unsigned long n, unsigned perm)
{
	int const T = 8, MAX = 6000;
	Rng r(seed * 1000 + perm);
	enum { SETS = 6 };
	auto const & ops = allOps();
	std::vector<Call> calls;
	// values that take the less usual ways: some or most components zero, all alike
	auto odd = [&](Val & v) {
		int const m = r.below(4);
		for (int j = m < 2 ? 0 : 1; j < nComp(v.t); ++j) if (m == 3 || r.chance(.5)) v.c[j] = m == 1 ? v.c[0] : 0.;
		if (r.chance(.3)) v.c[0] = r.chance(.5) ? -1. : -std::fabs(v.c[0]);
	};
	for (unsigned long i = 0; i < n; ++i)
	{
		Call c = r.chance(.5) ? makeCall(r.u64(), r.below(2)) : callOf(r, r.below((uint32_t)ops.size()), 0);
		if (r.chance(.3)) odd(c.a);
		if (r.chance(.2)) odd(c.b);
		calls.push_back(c);
	}
	Call ver = calls[0];
	ver.kind = 12;
	calls[perm & 4 ? 0 : n / 2] = ver;
	void * objs[SETS];
	for (int s = 0; s < SETS; ++s)
	{
		Val vals[NTAG];
		for (int t = 0; t < NTAG; ++t) { vals[t] = plainVal(r, t, 0); if (s > 2) odd(vals[t]); if (s == 2) { vals[t].c[0] = -1.; for (int j = 1; j < 8; ++j) vals[t].c[j] = 0.; } }
		objs[s] = sut.shMake(vals);
	}
	struct Mine { std::vector<Res> res; std::vector<double> bat[SETS]; int n[SETS]; };
	auto battery = [&](Mine & m) { for (int s = 0; s < SETS; ++s) m.n[s] = sut.shRun(objs[s], m.bat[s].data(), MAX); };
	std::vector<Mine> mine(T);
	for (Mine & m : mine) { m.res.resize(n); for (auto & b : m.bat) b.assign(MAX, 0.); }
	std::vector<std::atomic<unsigned>> gate(n + 2);
	for (auto & g : gate) g.store(0, std::memory_order_relaxed);
	auto meet = [&](unsigned long i) {
		gate[i].fetch_add(1, std::memory_order_relaxed);
		for (int k = 0; gate[i].load(std::memory_order_relaxed) < (unsigned)T; ++k) if (k > 2000) { std::this_thread::yield(); k = 0; }
	};
	std::vector<std::thread> th;
	for (int k = 0; k < T; ++k)
		th.emplace_back([&, k] {
			Mine & m = mine[k];
			if (perm % 2 == 0) { meet(n); battery(m); }
			for (unsigned long i = 0; i < n; ++i) { if (i < 3000) meet(i); doCall(calls[i], m.res[i]); }
			if (perm % 2) { meet(n); battery(m); }
		});
	for (auto & t : th) t.join();
	// once more, all set up now
	Mine last;
	last.res.resize(n); for (auto & b : last.bat) b.assign(MAX, 0.);
	for (unsigned long i = 0; i < n; ++i) doCall(calls[i], last.res[i]);
	battery(last);
	for (void * o : objs) sut.shFree(o);
	for (int k = 0; k < T; ++k)
	{
		for (unsigned long i = 0; i < n; ++i)
			if (!sameRes(mine[k].res[i], last.res[i])) { printf("%s gave %s in one of %d threads making the first calls of the process, later %s\n", callName(calls[i]).c_str(), showRes(mine[k].res[i]).c_str(), T, showRes(last.res[i]).c_str()); return 1; }
		for (int s = 0; s < SETS; ++s)
		{
			if (mine[k].n[s] != last.n[s] || last.n[s] > MAX) { printf("battery of %d results in one of the first threads, later %d\n", mine[k].n[s], last.n[s]); return 1; }
			double const * const p = mine[k].bat[s].data(), * const q = last.bat[s].data();
			for (int j = 0; j < last.n[s]; ++j)
				if (std::memcmp(p + j, q + j, 8) != 0 && !(p[j] != p[j] && q[j] != q[j]))
				{ printf("result %d of the battery was %.17g in one of %d threads making the first calls of the process, later %.17g\n", j, p[j], T, q[j]); return 1; }
		}
	}
	return 0;
}

static unsigned long threadRounds = 0, threadCalls = 0;
static bool batteryAllThreads(uint64_t seed, int nThr, int rounds, Ctx & x)
{
	Rng r(seed);
	Val vals[NTAG];
	for (int t = 0; t < NTAG; ++t) vals[t] = plainVal(r, t, r.chance(.15) ? 1 : 0);
	void * const objs = sut.shMake(vals);
	int const MAX = 6000;
	std::vector<double> base(MAX);
	int const n = sut.shRun(objs, base.data(), MAX);
	checkDefined(base.data(), sizeof(double) * std::min(n, MAX), "battery");
	if (n > MAX) { x.viol("harness: battery of %d results", n); return false; }
	std::atomic<int> ready{ 0 }, badAt{ -1 };
	std::vector<std::thread> th;
	for (int k = 0; k < nThr; ++k)
		th.emplace_back([&, k] {
			std::vector<double> mine(MAX);
			Rng q(seed + 31 * k);
			ready.fetch_add(1);
			while (ready.load() < nThr) std::this_thread::yield();
			for (int i = 0; i < rounds; ++i)
			{
				if (q.chance(.2)) std::this_thread::yield();
				std::fill(mine.begin(), mine.end(), -1.);
				int const m = sut.shRun(objs, mine.data(), MAX);
				if (m != n) badAt = 0;
				for (int j = 0; j < n && badAt < 0; ++j)
					if (std::memcmp(&mine[j], &base[j], 8) != 0 && !(mine[j] != mine[j] && base[j] != base[j])) badAt = j;
			}
		});
	for (auto & t : th) t.join();
	sut.shFree(objs);
	threadRounds += rounds; threadCalls += (unsigned long)nThr * rounds;
	if (badAt >= 0) { x.viol("with %d threads result %d of the battery differs from the single threaded one", nThr, badAt.load()); return false; }
	return true;
}

static void purity()
{
	// same call before and after other work
	scen("C21", "call again", {}, Dom{}, [](Case const & c, Ctx & x) {
		Rng r(c.seed);
		int const wild = r.chance(.3);
		uint64_t const id = r.u64();
		Call const k = makeCall(id, wild);
		Res first, again;
		doCall(k, first);
		std::string how = "at once";
		int const mode = r.below(5);
		if (mode == 1) { for (int i = r.below(40); i > 0; --i) { Res z; doCall(makeCall(r.u64(), wild), z); } how = "after other calls"; }
		if (mode == 2) // near-identical arguments in between
		{
			for (int i = r.range(1, 6); i > 0; --i)
			{
				Call n = k;
				int const m = r.below(3);
				if (m < 2) n.a.c[r.below(nComp(n.a.t))] = m ? r.sym() : -n.a.c[0];
				else if (n.b.t != ERR && nComp(n.b.t)) n.b.c[r.below(nComp(n.b.t))] = r.sym();
				Res z; doCall(n, z);
			}
			how = "after similar calls";
		}
		if (mode == 3) { Res z; for (int i = r.range(2, 300); i > 0; --i) doCall(k, z); how = "after many repetitions"; }
		if (mode == 4) { std::thread([&] { doCall(k, again); }).join(); how = "from another thread"; }
		if (mode != 4) doCall(k, again);
		if (!sameRes(first, again)) OPV("%s gives %s and %s %s", callName(k).c_str(), showRes(first).c_str(), how.c_str(), showRes(again).c_str());
		return true;
	}, 1.);
	special("C21", "long history", [](Ctx & x, Rng & r) {
		unsigned const n = underValgrind ? 500 : slow ? 15000 : 60000;
		uint64_t const seed = r.u64();
		std::vector<Res> res(n);
		std::vector<uint32_t> ord(n);
		for (unsigned i = 0; i < n; ++i) { ord[i] = i; doCall(makeCall(callId(seed, i), 1), res[i]); }
		for (int pass = 0; pass < 3 && !x.bad(); ++pass)
		{
			for (size_t i = n; i > 1; --i) std::swap(ord[i - 1], ord[r.below((uint32_t)i)]);
			for (unsigned i : ord)
			{
				Call const c = makeCall(callId(seed, i), 1);
				Res z;
				doCall(c, z);
				if (!sameRes(z, res[i])) { x.viol("%s gave %s, later %s", callName(c).c_str(), showRes(res[i]).c_str(), showRes(z).c_str()); break; }
			}
		}
		// the same in threads, each in its own order
		std::atomic<int> bad{ -1 };
		std::vector<std::thread> th;
		for (int k = 0; k < 8; ++k)
			th.emplace_back([&, k] {
				Rng q(seed + k);
				for (unsigned i = 0; i < n && bad < 0; ++i)
				{
					uint32_t const j = q.below(n);
					Res z;
					doCall(makeCall(callId(seed, j), 1), z);
					if (!sameRes(z, res[j])) bad = (int)j;
				}
			});
		for (auto & t : th) t.join();
		if (bad >= 0) x.viol("%s gives another result in a thread", callName(makeCall(callId(seed, bad), 1)).c_str());
	});
	special("C21", "repetition", [](Ctx & x, Rng & r) {
		unsigned const nOp = underValgrind ? 20 : slow ? 4200 : 66000, nOther = underValgrind ? 5 : slow ? 300 : 4200;
		auto const & ops = allOps();
		for (size_t i = 0; i < ops.size() + 40 && !x.bad(); ++i)
		{
			Call const k = i < ops.size() ? callOf(r, i, 0) : callOf(r, ops.size() + 1 + r.below(13), 0);
			Res first, again;
			doCall(k, first);
			for (unsigned j = k.kind ? nOther : nOp; j > 0; --j)
			{
				doCall(k, again);
				if (!sameRes(first, again)) { x.viol("%s gives %s, repeated %s", callName(k).c_str(), showRes(first).c_str(), showRes(again).c_str()); break; }
			}
		}
	});
	// each cheap call for as long as a counter of twenty bits takes to wrap, in
	// threads that share the operations out among them
	special("C21", "long repetition", [](Ctx & x, Rng & r) {
		if (underValgrind) return;
		unsigned const n = slow ? 20000 : 1100000;
		auto const & ops = allOps();
		std::vector<Call> calls;
		for (size_t i = 0; i < ops.size(); ++i) calls.push_back(callOf(r, i, 0));
		for (int k = 1; k <= 4; ++k) for (int j = 0; j < 12; ++j) calls.push_back(callOf(r, ops.size() + k, 0));
		std::atomic<unsigned> next{ 0 };
		std::mutex m;
		std::string what;
		std::vector<std::thread> th;
		for (int t = 0; t < 8; ++t)
			th.emplace_back([&] {
				for (unsigned i; (i = next++) < calls.size();)
				{
					Call const & k = calls[i];
					Res first, again;
					doCall(k, first);
					for (unsigned j = 0; j < n; ++j)
					{
						doCall(k, again);
						if (sameRes(first, again)) continue;
						std::lock_guard<std::mutex> const l(m);
						what = callName(k) + " gives " + showRes(first) + ", after " + std::to_string(j + 1) + " calls " + showRes(again);
						break;
					}
				}
			});
		for (auto & t : th) t.join();
		if (!what.empty()) x.viol("%s", what.c_str());
	});
	scen("C21", "as before main", {}, Dom{}, [](Case const & c, Ctx & x) {
		Rng r(c.seed);
		for (int i = r.below(20); i > 0; --i) { Res z; doCall(makeCall(r.u64(), 1), z); }
		int const k = (int)r.below(5), d = sut.lifeDiffers(k);
		++counters.calls;
		if (d == -2) OPV("harness: no battery %d", k);
		if (d >= 0) OPV("result %d of battery %d is not what it was during static initialisation", d, k);
		return true;
	}, .004);
	scen("C21", "shared operands", {}, Dom{}, [](Case const & c, Ctx & x) {
		Rng r(c.seed);
		batteryAllThreads(r.u64(), r.range(2, 16), slow ? 3 : 6, x);
		return true;
	}, .004);
}

//
// C22
//
namespace {
struct Watch
{
	int fd[2]{ -1, -1 };
	unsigned mx{ 0 };
	unsigned short fcw{ 0 };
	std::string loc;
	std::locale glob;
	struct S { std::ios * s; std::ios::fmtflags f; std::streamsize p, w; char fill; std::ios::iostate st, ex; std::streambuf * buf; std::ostream * tie; };
	std::vector<S> st;
	static unsigned short x87() { unsigned short w; __asm__ volatile("fnstcw %0" : "=m"(w)); return w; }
	void start()
	{
		for (int i = 0; i < 2; ++i)
		{
			int const m = memfd_create("out", 0);
			dup2(m, i + 1);
			fd[i] = i + 1;
			close(m);
		}
		mx = _mm_getcsr() & ~0x3fu; fcw = x87();
		// not the locales a program starts with, so that going back to those is seen
		struct Own : std::numpunct<char> { string_type do_truename() const override { return "yes"; } };
		setlocale(LC_ALL, "C.UTF-8");
		loc = setlocale(LC_ALL, nullptr);
		std::locale::global(std::locale(std::locale::classic(), new Own));
		glob = std::locale();
		for (std::ios * s : { (std::ios *)&std::cout, (std::ios *)&std::cerr, (std::ios *)&std::clog, (std::ios *)&std::cin })
			st.push_back({ s, s->flags(), s->precision(), s->width(), s->fill(), s->rdstate(), s->exceptions(), s->rdbuf(), s->tie() });
	}
	std::string look()
	{
		std::cout.flush(); std::clog.flush(); fflush(stdout); fflush(stderr);
		for (int i = 0; i < 2; ++i)
		{
			struct stat sb;
			fstat(fd[i], &sb);
			if (sb.st_size > 0)
			{
				char b[200]{};
				ssize_t const g = pread(fd[i], b, sizeof b - 1, 0);
				if (ftruncate(fd[i], 0) != 0 || lseek(fd[i], 0, SEEK_SET) != 0 || g < 0) return "harness: memfd";
				return std::string("wrote to standard ") + (i ? "error" : "output") + ": \"" + b + "\"";
			}
		}
		if ((_mm_getcsr() & ~0x3fu) != mx || x87() != fcw) { _mm_setcsr(mx); fesetround(FE_TONEAREST); return "changed the floating point control state"; }
		if (fegetround() != FE_TONEAREST) { fesetround(FE_TONEAREST); return "changed the rounding mode"; }
		if (loc != setlocale(LC_ALL, nullptr)) { setlocale(LC_ALL, loc.c_str()); return "changed the C locale"; }
		if (!(std::locale() == glob)) { std::locale::global(glob); return "changed the global locale"; }
		for (auto & s : st)
			if (s.s->flags() != s.f || s.s->precision() != s.p || s.s->width() != s.w || s.s->fill() != s.fill || s.s->rdstate() != s.st
				|| s.s->exceptions() != s.ex || s.s->rdbuf() != s.buf || s.s->tie() != s.tie)
			{
				s.s->flags(s.f); s.s->precision(s.p); s.s->width(s.w); s.s->fill(s.fill); s.s->exceptions(s.ex); s.s->rdbuf(s.buf); s.s->tie(s.tie); s.s->clear(s.st);
				return "changed the state of a standard stream";
			}
		return "";
	}
};
Watch watch;
}
// The rest of the process: files, environment, handlers, shared generators.
// Looked at now and then; the calls since the last look are then run again
// one by one to find the one to blame.
namespace {
struct Outside
{
	struct St { bool sync{ true }; unsigned long wchar{ 0 }, syscw{ 0 }; unsigned fds{ 0 }; uint64_t env{ 0 }, sig{ 0 }; mode_t mask{ 0 }; std::string cwd; int rnd{ 0 }; };
	St was;
	std::vector<Call> since;
	bool firstLook{ true };
	static uint64_t mix(uint64_t h, void const * p, size_t n)
	{
		for (size_t i = 0; i < n; ++i) h = (h ^ static_cast<unsigned char const *>(p)[i]) * 1099511628211ull;
		return h;
	}
	static St now(bool first)
	{
		St s;
		static int const io = open("/proc/self/io", O_RDONLY | O_CLOEXEC);
		char b[512];
		ssize_t const g = io < 0 ? -1 : pread(io, b, sizeof b - 1, 0);
		if (g > 0)
		{
			b[g] = 0;
			if (char const * q = strstr(b, "wchar: ")) s.wchar = strtoul(q + 7, nullptr, 10);
			if (char const * q = strstr(b, "syscw: ")) s.syscw = strtoul(q + 7, nullptr, 10);
		}
		for (int f = 0; f < 64; ++f) if (fcntl(f, F_GETFD) >= 0) ++s.fds;
		s.env = 1469598103934665603ull;
		for (char ** e = environ; *e; ++e) s.env = mix(s.env, *e, strlen(*e) + 1);
		s.sig = 1469598103934665603ull;
		for (int k = 1; k < 32; ++k) { struct sigaction sa{}; sigaction(k, nullptr, &sa); void (*h)(int) = sa.sa_handler; s.sig = mix(s.sig, &h, sizeof h); }
		auto const th = std::get_terminate(); s.sig = mix(s.sig, &th, sizeof th);
		auto const nh = std::get_new_handler(); s.sig = mix(s.sig, &nh, sizeof nh);
		s.mask = umask(0); umask(s.mask);
		if (char * d = getcwd(b, sizeof b)) s.cwd = d;
		s.sync = std::ios_base::sync_with_stdio(true);
		if (first) srand(12345);
		s.rnd = rand();
		srand(12345);
		return s;
	}
	static std::string diff(St const & a, St const & b)
	{
		if (a.wchar != b.wchar || a.syscw != b.syscw) return "wrote to a file or socket";
		if (a.fds != b.fds) return "opened or closed a file";
		if (a.env != b.env) return "changed the environment";
		if (a.sig != b.sig) return "changed a signal, terminate or new handler";
		if (a.mask != b.mask || a.cwd != b.cwd) return "changed the working directory or umask";
		if (a.sync != b.sync) return "called sync_with_stdio";
		if (a.rnd != b.rnd) return "drew from or seeded std::rand";
		return "";
	}
	// after each call
	std::string look(Call const & c)
	{
		since.push_back(c);
		if (since.size() < 300) return "";
		St const s = now(false);
		// a sanitizer's runtime does things of its own the first time
		if (slow && firstLook) { was.wchar = s.wchar; was.syscw = s.syscw; was.fds = s.fds; }
		firstLook = false;
		std::string d = diff(was, s);
		if (d.empty()) { since.clear(); return ""; }
		St last = now(false);
		std::vector<Call> calls;
		calls.swap(since);
		std::string who = " (in one of 300 calls)";
		for (Call const & k : calls)
		{
			Res z;
			try { doCall(k, z); } catch (...) {}
			St const t = now(false);
			std::string const e = diff(last, t);
			last = t;
			if (!e.empty()) { d = e; who = " (" + callName(k) + ")"; break; }
		}
		was = now(false);
		return d + who;
	}
};
Outside outside;
}
// looks at what was written while everything else was being destroyed
namespace {
int ownErr = -1;
struct AtEnd
{
	AtEnd() {}
	~AtEnd()
	{
		if (ownErr < 0) return;
		fflush(stdout); fflush(stderr);
		for (int i = 1; i < 3; ++i)
		{
			struct stat sb;
			char b[200]{};
			if (fstat(i, &sb) != 0 || sb.st_size <= 0 || pread(i, b, sizeof b - 1, 0) < 0) continue;
			dprintf(ownErr, "written to standard %s after main: \"%s\"\n", i == 1 ? "output" : "error", b);
			_exit(79);
		}
	}
};
__attribute__((init_priority(101))) AtEnd atEnd;
}
void watchStart() { ownErr = dup(2); watch.start(); outside.was = Outside::now(true); }
// what the process is like when main begins, before anything of the library was called
static std::string startState;
void lookAtStart()
{
	std::string & s = startState;
	int const first = rand();
	srand(1);
	if (rand() != first) s += "std::rand has been used or seeded; ";
	srand(1);
	if ((_mm_getcsr() & ~0x3fu) != 0x1f80u || Watch::x87() != 0x37f || fegetround() != FE_TONEAREST) s += "floating point control is not the default; ";
	if (strcmp(setlocale(LC_ALL, nullptr), "C") != 0 || uselocale((locale_t)0) != LC_GLOBAL_LOCALE) s += "the C locale is set; ";
	if (std::locale() != std::locale::classic()) s += "the global locale is not the classic one; ";
	if (std::cin.tie() != &std::cout || std::cerr.tie() != &std::cout || std::cout.tie() || std::clog.tie()) s += "standard streams are tied in another way; ";
	std::ostringstream plain;
	for (std::ios * p : { (std::ios *)&std::cout, (std::ios *)&std::cerr, (std::ios *)&std::clog, (std::ios *)&std::cin })
	{
		if (p->flags() != (p == &std::cerr ? plain.flags() | std::ios::unitbuf : plain.flags()) || p->precision() != 6 || p->width() != 0 || p->fill() != ' '
			|| p->exceptions() != std::ios::goodbit || !p->good() || !p->rdbuf() || p->getloc() != std::locale::classic()) s += "a standard stream is not as usual; ";
	}
	if (!std::ios_base::sync_with_stdio(true)) s += "sync_with_stdio is off; ";
	if (std::get_new_handler()) s += "a new handler is set; ";
	fflush(stdout);
	struct stat sb;
	if (fstat(1, &sb) == 0 && S_ISREG(sb.st_mode) && lseek(1, 0, SEEK_CUR) > 0) s += "something was written to standard output or error; ";
}
// Heap blocks still held after a call. A call may set something up for good
// the first time (the standard library does), so one that keeps blocks is
// repeated; and all calls together may keep only a few.
namespace {
long keptInAll = 0;
struct Kept
{
	std::function<void()> again;
	long before;
	explicit Kept(std::function<void()> f) : again(std::move(f)), before(sut.live ? sut.live() : 0) {}
	std::string look()
	{
		if (!sut.live) return "";
		long const d = sut.live() - before;
		if (d <= 0) return "";
		keptInAll += d;
		int n = 0;
		for (; n < 4; ++n)
		{
			long const b = sut.live();
			again();
			if (sut.live() <= b) break;
		}
		if (n == 4) return "keeps heap memory every time";
		if (keptInAll > 400) { keptInAll = -1000000; return "and earlier calls together keep more than 400 heap blocks"; }
		return "";
	}
};
}
static void effects()
{
	special("C22", "before main", [](Ctx & x, Rng &) { if (!startState.empty()) x.viol("when main begins %s", startState.c_str()); });
	scen("C22", "any call", {}, Dom{}, [](Case const & c, Ctx & x) {
		Rng r(c.seed);
		Call const k = makeCall(r.u64(), r.below(3));
		Res z;
		Kept kept([&] { doCall(k, z); });
		try { doCall(k, z); }
		catch (std::exception const & e) { OPV("%s threw %s", callName(k).c_str(), e.what()); }
		catch (...) { OPV("%s threw", callName(k).c_str()); }
		std::string w = watch.look() + kept.look();
		if (!w.empty()) OPV("%s %s", callName(k).c_str(), w.c_str());
		w = outside.look(k);
		if (!w.empty()) OPV("some call %s", w.c_str());
		return true;
	}, 3.);
	// the caller's own rounding mode and subnormal handling
	scen("C22", "floating point control", {}, Dom{}, [](Case const & c, Ctx & x) {
		Rng r(c.seed);
		auto const & ops = allOps();
		Call const k = r.chance(.6) ? callOf(r, r.below((uint32_t)ops.size()), r.below(2)) : makeCall(r.u64(), r.below(3));
		static int const modes[]{ FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO, FE_TONEAREST };
		unsigned const was = _mm_getcsr();
		int const m = modes[r.below(4)];
		fesetround(m);
		if (r.chance(.5)) _mm_setcsr(_mm_getcsr() | 0x8040u); // subnormals count as zero
		Res z;
		if (r.chance(.6))
		{
			// a caller that traps some of the exceptions, none of which this call raises
			static int const kinds[]{ FE_DIVBYZERO, FE_OVERFLOW, FE_INVALID }; // (underflow traps exact results too)
			feclearexcept(FE_ALL_EXCEPT);
			doCall(k, z);
			int const raised = fetestexcept(FE_ALL_EXCEPT);
			feclearexcept(FE_ALL_EXCEPT);
			int trap = 0;
			for (int e : kinds) if (!(raised & e) && r.chance(.7)) trap |= e;
			feenableexcept(trap);
		}
		unsigned const set = _mm_getcsr() & ~0x3fu;
		unsigned short const cw = Watch::x87();
		doCall(k, z);
		unsigned const now = _mm_getcsr() & ~0x3fu;
		unsigned short const cwNow = Watch::x87();
		fedisableexcept(FE_ALL_EXCEPT);
		fesetround(FE_TONEAREST);
		_mm_setcsr(was);
		if (now != set || cwNow != cw) OPV("%s changed the caller's floating point control state from %04x,%04x to %04x,%04x", callName(k).c_str(), set, cw, now, cwNow);
		std::string const w = watch.look();
		if (!w.empty()) OPV("%s %s", callName(k).c_str(), w.c_str());
		return true;
	}, 1.);
	// special values in special places of each operation
	for (OpRef const & o : allOps())
	{
		std::vector<int> tags{ o.in[0] };
		if (o.n == 2) tags.push_back(o.in[1]);
		OpRef const * p = &o;
		scen("C22", o.name, tags, Dom{ 1e-300, 1e300, true }, [p](Case const & c, Ctx & x) {
			auto const call = [&] { Val r[2]; if (p->n == 1) p->f1(&c.a[0], r); else p->f2(c.p0(), c.p1(), r); };
			Kept kept(call);
			try
			{
				++counters.calls;
				call();
			}
			catch (...) { OPV("threw"); }
			std::string const w = watch.look() + kept.look();
			if (!w.empty()) OPV("%s", w.c_str());
			return true;
		}, .01);
	}
	for (char const * p : { "C22", "C23" }) special(p, "memory", [](Ctx & x, Rng & r) {
		size_t const n = allOps().size() + 14;
		unsigned const per = underValgrind ? 30 : 160;
		for (size_t i = 0; i < n && !x.bad(); ++i)
		{
			std::vector<Call> calls;
			for (unsigned k = 0; k < per; ++k) calls.push_back(callOf(r, i, 1));
			Res z;
			for (unsigned k = 0; k < per; ++k) doCall(calls[k], z);
			auto used = [] { return sut.live ? (size_t)sut.live() : 0; };
			// different calls every time ...
			size_t d[5], m[5];
			for (size_t & w : d)
			{
				for (unsigned k = 0; k < per; ++k) doCall(callOf(r, i, 1), z);
				w = used();
			}
			// ... and the same calls again and again
			for (size_t & w : m)
			{
				for (unsigned k = 0; k < per; ++k) doCall(calls[k], z);
				w = used();
			}
			auto grows = [](size_t const * v) { return v[1] > v[0] && v[2] > v[1] && v[3] > v[2] && v[4] > v[3]; };
			if (grows(m)) x.viol("%zu heap blocks retained by %u calls like %s", m[4] - m[3], per, callName(calls[0]).c_str());
			if (grows(d)) x.viol("%zu heap blocks retained by %u different calls like %s", d[4] - d[3], per, callName(calls[0]).c_str());
		}
	});
}

//
// C23
//
__attribute__((noinline)) static void scribble(int byte)
{
	volatile char b[6000];
	for (volatile char & ch : b) ch = (char)byte;
}
static void wild()
{
	scen("C23", "any call, any bits", {}, Dom{}, [](Case const & c, Ctx & x) {
		Rng r(c.seed);
		Call const k = makeCall(r.u64(), r.range(0, 5));
		Res p, q;
		Kept kept([&] { doCall(k, q); });
		scribble(0x5a);
		doCall(k, p);
		std::string const w = kept.look();
		if (!w.empty()) OPV("%s %s", callName(k).c_str(), w.c_str());
		scribble(0xa5);
		doCall(k, q);
		if (!sameRes(p, q)) OPV("%s gives %s, then with other stack contents %s", callName(k).c_str(), showRes(p).c_str(), showRes(q).c_str());
		return true;
	}, 3.);
	for (OpRef const & o : allOps())
	{
		std::vector<int> tags{ o.in[0] };
		if (o.n == 2) tags.push_back(o.in[1]);
		OpRef const * p = &o;
		scen("C23", o.name, tags, Dom{ 5e-324, 1.7976931348623157e308, true }, [p](Case const & c, Ctx & x) {
			Val r[2], s[2];
			counters.calls += 2;
			Kept kept([&] { if (p->n == 1) p->f1(&c.a[0], s); else p->f2(c.p0(), c.p1(), s); });
			scribble(0x5a);
			if (p->n == 1) p->f1(&c.a[0], r); else p->f2(c.p0(), c.p1(), r);
			std::string const w = kept.look();
			if (!w.empty()) OPV("%s", w.c_str());
			scribble(0xa5);
			if (p->n == 1) p->f1(&c.a[0], s); else p->f2(c.p0(), c.p1(), s);
			checkDefined(r[0].c, 8 * nComp(r[0].t), "result");
			if (!sameBits(r[0], s[0]) || (p->kind == "pairMagDirFrom" && !sameBits(r[1], s[1])))
				OPV("result %s, then with other stack contents %s", show(r[0]).c_str(), show(s[0]).c_str());
			return true;
		}, .01);
	}
	special("C23", "shared battery", [](Ctx & x, Rng & r) { for (int i = 0; i < 3 && !x.bad(); ++i) batteryAllThreads(r.u64(), underValgrind ? 1 : 2, 1, x); });
}
void regSys() { purity(); effects(); wild(); }
