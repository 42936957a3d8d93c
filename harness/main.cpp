// Workload driver. One process = one property, one build variant, one seed.
#include "engine.hpp"
#include "sys.hpp"
#include "trace.hpp"
#include <algorithm>
#include <cfenv>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <csignal>
#include <fcntl.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <valgrind/valgrind.h>

bool slow = false;
namespace {
struct Args
{
	std::string prop, mode{ "random" }, out, replay, dictFile, cur, decode, bloom;
	unsigned perm{ 0 };
	uint64_t seed{ 1 };
	unsigned long cases{ 10000 };
	bool quiet{ false };
} args;

struct Stat { unsigned long ran{ 0 }, skipped{ 0 }, viol{ 0 }; };
std::vector<Stat> stats;
struct Viol { std::string scen, detail, casetxt, rerun; };
struct Named { unsigned long n{ 0 }; Viol v; };
std::map<std::string, Named> named;
std::vector<Viol> viols;
unsigned long violCount = 0;
std::vector<uint64_t> bloom(1u << 21); // 2^27 bits
unsigned long nontrivial = 0, evals = 0;
std::vector<std::string> samples;

uint64_t hashCase(Case const & c)
{
	uint64_t h = 0x243F6A8885A308D3ull + c.s->idx * 0x9E3779B97F4A7C15ull + c.alias;
	auto mix = [&](uint64_t x) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
	for (int i = 0; i < c.n; ++i) for (int k = 0; k < nComp(c.a[i].t); ++k) { uint64_t b; std::memcpy(&b, &c.a[i].c[k], 8); mix(b); }
	mix(c.seed);
	return h;
}
std::string replayText(Case const & c)
{
	std::ostringstream o;
	o << c.s->name << '\n' << c.seed << ' ' << c.alias << '\n' << std::hex;
	for (int i = 0; i < c.n; ++i)
	{
		for (int k = 0; k < 8; ++k) { uint64_t b; std::memcpy(&b, &c.a[i].c[k], 8); o << b << ' '; }
		o << '\n';
	}
	return o.str();
}
std::map<std::string, int> perScenViol;

// the case being executed, in a file that survives a crash of this process
struct Cur { char magic[8]; int hang; int scen; Case c; char special[64]; };
Cur * cur = nullptr;
volatile bool inCase = false;
void openCur(std::string const & file)
{
	int const fd = open(file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
	if (fd < 0 || ftruncate(fd, sizeof(Cur)) != 0) return;
	void * const p = mmap(nullptr, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	close(fd);
	if (p == MAP_FAILED) return;
	cur = static_cast<Cur *>(p);
	cur->scen = -1;
	std::memcpy(cur->magic, "curcase", 8);
}
unsigned long lastTick = ~0ul;
int specialTicks = 0;
void onTick(int)
{
	if (cur && cur->special[0]) { if (++specialTicks > 15) { cur->hang = 1; _exit(77); } return; }
	specialTicks = 0;
	if (inCase && lastTick == evals) { if (cur) cur->hang = 1; _exit(77); }
	lastTick = evals;
}

// returns 0 skip, 1 ok, 2 violation
int execute(Case const & c)
{
	Ctx x;
	if (cur) { cur->c = c; cur->scen = c.s->idx; }
	inCase = true;
	bool const inDomain = c.s->run(c, x);
	inCase = false;
	++evals;
	Stat & st = stats[c.s->idx];
	for (auto & k : x.named)
	{
		Named & d = named[k.first];
		if (d.n++ == 0) d.v = { c.s->name, k.second, showCase(c), replayText(c) };
	}
	if (x.bad())
	{
		++st.viol; ++violCount;
		if (perScenViol[c.s->name]++ < 3 && viols.size() < 40)
			viols.push_back({ c.s->name, x.fail, showCase(c), replayText(c) });
		return 2;
	}
	if (!inDomain) { ++st.skipped; return 0; }
	++st.ran;
	bool nz = c.n == 0;
	for (int i = 0; i < c.n && !nz; ++i) for (int k = 0; k < nComp(c.a[i].t); ++k) if (c.a[i].c[k] != 0.) nz = true;
	if (nz)
	{
		uint64_t const h = hashCase(c);
		uint64_t & w = bloom[(h >> 6) & ((1u << 21) - 1)];
		uint64_t const bit = 1ull << (h & 63);
		if (!(w & bit)) { w |= bit; ++nontrivial; }
	}
	return 1;
}
Case generate(Scen const & s, Rng & r)
{
	Case c;
	c.s = &s;
	c.n = (int)s.tags.size();
	for (int i = 0; i < c.n; ++i) c.a[i] = entity(r, s.tags[i], s.dom);
	c.seed = r.u64() >> 1;
	relate(r, c, s.dom);
	if (s.gen) s.gen(c, r);
	return c;
}
void neighbour(Case & c, Rng & r)
{
	Dom const & d = c.s->dom;
	if (c.n == 0) { c.seed = r.u64() >> 1; return; }
	int const i = r.below(c.n);
	Val & v = c.a[i];
	int const n = nComp(v.t);
	auto ok = [&](double x, double old) { return d.has(x) ? x : old; };
	switch (r.below(10))
	{
		case 0: v.c[r.below(n)] = num(r, d); break;
		case 1: { int k = r.below(n); v.c[k] = ok(-v.c[k], v.c[k]); break; }
		case 2: for (int k = 0; k < n; ++k) v.c[k] = ok(-v.c[k], v.c[k]); break;
		case 3: if (c.n > 1 && c.a[0].t == c.a[1].t) std::swap(c.a[0], c.a[1]); break;
		case 4: { int k = r.below(n), l = r.below(n); std::swap(v.c[k], v.c[l]); break; }
		case 5: { double const s = std::ldexp(1., r.range(-3, 3)); for (int k = 0; k < n; ++k) v.c[k] = ok(v.c[k] * s, v.c[k]); break; }
		case 6: { int k = r.below(n); v.c[k] = ok(ulpUp(v.c[k], r.range(-1, 1)), v.c[k]); break; }
		case 7: c.seed = r.u64() >> 1; break;
		case 8: { int k = r.below(n); if (d.zero) v.c[k] = 0.; break; }
		default: break; // the very same case again
	}
	if (c.alias) c.a[1] = c.a[0];
}

std::vector<Scen const *> mine;
std::vector<double> cumw;
Scen const & pick(Rng & r)
{
	double const u = r.uni() * cumw.back();
	return *mine[std::upper_bound(cumw.begin(), cumw.end(), u) - cumw.begin()];
}
void runRandom()
{
	Rng r(args.seed * 1000003 + 17);
	unsigned long n = 0;
	std::vector<Case> recent;
	// every scenario at least a few times, in order
	for (auto * s : mine) for (int k = 0; k < 4 && n < args.cases; ++k, ++n) execute(generate(*s, r));
	while (n < args.cases)
	{
		Case c = generate(pick(r), r);
		execute(c); ++n;
		if (samples.size() < 5 && r.chance(.02)) samples.push_back(showCase(c));
		int k = r.chance(.5) && c.n > 0 ? r.below(4) : 0;
		for (; k > 0 && n < args.cases; --k, ++n) { neighbour(c, r); execute(c); }
		if (recent.size() < 64) recent.push_back(c);
		else
		{
			recent[r.below(64)] = c;
			if (r.chance(.1)) { Case d = recent[r.below(64)]; if (r.chance(.5)) neighbour(d, r); execute(d); ++n; }
		}
		if (violCount > 2000) break;
	}
}

//
// guided search: keep cases that reach a new (site, outcome); push one-sided
// comparisons of the library's own code towards their other outcome
//
struct Site
{
	uint8_t seen{ 0 }; // 1 lt 2 eq 4 gt 8 unordered 16 reached
	uint8_t kind{ 0 };
	double best[2]; // smallest |a-b| seen (0), most recent for lt/gt
	Case bestCase;
	bool haveCase{ false };
	uint32_t tries{ 0 };
	double lastA{ 0 }, lastB{ 0 };
};
std::unordered_map<uint64_t, Site> sites;
std::unordered_set<uint64_t> constSites;
unsigned long traceEvents = 0;

uint8_t outcome(TraceEv const & e)
{
	if (e.kind == 0) return 16;
	if (e.a < e.b) return 1;
	if (e.a == e.b) return 2;
	if (e.a > e.b) return 4;
	return 8;
}
// runs a case traced; returns number of new site outcomes
int traced(Case const & c)
{
	traceN = 0;
	traceOn = true;
	int const res = execute(c);
	traceOn = false;
	traceEvents += traceN;
	int fresh = 0;
	for (unsigned i = 0; i < traceN; ++i)
	{
		TraceEv const & e = traceEv[i];
		uint64_t const key = (uint64_t)e.site << 8 | e.kind;
		Site & s = sites[key];
		uint8_t const o = outcome(e);
		if (!(s.seen & o)) { s.seen |= o; ++fresh; }
		s.kind = e.kind;
		if (e.kind && res != 0)
		{
			double const d = std::fabs(e.a - e.b);
			if (!s.haveCase || d < s.best[0]) { s.haveCase = true; s.best[0] = d; s.bestCase = c; s.lastA = e.a; s.lastB = e.b; s.tries /= 2; }
		}
	}
	return res == 0 ? 0 : fresh;
}
bool firstAt(uint64_t key, double & a, double & b)
{
	bool have = false;
	for (unsigned i = 0; i < traceN; ++i)
		if (((uint64_t)traceEv[i].site << 8 | traceEv[i].kind) == key)
		{
			if (!have || std::fabs(traceEv[i].a - traceEv[i].b) < std::fabs(a - b)) { a = traceEv[i].a; b = traceEv[i].b; }
			have = true;
		}
	return have;
}
std::vector<Case> corpus;
void keep(Case const & c, Rng & r)
{
	if (corpus.size() < 4000) corpus.push_back(c);
	else corpus[r.below(4000)] = c;
}
unsigned long flipsTried = 0, flipsDone = 0;
void pursue(uint64_t key, Rng & r, unsigned long & n)
{
	Site & s0 = sites[key];
	++flipsTried;
	uint8_t const before = s0.seen;
	Case c = s0.bestCase;
	double A = s0.lastA, B = s0.lastB;
	if (c.n == 0) { s0.tries += 10; return; }
	auto tryCase = [&](Case & t) {
		if (t.alias) t.a[1] = t.a[0];
		++n;
		if (traced(t)) keep(t, r);
	};
	// 1. substitute the compared values (and simple transforms) for components
	for (int i = 0; i < c.n; ++i) for (int k = 0; k < nComp(c.a[i].t); ++k)
	{
		double const x = c.a[i].c[k];
		double const vals[]{ B, A, -B, -A, x + (B - A), x - (B - A), std::sqrt(std::fabs(B)), B + 1, B - 1, 2 * B };
		for (double v : vals)
		{
			if (v == x || !std::isfinite(v)) continue;
			Case t = c;
			t.a[i].c[k] = v;
			tryCase(t);
			if (sites[key].seen != before) { ++flipsDone; return; }
		}
	}
	// 2. coordinate secant towards a == b and beyond, repeated
	for (int round = 0; round < 3; ++round)
	{
		c = sites[key].bestCase;
		for (int i = 0; i < c.n; ++i) for (int k = 0; k < nComp(c.a[i].t); ++k)
		{
			double const x = c.a[i].c[k];
			double const h = (x != 0. ? std::fabs(x) : 1.) * (r.chance(.5) ? 1e-3 : 1e-6) * r.sgn();
			Case t = c;
			t.a[i].c[k] = x + h;
			tryCase(t);
			double a1 = 0, b1 = 0;
			if (sites[key].seen != before) { ++flipsDone; return; }
			if (!firstAt(key, a1, b1)) continue;
			double const d0 = A - B, d1 = a1 - b1;
			if (d1 == d0 || !std::isfinite(d0) || !std::isfinite(d1)) continue;
			double const step = -d0 * h / (d1 - d0);
			for (double f : { 1., 1.01, 2., 0.5, 10., 0.1 })
			{
				Case u = c;
				u.a[i].c[k] = x + f * step;
				if (!std::isfinite(u.a[i].c[k])) continue;
				tryCase(u);
				if (sites[key].seen != before) { ++flipsDone; return; }
			}
		}
		// scale whole arguments
		for (int i = 0; i < c.n; ++i) for (double f : { 10., .1, 1e3, 1e-3, 2., .5, 1e6, 1e-6 })
		{
			Case t = c;
			for (int k = 0; k < nComp(t.a[i].t); ++k) t.a[i].c[k] *= f;
			tryCase(t);
			if (sites[key].seen != before) { ++flipsDone; return; }
		}
		A = sites[key].lastA; B = sites[key].lastB;
	}
	sites[key].tries += 1;
}
void runGuided()
{
	Rng r(args.seed * 7919 + 5);
	unsigned long n = 0;
	for (auto * s : mine) for (int k = 0; k < 20; ++k, ++n) { Case c = generate(*s, r); if (traced(c)) keep(c, r); }
	while (n < args.cases && violCount < 2000)
	{
		// explore
		for (int k = 0; k < 300 && n < args.cases; ++k, ++n)
		{
			Case c;
			if (!corpus.empty() && r.chance(.4))
			{
				c = corpus[r.below((uint32_t)corpus.size())];
				for (int m = 1 + r.below(3); m > 0; --m) neighbour(c, r);
			}
			else c = generate(pick(r), r);
			if (traced(c)) keep(c, r);
			if (samples.size() < 5 && r.chance(.01)) samples.push_back(showCase(c));
		}
		// pursue one-sided comparisons
		std::vector<uint64_t> open;
		for (auto & kv : sites)
		{
			Site const & s = kv.second;
			if (!s.kind || !s.haveCase) continue;
			int const sides = !!(s.seen & 1) + !!(s.seen & 2) + !!(s.seen & 4);
			if (sides < 3 && s.tries < 6) open.push_back(kv.first);
		}
		std::sort(open.begin(), open.end());
		for (size_t i = open.size(); i > 1; --i) std::swap(open[i - 1], open[r.below((uint32_t)i)]);
		std::stable_sort(open.begin(), open.end(), [](uint64_t p, uint64_t q) { return sites[p].tries < sites[q].tries; });
		for (size_t i = 0; i < open.size() && i < 6 && n < args.cases; ++i) pursue(open[i], r, n);
	}
}
int runReplay()
{
	std::ifstream in(args.replay);
	std::string name;
	std::getline(in, name);
	for (auto & sp : specials)
		if (sp.name == name)
		{
			Ctx x; Rng r(args.seed);
			sp.run(x, r);
			printf("%s: %s\n", name.c_str(), x.bad() ? x.fail.c_str() : "ok");
			return x.bad();
		}
	for (auto & s : scens)
		if (s.name == name)
		{
			Case c;
			c.s = &s; c.n = (int)s.tags.size();
			in >> c.seed >> c.alias >> std::hex;
			for (int i = 0; i < c.n; ++i) { c.a[i].t = (Tag)s.tags[i]; for (int k = 0; k < 8; ++k) { uint64_t b; in >> b; std::memcpy(&c.a[i].c[k], &b, 8); } }
			Ctx x;
			bool const d = s.run(c, x);
			for (auto & k : x.named) printf("%s: %s\n", k.first.c_str(), k.second.c_str());
			printf("%s\n%s\n", showCase(c).c_str(), x.bad() ? x.fail.c_str() : x.named.size() ? "see above" : d ? "ok" : "out of domain");
			return x.bad() || x.named.size();
		}
	printf("no scenario '%s'\n", name.c_str());
	return 3;
}
int runDecode()
{
	std::ifstream in(args.decode, std::ios::binary);
	Cur k;
	in.read(reinterpret_cast<char *>(&k), sizeof k);
	if (!in || std::memcmp(k.magic, "curcase", 8) != 0) return 3;
	if (k.special[0]) { printf("%s\n", k.special); fprintf(stderr, "%s%s\n", k.hang ? "(did not return) " : "", k.special); return 0; }
	if (k.scen < 0 || k.scen >= (int)scens.size()) return 3;
	k.c.s = &scens[k.scen];
	fputs(replayText(k.c).c_str(), stdout);
	fprintf(stderr, "%s%s\n", k.hang ? "(did not return) " : "", showCase(k.c).c_str());
	return 0;
}
std::string js(std::string const & s)
{
	std::string o = "\"";
	for (unsigned char ch : s)
	{
		if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
		else if (ch == '\n') o += "\\n";
		else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
		else o += (char)ch;
	}
	return o + "\"";
}
} // anon

int main(int argc, char ** argv)
{
	lookAtStart();
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string const k = argv[i], v = argv[i + 1];
		if (k == "--prop") args.prop = v;
		else if (k == "--mode") args.mode = v;
		else if (k == "--out") args.out = v;
		else if (k == "--replay") args.replay = v;
		else if (k == "--cur") args.cur = v;
		else if (k == "--bloom") args.bloom = v;
		else if (k == "--decode") args.decode = v;
		else if (k == "--slow") slow = v != "0";
		else if (k == "--perm") args.perm = (unsigned)std::strtoul(v.c_str(), nullptr, 10);
		else if (k == "--dict") args.dictFile = v;
		else if (k == "--seed") args.seed = std::strtoull(v.c_str(), nullptr, 10);
		else if (k == "--cases") args.cases = std::strtoul(v.c_str(), nullptr, 10);
		else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
	}
	underValgrind = RUNNING_ON_VALGRIND != 0;
	sutFill();
	if (!args.dictFile.empty())
	{
		std::ifstream in(args.dictFile);
		double x;
		while (in >> x) dict.push_back(x);
	}
	if (args.mode == "dump") return runDump(args.seed, args.cases, args.perm, args.out);
	if (args.mode == "cold") return runCold(args.seed, args.cases, args.perm);
	if (args.mode == "dumpname") { printf("%s\n", dumpName(args.seed, args.cases).c_str()); return 0; }
	registerAll();
	if (!args.decode.empty()) return runDecode();
	if (!args.replay.empty()) return runReplay();
	if (!args.cur.empty())
	{
		openCur(args.cur);
		signal(SIGVTALRM, onTick);
		itimerval const tv{ { 20, 0 }, { 20, 0 } };
		setitimer(ITIMER_VIRTUAL, &tv, nullptr);
	}
	bool const all = args.prop == "ALL";
	// without the per-thread cache the heap's accounting is exact
	if (args.prop == "C22" && !getenv("GLIBC_TUNABLES")) { setenv("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0", 1); setenv("VERIF_COLD", "1", 1); execv("/proc/self/exe", argv); }
	if (args.prop == "C22") watchStart();
	stats.resize(scens.size());
	double w = 0.;
	for (auto & s : scens) if (all ? s.prop != "C21" && s.prop != "C22" : s.prop == args.prop) { mine.push_back(&s); cumw.push_back(w += s.weight); }
	int nSpecial = 0;
	std::string specialNames;
	for (auto & sp : specials)
		if (sp.prop == args.prop || (all && sp.prop != "C21" && sp.prop != "C22"))
		{
			++nSpecial;
			specialNames += (specialNames.empty() ? "" : ",") + sp.name;
			Ctx x;
			Rng r(args.seed);
			if (cur) snprintf(cur->special, sizeof cur->special, "%s", sp.name.c_str());
			sp.run(x, r);
			if (cur) cur->special[0] = 0;
			if (x.bad()) { ++violCount; viols.push_back({ sp.name, x.fail, "-", sp.name + "\n" }); }
		}
	if (mine.empty() && !nSpecial) { fprintf(stderr, "nothing registered for %s\n", args.prop.c_str()); return 2; }
	if (!mine.empty())
	{
		if (args.mode == "guided") runGuided(); else runRandom();
	}
	if (sutArgChanged) { ++violCount; viols.push_back({ "arguments", "an argument object was modified by a call", "-", "arguments\n" }); }
	if (undefinedSeen) { ++violCount; viols.push_back({ "definedness", "a result component was computed from uninitialised memory", "-", "definedness\n" }); }
	if (!args.bloom.empty())
	{
		std::ofstream b(args.bloom, std::ios::binary);
		b.write(reinterpret_cast<char const *>(bloom.data()), (std::streamsize)(bloom.size() * 8));
		if (!b) return 2;
	}
	std::ofstream o(args.out);
	o << "{\"prop\":" << js(args.prop) << ",\"mode\":" << js(args.mode) << ",\"seed\":" << args.seed
	  << ",\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << nontrivial
	  << ",\"calls\":" << counters.calls << ",\"foreign\":" << counters.foreign << ",\"violations\":" << violCount << ",\"specials\":" << nSpecial
	  << ",\"special_names\":" << js(specialNames) << ",\"defined_checks\":" << definedChecks << ",\"scenarios\":{";
	bool first = true;
	for (auto * s : mine)
	{
		Stat const & st = stats[s->idx];
		o << (first ? "" : ",") << js(s->name) << ":[" << st.ran << ',' << st.skipped << ',' << st.viol << ']';
		first = false;
	}
	o << "},\"samples\":[";
	first = true;
	for (auto & s : samples) { o << (first ? "" : ",") << js(s); first = false; }
	o << "]";
	if (args.mode == "guided")
	{
		unsigned long cmp = 0, both = 0;
		for (auto & kv : sites) if (kv.second.kind) { ++cmp; if ((kv.second.seen & 5) == 5) ++both; }
		o << ",\"trace\":{\"events\":" << traceEvents << ",\"sites\":" << sites.size() << ",\"comparison_sites\":" << cmp
		  << ",\"both_sides\":" << both << ",\"pursuits\":" << flipsTried << ",\"flips\":" << flipsDone << ",\"corpus\":" << corpus.size() << "}";
	}
	o << ",\"named\":{";
	first = true;
	for (auto & k : named)
	{
		Viol const & v = k.second.v;
		o << (first ? "" : ",") << js(k.first) << ":{\"count\":" << k.second.n << ",\"scen\":" << js(v.scen) << ",\"detail\":" << js(v.detail) << ",\"case\":" << js(v.casetxt) << ",\"replay\":" << js(v.rerun) << "}";
		first = false;
	}
	o << "}";
	o << ",\"viols\":[";
	first = true;
	for (auto & v : viols)
	{
		o << (first ? "" : ",") << "{\"scen\":" << js(v.scen) << ",\"detail\":" << js(v.detail) << ",\"case\":" << js(v.casetxt) << ",\"replay\":" << js(v.rerun) << "}";
		first = false;
	}
	o << "]}\n";
	o.flush();
	if (cur) snprintf(cur->special, sizeof cur->special, "after main"); // static objects go
	return o ? 0 : 2;
}
