// C01..C05: products, sums, programs, involutions, dual.
#include "scen.hpp"

static Dom const any{ 5e-324, 1.7976931348623157e308, true };

// scales the operands by powers of two in opposite directions
static void wideExponents(Case & c, Rng & r)
{
	auto top = [](Val const & v) { int e = -5000; for (int i = 0; i < nComp(v.t); ++i) if (v.c[i] != 0.) e = std::max(e, std::ilogb(v.c[i])); return e; };
	int const e0 = top(c.a[0]), e1 = top(c.a[1]);
	if (e0 < -4000 || e1 < -4000 || r.chance(.1)) return;
	int const want = r.range(-1000, 1000), both = r.range(-1000, 1000);
	auto shift = [](Val & v, int n) { for (int i = 0; i < nComp(v.t); ++i) { double const y = std::ldexp(v.c[i], n); v.c[i] = (y != 0. && std::fabs(y) < 1e-307) || v.c[i] == 0. ? 0. : y; } };
	shift(c.a[0], want - e0);
	if (c.alias) { if (want > 500 || want < -500) shift(c.a[0], -want + want % 500); c.a[1] = c.a[0]; return; }
	shift(c.a[1], std::max(-1010, std::min(1010, both - want)) - e1);
}
static void products()
{
	Dom const d{ 1e-140, 1e140, true };
	for (int t = 0; t < NTAG; ++t) for (int u = 0; u < NTAG; ++u)
	{
		Fn2 const f = sut.mul[t][u];
		if (!f) continue;
		scen("C01", std::string(tagName(t)) + "*" + tagName(u), { t, u }, d, [f](Case const & c, Ctx & x) {
			if (!caseIn(c)) return false;
			Val const r = op(f, *c.p0(), *c.p1());
			Val const & b = c.alias ? c.a[0] : c.a[1];
			Ref<LD> const w = rl(c.a[0]) * rl(b);
			bool const exact = dyadic(c.a[0]) && dyadic(b);
			std::string why;
			if (!near<LD>(r, w, exact ? 0.L : 16.L, 0.L, &why)) OPV("wrong product %s: %s%s", show(r).c_str(), why.c_str(), exact ? " (exact case)" : "");
			return true;
		});
		// the whole range of exponents, as long as every product of two components is a normal number
		scen("C01", std::string(tagName(t)) + "*" + tagName(u) + " wide", { t, u }, Dom{ 1e-307, 1.7e308, true }, [f](Case const & c, Ctx & x) {
			if (!caseIn(c)) return false;
			Val const & b = c.alias ? c.a[0] : c.a[1];
			for (int i = 0; i < nComp(c.a[0].t); ++i) for (int k = 0; k < nComp(b.t); ++k)
			{
				LD const p = fabsl((LD)c.a[0].c[i] * b.c[k]);
				if (p != 0 && !(p >= 1e-305L && p <= 2e307L)) return false;
			}
			Val const r = op(f, *c.p0(), *c.p1());
			std::string why;
			if (!near<LD>(r, rl(c.a[0]) * rl(b), 16.L, 0.L, &why)) OPV("wrong product %s: %s", show(r).c_str(), why.c_str());
			return true;
		}, .25, wideExponents);
	}
}
// 2*x is 2.*x
static void numbers()
{
	for (int t = 0; t < NTAG; ++t) if (sut.mulNum[t])
		scen("C01", std::string("int, float *") + tagName(t), { t }, Dom{ 1e-140, 1e140, true }, [t](Case const & c, Ctx & x) {
			Rng r(c.seed);
			int const i = r.chance(.5) ? r.range(-9, 9) : (int)(r.u64() >> 33) * (r.chance(.5) ? 1 : -1);
			float const f = r.chance(.3) ? (float)i : (float)(r.sym() * std::pow(10., r.range(-30, 30)));
			double const want[]{ (double)i, std::fabs((double)i), (double)i * 65537, (double)(i % 1000), (double)f };
			Val o[10];
			counters.calls += 10;
			sut.mulNum[t](&c.a[0], i, f, o);
			for (int k = 0; k < 10; ++k)
			{
				if (o[k].t == ERR) continue;
				if (o[k].t != t) OPV("product with a built-in number has another type");
				for (int j = 0; j < nComp(t); ++j)
				{
					volatile double const w = want[k / 2] * c.a[0].c[j];
					if (!(std::fabs(o[k].c[j] - w) <= 16 * EPS * std::fabs(w))) OPV("product with the number %.17g (%s, on the %s) has component %d = %.17g, want %.17g", want[k / 2]
						, std::vector<char const *>{ "int", "unsigned", "long long", "short", "float" }[k / 2], k % 2 ? "right" : "left", j, o[k].c[j], w);
				}
			}
			return true;
		});
}
static void sums()
{
	for (int s = 0; s < 2; ++s)
		for (int t = 0; t < NTAG; ++t) for (int u = 0; u < NTAG; ++u)
		{
			Fn2 const f = s ? sut.sub[t][u] : sut.add[t][u];
			if (!f) continue;
			scen("C02", std::string(tagName(t)) + (s ? "-" : "+") + tagName(u), { t, u }, any, [f, s](Case const & c, Ctx & x) {
				if (!caseIn(c)) return false;
				Val const r = op(f, *c.p0(), *c.p1());
				Val const & b = c.alias ? c.a[0] : c.a[1];
				if (s && reversedSub(r, c.a[0], b)) { x.name(reversedKey(c.a[0], b), "x-y is " + show(r) + ", which is y-x"); return true; }
				for (int i = 0; i < 8; ++i)
				{
					volatile double const p = at(c.a[0], i), q = at(b, i);
					volatile double const w = s ? p - q : p + q;
					if (!hasIdx(r.t, i))
					{
						if (hasIdx(c.a[0].t, i) || hasIdx(b.t, i)) OPV("result type %s lacks grade of component %d", tagName(r.t), i);
						continue;
					}
					if (!(at(r, i) == w)) OPV("component %d is %.17g, want %.17g in %s", i, at(r, i), w, show(r).c_str());
				}
				return true;
			});
		}
}

//
// mixed programs
//
namespace {
struct Node { Val v; Ref<LD> r; LD e{ 0 }; int deg{ 1 }; std::string txt; };
char const * const nm[]{ "a", "b", "c", "d", "f", "g" };

bool check(Node const & n, Ctx & x, bool exact)
{
	std::string why;
	if (near<LD>(n.v, n.r, exact ? 0.L : n.e + 4.L, 0.L, &why)) return true;
	x.viol("%s = %s: %s", n.txt.c_str(), show(n.v).c_str(), why.c_str());
	return false;
}
Val prom(Val const & v) { return v.t == MV ? v : op(sut.promote[v.t], v); }
bool binop(Node const & p, Node const & q, int k, Node & o, Ctx & x)
{
	if (k == 0)
	{
		if (!sut.mul[p.v.t][q.v.t]) return false;
		if (p.deg + q.deg > 9) return false;
		o.v = op(sut.mul[p.v.t][q.v.t], p.v, q.v);
		o.r = p.r * q.r; o.e = p.e + q.e + 16; o.deg = p.deg + q.deg;
		o.txt = "(" + p.txt + "*" + q.txt + ")";
		return true;
	}
	auto const & tab = (k == 1) ? sut.add : sut.sub;
	bool const direct = tab[p.v.t][q.v.t] != nullptr;
	if (direct) o.v = op(tab[p.v.t][q.v.t], p.v, q.v);
	else o.v = op(tab[MV][MV], prom(p.v), prom(q.v));
	o.r = (k == 1) ? p.r + q.r : p.r - q.r;
	if (k == 2 && direct && reversedSub(o.v, p.v, q.v))
	{
		x.name(reversedKey(p.v, q.v), "in " + p.txt + "-" + q.txt + ": x-y is " + show(o.v) + ", which is y-x");
		o.r = q.r - p.r; // go on with the value the program now has
	}
	o.e = std::max(p.e, q.e) + 1; o.deg = std::max(p.deg, q.deg);
	o.txt = "(" + p.txt + (k == 1 ? "+" : "-") + q.txt + ")";
	return true;
}
bool unop(Node const & p, int k, Node & o)
{
	int const t = p.v.t;
	o.e = p.e; o.deg = p.deg;
	char const * name = "";
	switch (k)
	{
		case 0: if (!sut.neg[t]) return false; o.v = op(sut.neg[t], p.v); o.r = rneg(p.r); name = "-"; break;
		case 1: if (!sut.rev[t]) return false; o.v = op(sut.rev[t], p.v); o.r = rrev(p.r); name = "reverse"; break;
		case 2: if (!sut.odd[t]) return false; o.v = op(sut.odd[t], p.v); o.r = rodd(p.r); name = "oddverse"; break;
		case 3: if (!sut.dir[t]) return false; o.v = op(sut.dir[t], p.v); o.r = rdir(p.r); name = "dirverse"; break;
		case 4: if (!sut.dual[t]) return false; o.v = op(sut.dual[t], p.v); o.r = rdual(p.r); name = "dual"; break;
		case 5: if (!sut.sq[t] || p.deg > 4) return false; o.v = op(sut.sq[t], p.v); o.r = p.r * p.r; o.e = 2 * p.e + 16; o.deg = 2 * p.deg; name = "sq"; break;
		case 6: if (!sut.cube[t] || p.deg > 3) return false; o.v = op(sut.cube[t], p.v); o.r = p.r * p.r * p.r; o.e = 3 * p.e + 32; o.deg = 3 * p.deg; name = "cube"; break;
		default: o.v = prom(p.v); o.r = p.r; name = "MultiVector"; break;
	}
	o.txt = std::string(name) + "(" + p.txt + ")";
	return true;
}
// some rounding bound no longer holds: terms near the ends of double's range
bool extreme(Node const & n)
{
	for (int i = 0; i < 8; ++i) if (n.r.a[i] != 0 && !(n.r.a[i] > 1e-220L && n.r.a[i] < 1e220L)) return true;
	return false;
}
bool program(Case const & c, Ctx & x)
{
	if (!caseIn(c)) return false;
	Rng r(c.seed);
	std::vector<Node> pool;
	bool exact = true;
	for (int i = 0; i < c.n; ++i)
	{
		Node n;
		n.v = project(c.a[i], r.below(NTAG));
		n.r = rl(n.v);
		n.txt = std::string(tagName(n.v.t)) + "{" + nm[i] + "}";
		if (!smallInt(n.v, 12)) exact = false;
		pool.push_back(n);
	}
	int const steps = 2 + r.below(8);
	for (int s = 0; s < steps; ++s)
	{
		Node o;
		bool ok;
		uint32_t const n = (uint32_t)pool.size();
		// prefer recent nodes so that chains get deep
		auto pk = [&]() -> Node const & { return pool[r.chance(.5) ? n - 1 : r.below(n)]; };
		uint32_t const m = r.below(10);
		if (m < 5) { Node const & p = pk(); Node const & q = pool[r.below(n)]; ok = r.chance(.5) ? binop(p, q, 0, o, x) : binop(q, p, 0, o, x); }
		else if (m < 7) ok = binop(pk(), pool[r.below(n)], 1 + r.below(2), o, x);
		else ok = unop(pk(), r.below(8), o);
		if (!ok) continue;
		if (extreme(o)) { exact = false; continue; }
		// the exact comparison needs every intermediate below 2^53
		LD big = 0;
		for (int i = 0; i < 8; ++i) big = std::max(big, o.r.a[i]);
		bool const ex = exact && big < 0x1p50L;
		if (!ex) exact = false;
		if (!check(o, x, ex)) return true;
		if (o.txt.size() > 400) o.txt = "(...)";
		pool.push_back(o);
	}
	return true;
}
bool laws(Case const & c, Ctx & x)
{
	if (!caseIn(c)) return false;
	Rng r(c.seed);
	Val const p = project(c.a[0], r.below(NTAG)), q = project(c.a[1], r.below(NTAG)), s = project(c.a[2], r.below(NTAG));
	auto mul = [&](Val const & m, Val const & n) { return sut.mul[m.t][n.t] ? op(sut.mul[m.t][n.t], m, n) : op(sut.mul[MV][MV], prom(m), prom(n)); };
	auto add = [&](Val const & m, Val const & n) { return sut.add[m.t][n.t] ? op(sut.add[m.t][n.t], m, n) : op(sut.add[MV][MV], prom(m), prom(n)); };
	auto same = [&](Val const & m, Val const & n, Ref<LD> const & w, LD k, char const * law) {
		for (int i = 0; i < 8; ++i)
			if (!(fabsl((LD)at(m, i) - (LD)at(n, i)) <= k * EPS * w.a[i]))
			{ x.viol("%s fails for %s, %s, %s: %s vs %s", law, show(p).c_str(), show(q).c_str(), show(s).c_str(), show(m).c_str(), show(n).c_str()); return false; }
		return true;
	};
	Ref<LD> const P = rl(p), Q_ = rl(q), S_ = rl(s);
	Ref<LD> const pqs = P * Q_ * S_;
	if (!same(mul(mul(p, q), s), mul(p, mul(q, s)), pqs, 64, "(a*b)*c = a*(b*c)")) return true;
	if (!same(mul(p, add(q, s)), add(mul(p, q), mul(p, s)), P * (Q_ + S_), 64, "a*(b+c) = a*b+a*c")) return true;
	if (!same(mul(add(p, q), s), add(mul(p, s), mul(q, s)), (P + Q_) * S_, 64, "(a+b)*c = a*c+b*c")) return true;
	if (p.t == D || p.t == S || p.t == T || p.t == CX)
		if (!same(mul(p, q), mul(q, p), P * Q_, 32, "a*b = b*a (central a)")) return true;
	if (sut.sq[p.t])
	{
		if (!same(op(sut.sq[p.t], p), mul(p, p), P * P, 32, "sq(a) = a*a")) return true;
		if (!same(op(sut.cube[p.t], p), mul(mul(p, p), p), P * P * P, 64, "cube(a) = a*a*a")) return true;
	}
	return true;
}
void roundInts(Case & c, Rng & r)
{
	if (r.chance(.3)) for (int i = 0; i < c.n; ++i) for (int k = 0; k < 8; ++k) c.a[i].c[k] = r.range(-9, 9);
}
// each argument at a scale of its own
void spread(Case & c, Rng & r)
{
	for (int i = 0; i < c.n; ++i)
	{
		double m = 0.;
		for (int k = 0; k < 8; ++k) m = std::max(m, std::fabs(c.a[i].c[k]));
		if (m == 0.) continue;
		double const s = std::ldexp(1., r.range(-220, 220) - std::ilogb(m));
		for (int k = 0; k < 8; ++k) { double const y = c.a[i].c[k] * s; c.a[i].c[k] = c.s->dom.has(y) ? y : 0.; }
	}
}
}
static void programs()
{
	Dom const d{ 1e-20, 1e20, true };
	scen("C03", "program4", { MV, MV, MV, MV }, d, program, 3., roundInts);
	scen("C03", "program6", { MV, MV, MV, MV, MV, MV }, d, program, 2., roundInts);
	scen("C03", "laws", { MV, MV, MV }, d, laws, 3., roundInts);
	Dom const wide{ 1e-70, 1e70, true };
	scen("C03", "wide program", { MV, MV, MV, MV }, wide, program, 1., spread);
	scen("C03", "wide laws", { MV, MV, MV }, wide, laws, 1., spread);
	for (int t : { (int)D, (int)S, (int)SP, (int)CX, (int)MV })
	{
		scen("C03", std::string("sq ") + tagName(t), { t }, d, [t](Case const & c, Ctx & x) {
			if (!caseIn(c)) return false;
			Ref<LD> const w = rl(c.a[0]);
			bool const exact = smallInt(c.a[0], 1000);
			std::string why;
			Val const s = op(sut.sq[t], c.a[0]), k = op(sut.cube[t], c.a[0]);
			if (!near<LD>(s, w * w, exact ? 0.L : 16.L, 0.L, &why)) OPV("sq gives %s: %s", show(s).c_str(), why.c_str());
			if (!near<LD>(k, w * w * w, exact ? 0.L : 40.L, 0.L, &why)) OPV("cube gives %s: %s", show(k).c_str(), why.c_str());
			return true;
		}, .3);
	}
}

//
// involutions, dual
//
static bool bitsEq(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }
static void involutions()
{
	struct I { char const * n; Fn1 const * f; int g[4]; };
	static I const inv[]{
		{ "negate", sut.neg, { 1, 1, 1, 1 } }, { "reverse", sut.rev, { 0, 0, 1, 1 } },
		{ "oddverse", sut.odd, { 0, 1, 0, 1 } }, { "dirverse", sut.dir, { 0, 1, 1, 0 } } };
	for (int t = 0; t < NTAG; ++t) for (int k = 0; k < 4; ++k)
	{
		Fn1 const f = inv[k].f[t];
		if (!f) continue;
		scen("C04", std::string(inv[k].n) + " " + tagName(t), { t }, any, [f, k, t](Case const & c, Ctx & x) {
			if (!caseIn(c)) return false;
			Val const r = op(f, c.a[0]);
			for (int i = 0; i < 8; ++i)
			{
				bool const had = hasIdx(t, i), has = hasIdx(r.t, i);
				if (had && !has) OPV("result type %s lacks component %d", tagName(r.t), i);
				if (!has) continue;
				double const g = at(r, i), w = at(c.a[0], i);
				if (!had) { if (!(g == 0.)) OPV("component %d appeared: %.17g", i, g); continue; }
				if (inv[k].g[gradeOf(i)] ? !(g == -w) : !bitsEq(g, w))
					OPV("component %d of %s is %.17g, argument has %.17g", i, show(r).c_str(), g, w);
			}
			Val const rr = (r.t == t) ? op(f, r) : c.a[0];
			if (!sameNum(rr, c.a[0])) OPV("applied twice gives %s", show(rr).c_str());
			// two of {reverse, oddverse, dirverse} make the third
			if (k > 0 && r.t == t)
				for (int m = 1; m < 4; ++m)
				{
					int const n = 6 - k - m;
					if (m == k || !inv[m].f[t] || !inv[n].f[t]) continue;
					Val const a = op(inv[m].f[t], r), b = op(inv[n].f[t], c.a[0]);
					if (!sameNum(a, b)) OPV("%s after %s is %s, %s is %s", inv[m].n, inv[k].n, show(a).c_str(), inv[n].n, show(b).c_str());
				}
			return true;
		});
	}
	// (anti)automorphism laws over random type pairs
	Dom const d{ 1e-140, 1e140, true };
	scen("C04", "product laws", { MV, MV }, d, [](Case const & c, Ctx & x) {
		if (!caseIn(c)) return false;
		Rng r(c.seed);
		Val const p = project(c.a[0], 1 + r.below(NTAG - 1)), q = project(c.a[1], 1 + r.below(NTAG - 1));
		Val const pq = op(sut.mul[p.t][q.t], p, q);
		Ref<LD> const w = rl(p) * rl(q);
		for (int k = 1; k < 4; ++k)
		{
			Fn1 const * f = inv[k].f;
			Val const l = op(f[pq.t], pq), fp = op(f[p.t], p), fq = op(f[q.t], q);
			Val const m = (k == 2) ? op(sut.mul[fp.t][fq.t], fp, fq) : op(sut.mul[fq.t][fp.t], fq, fp);
			for (int i = 0; i < 8; ++i)
				if (!(fabsl((LD)at(l, i) - (LD)at(m, i)) <= 32 * EPS * w.a[i]))
					OPV("%s of product of %s and %s: %s vs %s", inv[k].n, show(p).c_str(), show(q).c_str(), show(l).c_str(), show(m).c_str());
		}
		return true;
	}, 6.);
}
static void duals()
{
	for (int t = 0; t < NTAG; ++t)
	{
		Fn1 const f = sut.dual[t];
		if (!f) continue;
		scen("C05", std::string("dual ") + tagName(t), { t }, any, [f, t](Case const & c, Ctx & x) {
			if (!caseIn(c)) return false;
			Val const r = op(f, c.a[0]);
			// e123 * x, exactly
			static int const from[8]{ 7, 4, 5, 6, 1, 2, 3, 0 };
			static int const sg[8]{ -1, -1, -1, -1, 1, 1, 1, 1 };
			for (int i = 0; i < 8; ++i)
			{
				double const w = sg[i] * at(c.a[0], from[i]);
				if (hasIdx(t, from[i]) && !hasIdx(r.t, i)) OPV("result type %s lacks component %d", tagName(r.t), i);
				if (!(at(r, i) == w)) OPV("component %d of %s is %.17g, want %.17g", i, show(r).c_str(), at(r, i), w);
			}
			Val const rr = op(sut.dual[r.t], r);
			for (int i = 0; i < 8; ++i) if (!(at(rr, i) == -at(c.a[0], i))) OPV("dual(dual(x)) is %s", show(rr).c_str());
			if (sut.mul[T][t])
			{
				Val const e = mk(T, { 1. });
				Val const a = op(sut.mul[T][t], e, c.a[0]), b = op(sut.mul[t][T], c.a[0], e);
				if (!sameNum(a, r)) OPV("dual gives %s but e123*x gives %s", show(r).c_str(), show(a).c_str());
				if (!sameNum(b, r)) OPV("dual gives %s but x*e123 gives %s", show(r).c_str(), show(b).c_str());
			}
			return true;
		});
	}
	Dom const d{ 1e-140, 1e140, true };
	scen("C05", "dual of product and sum", { MV, MV }, d, [](Case const & c, Ctx & x) {
		if (!caseIn(c)) return false;
		Rng r(c.seed);
		Val const p = project(c.a[0], 1 + r.below(NTAG - 1)), q = project(c.a[1], 1 + r.below(NTAG - 1));
		Val const pq = op(sut.mul[p.t][q.t], p, q);
		Ref<LD> const w = rdual(rl(p) * rl(q));
		Val const dp = op(sut.dual[p.t], p), dq = op(sut.dual[q.t], q), l = op(sut.dual[pq.t], pq);
		Val const m = op(sut.mul[dp.t][q.t], dp, q), n = op(sut.mul[p.t][dq.t], p, dq);
		for (int i = 0; i < 8; ++i)
		{
			LD const tol = 32 * EPS * w.a[i];
			if (!(fabsl((LD)at(l, i) - w.c[i]) <= tol) || !(fabsl((LD)at(m, i) - w.c[i]) <= tol) || !(fabsl((LD)at(n, i) - w.c[i]) <= tol))
				OPV("dual(xy), dual(x)y, x dual(y) for %s, %s: %s, %s, %s", show(p).c_str(), show(q).c_str(), show(l).c_str(), show(m).c_str(), show(n).c_str());
		}
		if (sut.add[p.t][q.t] && sut.add[dp.t][dq.t])
		{
			Val const s = op(sut.add[p.t][q.t], p, q), ds = op(sut.dual[s.t], s), sd = op(sut.add[dp.t][dq.t], dp, dq);
			if (!sameNum(ds, sd)) OPV("dual(x+y) = %s, dual(x)+dual(y) = %s", show(ds).c_str(), show(sd).c_str());
		}
		return true;
	}, 5.);
}
void regAlg() { products(); numbers(); sums(); programs(); involutions(); duals(); }
