// C24..C26: construction and access, constants, build identity.
#include "scen.hpp"
#include <complex>

static bool sameD(double a, double b) { return (a != a && b != b) || std::memcmp(&a, &b, 8) == 0; }
static Dom const any{ 5e-324, 1.7976931348623157e308, true };
static Val wilder(Val v, Rng & r) { if (r.chance(.3)) for (int i = 0; i < nComp(v.t); ++i) if (r.chance(.5)) v.c[i] = anyBits(r); return v; }

static void types()
{
	for (int t = 0; t < NTAG; ++t)
	{
		scen("C24", std::string("promote ") + tagName(t), { t }, any, [t](Case const & c, Ctx & x) {
			Rng r(c.seed);
			Val const v = wilder(c.a[0], r);
			Val const m = op(sut.promote[t], v);
			if (m.t != MV) OPV("type");
			for (int i = 0; i < 8; ++i)
			{
				if (hasIdx(t, i) ? !sameD(at(m, i), at(v, i)) : !(at(m, i) == 0.)) OPV("MultiVector(%s) = %s", show(v).c_str(), show(m).c_str());
			}
			return true;
		}, .6);
		if (!sut.sub1[t]) continue;
		scen("C24", std::string("subscript ") + tagName(t), { t }, any, [t](Case const & c, Ctx & x) {
			Rng r(c.seed);
			Val const v = wilder(c.a[0], r);
			int const n = nComp(t);
			counters.calls += n + 4;
			for (int i = 0; i < n; ++i) if (!sameD(sut.sub1[t](&v, i), v.c[i])) OPV("%s [%d] is %.17g", show(v).c_str(), i, sut.sub1[t](&v, i));
			if (t == MV) return true;
			size_t const far[]{ (size_t)n, (size_t)n + 1, (size_t)n + r.below(20), (size_t)(r.u64() >> r.below(60)), ~(size_t)0, (size_t)1 << r.below(64), ((size_t)1 << r.below(64)) + r.below(8) };
			for (size_t k : far)
				if (k >= (size_t)n && !isNanBits(sut.sub1[t](&v, k))) OPV("%s [%zu] is %.17g, want NaN", show(v).c_str(), k, sut.sub1[t](&v, k));
			return true;
		});
	}
	scen("C24", "write MultiVector", { MV, D }, any, [](Case const & c, Ctx & x) {
		Rng r(c.seed);
		Val const v = wilder(c.a[0], r);
		double const d = r.chance(.3) ? anyBits(r) : c.a[1].c[0];
		for (int k = 0; k < 8; ++k)
		{
			Val w = v;
			counters.calls += 2;
			if (!sameD(sut.readMut(&v, k), v.c[k])) OPV("%s [%d] reads %.17g", show(v).c_str(), k, sut.readMut(&v, k));
			sut.write(&w, k, d);
			for (int i = 0; i < 8; ++i) if (!sameD(w.c[i], i == k ? d : v.c[i])) OPV("%s [%d] = %.17g makes %s", show(v).c_str(), k, d, show(w).c_str());
		}
		return true;
	}, 2.);
	scen("C24", "from grades", { S, V, B, T }, any, [](Case const & c, Ctx & x) {
		Rng r(c.seed);
		Val const s = wilder(c.a[0], r), v = wilder(c.a[1], r), b = wilder(c.a[2], r), t = wilder(c.a[3], r);
		Val m;
		++counters.calls;
		sut.grades(&s, &v, &b, &t, &m);
		double const w[8]{ s.c[0], v.c[0], v.c[1], v.c[2], b.c[0], b.c[1], b.c[2], t.c[0] };
		for (int i = 0; i < 8; ++i) if (!sameD(m.c[i], w[i])) OPV("MultiVector(s,v,b,t) = %s", show(m).c_str());
		return true;
	}, 2.);
	scen("C24", "from components and parts", { MV }, any, [](Case const & c, Ctx & x) {
		Rng r(c.seed);
		Val const v = wilder(c.a[0], r);
		Val const m = op(sut.comps, v), k = op(sut.join, project(v, CX), project(v, DX));
		for (int i = 0; i < 8; ++i)
		{
			if (!sameD(m.c[i], v.c[i])) OPV("MultiVector(8 numbers) = %s", show(m).c_str());
			if (!sameD(k.c[i], v.c[i])) OPV("MultiVector(ComPlex,DirPlex) = %s", show(k).c_str());
		}
		return true;
	}, 2.);
	scen("C24", "std::complex", { CX }, any, [](Case const & c, Ctx & x) {
		Rng r(c.seed);
		Val const v = wilder(c.a[0], r);
		Val const f = op(sut.cplxFrom, v), t = op(sut.cplxTo, v);
		for (int i = 0; i < 2; ++i)
		{
			if (!sameD(f.c[i], v.c[i])) OPV("ComPlex::from(%.17g,%.17g) = %s", v.c[0], v.c[1], show(f).c_str());
			if (!sameD(t.c[i], v.c[i])) OPV("complex(%s) = (%.17g,%.17g)", show(v).c_str(), t.c[0], t.c[1]);
		}
		return true;
	}, 2.);
	scen("C24", "std::complex arithmetic", { CX, CX }, Dom{ 1e-100, 1e100, true }, [](Case const & c, Ctx & x) {
		if (!caseIn(c)) return false;
		Val const & b = c.alias ? c.a[0] : c.a[1];
		Val const p = op(sut.cplxMulStd, c.a[0], b), q = op(sut.mul[CX][CX], c.a[0], b);
		Ref<LD> const w = rl(c.a[0]) * rl(b);
		for (int i : { 0, 7 })
			if (!(fabsl((LD)at(p, i) - w.c[i]) <= 8 * EPS * w.a[i]) || !(fabsl((LD)at(q, i) - w.c[i]) <= 8 * EPS * w.a[i])) OPV("product %s via std::complex, %s via ComPlex", show(p).c_str(), show(q).c_str());
		return true;
	}, 1.);
}

//
// constants
//
static Val basisVal(int i)
{
	static int const tg[8]{ S, V, V, V, B, B, B, T };
	Val v;
	v.t = (Tag)tg[i];
	v.c[i == 0 || i == 7 ? 0 : (i - 1) % 3] = 1.;
	return v;
}
static void checkConstants(Ctx & x)
{
	for (int u = 0; u < 2; ++u) for (int early = 0; early < 2; ++early)
	{
		Val k[8];
		for (int i = 0; i < 8; ++i)
		{
			if (early) sut.early[u](i, &k[i]); else sut.konst[u](i, &k[i]);
			++counters.calls;
			Val const w = basisVal(i);
			if (k[i].t != w.t || !sameNum(k[i], w)) x.viol("%sconstant %d of unit %d is %s, want %s", early ? "during static initialisation " : "", i, u, show(k[i]).c_str(), show(w).c_str());
		}
		if (x.bad()) return;
		for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j)
		{
			Val const p = op(sut.mul[k[i].t][k[j].t], k[i], k[j]);
			Val const q = op(sut.mul[MV][MV], op(sut.promote[k[i].t], k[i]), op(sut.promote[k[j].t], k[j]));
			for (int m = 0; m < 8; ++m)
			{
				double const w = m == basis().idx[i][j] ? basis().sgn[i][j] : 0.;
				if (at(p, m) != w || at(q, m) != w) x.viol("product of basis elements %d and %d is %s", i, j, show(p).c_str());
			}
		}
		if (early)
		{
			auto want = [&](int slot, std::initializer_list<double> w, double tol) {
				Val v;
				sut.early[u](slot, &v);
				int i = 0;
				Val const m = toMv(v);
				for (double z : w) { if (!(std::fabs(m.c[i] - z) <= tol)) x.viol("expression %d evaluated during static initialisation of unit %d is %s", slot, u, show(v).c_str()); ++i; }
			};
			want(8, { 0, 0, 0, 0, 0, 0, 1, 0 }, 0); want(9, { 0, 0, 0, 0, 1, 0, 0, 0 }, 0); want(10, { 0, 0, 0, 0, 0, 1, 0, 0 }, 0);
			want(11, { 0, 0, 0, 0, 0, 0, 0, 1 }, 0); want(12, { 0, 0, 0, 0, 0, 0, 0, 0 }, 0); want(13, { 1, 0, 0, 0, 0, 0, 0, 0 }, 0);
			want(14, { 0, 0, 0, 0, 0, 0, 1, 0 }, 1e-15); want(15, { 0, 0, 0, 0, 1, 0, 0, 0 }, 0);
			want(16, { std::log(2.), 0, 0, 0, 3.141592653589793, 0, 0, 0 }, 2e-15);
			Val v;
			sut.early[u](17, &v);
			for (int i = 0; i < 8; ++i) if (!isNanBits(v.c[i])) x.viol("null during static initialisation is %s", show(v).c_str());
		}
	}
	Q const pi = M_PIq;
	double const w[6]{ (double)pi, (double)(pi / 2), (double)(pi / 4), (double)(2 * pi), (double)pi, (double)(pi / 2) };
	for (int i = 0; i < 6; ++i) if (!(sut.pis(i) == w[i])) x.viol("constant %d of pi and turns is %.17g want %.17g", i, sut.pis(i), w[i]);
	if (!isNanBits(sut.pis(6))) x.viol("nan is %.17g", sut.pis(6));
}
static void constants()
{
	special("C25", "constants", [](Ctx & x, Rng &) {
		checkConstants(x);
		for (int k = 0, d; (d = sut.lifeDiffers(k)) != -2; ++k)
			if (d >= 0) x.viol("result %d of battery %d is not what it was during static initialisation", d, k);
	});
	scen("C25", "constants after work", {}, Dom{}, [](Case const & c, Ctx & x) {
		Rng r(c.seed);
		auto const & ops = allOps();
		for (int i = 0; i < 20; ++i)
		{
			OpRef const & o = ops[r.below((uint32_t)ops.size())];
			Val a, b;
			a.t = (Tag)o.in[0];
			for (double & z : a.c) z = r.chance(.2) ? anyBits(r) : (double)r.range(-3, 3);
			if (o.n == 2) { b.t = (Tag)o.in[1]; for (double & z : b.c) z = (double)r.range(-3, 3); (void)op(o.f2, a, b); }
			else { Val p, q; op2out(o.f1, a, p, q); }
		}
		checkConstants(x);
		return true;
	}, .5);
	Dom const d{ 1e-300, 1e300, true };
	for (int t = 0; t < NTAG; ++t)
		scen("C25", std::string("zero and one with ") + tagName(t), { t }, d, [t](Case const & c, Ctx & x) {
			if (!caseIn(c)) return false;
			Val const & v = c.a[0];
			for (int u = 0; u < NTAG; ++u)
			{
				Val z;
				sut.zero[u](&z);
				if (u != z.t || !isZero(z)) OPV("zero<%s> is %s", tagName(u), show(z).c_str());
				if (sut.mul[t][u] && (!isZero(op(sut.mul[t][u], v, z)) || !isZero(op(sut.mul[u][t], z, v)))) OPV("product with zero<%s> is %s", tagName(u), show(op(sut.mul[t][u], v, z)).c_str());
				if (sut.add[t][u] && !sameNum(op(sut.add[t][u], v, z), v)) OPV("x+zero<%s> is %s", tagName(u), show(op(sut.add[t][u], v, z)).c_str());
				if (sut.add[u][t] && !sameNum(op(sut.add[u][t], z, v), v)) OPV("zero<%s>+x is %s", tagName(u), show(op(sut.add[u][t], z, v)).c_str());
				auto backward = [&](Val const & p, Val const & q) {
					Val const d = op(sut.sub[p.t][q.t], p, q);
					if (!reversedSub(d, p, q)) return false;
					x.name(reversedKey(p, q), show(p) + "-" + show(q) + " is " + show(d));
					return true;
				};
				if (sut.sub[t][u] && !backward(v, z) && !sameNum(op(sut.sub[t][u], v, z), v)) OPV("x-zero<%s> is %s", tagName(u), show(op(sut.sub[t][u], v, z)).c_str());
				if (sut.sub[u][t] && !backward(z, v) && !sameNum(op(sut.sub[u][t], z, v), negOf(v))) OPV("zero<%s>-x is %s", tagName(u), show(op(sut.sub[u][t], z, v)).c_str());
				if (!sut.one[u]) continue;
				Val o;
				sut.one[u](&o);
				if (o.t != u || !sameNum(o, mk(S, { 1. }))) OPV("one<%s> is %s", tagName(u), show(o).c_str());
				if (sut.mul[t][u] && !sameNum(op(sut.mul[t][u], v, o), v)) OPV("x*one<%s> is %s", tagName(u), show(op(sut.mul[t][u], v, o)).c_str());
				if (sut.mul[u][t] && !sameNum(op(sut.mul[u][t], o, v), v)) OPV("one<%s>*x is %s", tagName(u), show(op(sut.mul[u][t], o, v)).c_str());
			}
			return true;
		});
}
static void identity()
{
	special("C26", "version and identity", [](Ctx & x, Rng &) {
		std::string const v = sut.version(), i = sut.identity();
		if (v != HARNESS_VERSION) x.viol("projectVersion() is \"%s\", the project declares %s", v.c_str(), HARNESS_VERSION);
		if (i != HARNESS_IDENTITY) x.viol("sourceIdentity() is \"%s\", built with %s", i.c_str(), HARNESS_IDENTITY);
		for (int k = 0; k < 20000; ++k)
		{
			++counters.calls;
			if (sut.version() != v) { x.viol("projectVersion() is \"%s\" then \"%s\"", v.c_str(), sut.version().c_str()); break; }
			if (sut.identity() != i) { x.viol("sourceIdentity() is \"%s\" then \"%s\"", i.c_str(), sut.identity().c_str()); break; }
		}
	});
}
void regType() { types(); constants(); identity(); }
void registerAll() { regAlg(); regMag(); regExp(); regCmp(); regIo(); regSys(); regType(); regGeo(); }
