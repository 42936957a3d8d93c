// C09..C13: exponentials, logarithm, root, rotations.
#include "scen.hpp"

static double const PI = 3.141592653589793;
static Q qabs(Q x) { return x < 0 ? -x : x; }

// scale a bivector (components at k0..) so that its size is m
static void setSize(double * c, int n, double m)
{
	LD s = 0;
	for (int i = 0; i < n; ++i) s += (LD)c[i] * c[i];
	if (!(s > 0)) { c[0] = m; return; }
	LD const f = m / sqrtl(s);
	for (int i = 0; i < n; ++i) c[i] = (double)(c[i] * f);
}
// an interesting angle
static double angle(Rng & r, double lim)
{
	double a;
	switch (r.below(10))
	{
		case 0: a = PI * r.range(0, 12) / 12.; break;
		case 1: a = PI * r.range(0, 8) / 4. + r.sym() * std::pow(10., -r.range(1, 15)); break;
		case 2: a = std::pow(10., -r.range(0, 16)) * (1. + r.uni() * 9.); break;
		case 3: a = r.range(0, 10); break;
		case 4: a = std::pow(10., r.uni() * 6.); break;
		case 5: a = PI * r.range(1, 300000); break;
		case 6: a = ulpUp(PI * r.range(1, 8) / 4., r.range(-3, 3)); break;
		case 7: a = std::pow(10., -r.uni() * 140.); break;
		default: a = r.uni() * 2. * PI; break;
	}
	a = std::fabs(a);
	return a > lim ? std::fmod(a, lim) : a;
}

//
// C09
//
static bool checkExpB(Val const & b3, double s, Val const & got, Ctx & x)
{
	Q m2 = 0;
	for (int i = 0; i < 3; ++i) m2 += (Q)b3.c[i] * (Q)b3.c[i];
	Q const m = sqrtq(m2), es = expq((Q)s);
	Q const co = cosq(m) * es, si = (m > 0 ? sinq(m) / m : (Q)1) * es;
	Q const K = 16 * (Q)EPS;
	if (!(qabs((Q)at(got, 0) - co) <= K * es * (1 + m * qabs(sinq(m)))))
	{ x.viol("exp scalar part %.17g want %.17g", at(got, 0), (double)co); return false; }
	for (int i = 0; i < 3; ++i)
	{
		Q const w = si * (Q)b3.c[i];
		if (!(qabs((Q)at(got, 4 + i) - w) <= K * (qabs(w) + es * qabs((Q)b3.c[i])) + 1e-290Q))
		{ x.viol("exp bivector component %d is %.17g want %.17g", i, at(got, 4 + i), (double)w); return false; }
	}
	return true;
}
static void invalidate(Val & v, Rng & r, bool nanOnly, int from = 0)
{
	int const n = nComp(v.t);
	for (int k = 1 + (r.chance(.3) ? r.below(3) : 0); k > 0; --k)
	{
		double bad;
		switch (nanOnly ? 0 : r.below(4))
		{
			case 0: bad = std::nan(""); break;
			case 1: bad = INFINITY * r.sgn(); break;
			case 2: bad = r.sgn() * 5e-324 * r.range(1, 1 << 20); break;
			default: bad = r.sgn() * 2.2250738585072009e-308; break;
		}
		v.c[from + r.below(n - from)] = bad;
	}
}
static void exps()
{
	Dom const d{ 1e-140, 1e6, true };
	auto genB = [](Case & c, Rng & r) { if (r.chance(.6)) setSize(c.a[0].c, 3, angle(r, 1e6)); };
	scen("C09", "exp BiVector", { B }, d, [](Case const & c, Ctx & x) {
		if (!caseIn(c)) return false;
		Val const & b = c.a[0];
		LD const m = magLd(b);
		if (m > 1.0001e6L) return false;
		Val const r = op(sut.exp[B], b);
		if (isZero(b) && !(at(r, 0) == 1. && at(r, 4) == 0. && at(r, 5) == 0. && at(r, 6) == 0.)) OPV("exp of zero is %s", show(r).c_str());
		if (!checkExpB(b, 0., r, x)) return true;
		LD const one = rl(r).magSq();
		if (!(fabsl(one - 1) <= 32 * EPS)) OPV("squared magnitude of exp is %.17Lg", one);
		Val const n = op(sut.exp[B], negOf(b));
		Val const p = op(sut.mul[r.t][n.t], r, n);
		if (!close(p, Ref<LD>::scalar(1), 48 * EPS)) OPV("exp(B)*exp(-B) = %s", show(p).c_str());
		Val const e2 = op(sut.exp[B], scaled(b, 2.)), rr = op(sut.mul[r.t][r.t], r, r);
		if (!closeV(e2, rr, 96 * EPS * (1 + m))) OPV("exp(B)^2 = %s, exp(2B) = %s", show(rr).c_str(), show(e2).c_str());
		return true;
	}, 4., genB);
	scen("C09", "exp parallel bivectors", { B }, Dom{ 1e-140, 1e3, true }, [](Case const & c, Ctx & x) {
		if (!caseIn(c)) return false;
		Rng r(c.seed);
		Val const & b = c.a[0];
		double const k = r.chance(.5) ? r.range(-5, 5) * .5 : r.sym() * 3.;
		Val const bk = scaled(b, k), bs = scaled(b, k + 1.);
		LD const m = magLd(b);
		Val const p = op(sut.mul[SP][SP], op(sut.exp[B], b), op(sut.exp[B], bk)), q = op(sut.exp[B], bs);
		if (!okVal(bk) || !okVal(bs)) return false;
		if (!closeV(p, q, 128 * EPS * (1 + m) * (2 + std::fabs(k)))) OPV("exp(B)exp(%.17gB) = %s, exp of sum %s", k, show(p).c_str(), show(q).c_str());
		return true;
	}, 1., genB);
	scen("C09", "exp Spinor", { SP }, d, [](Case const & c, Ctx & x) {
		if (!caseIn(c)) return false;
		Val const & s = c.a[0];
		if (!(std::fabs(s.c[0]) <= 300.)) return false;
		Val const b = mk(B, { s.c[1], s.c[2], s.c[3] });
		if (magLd(b) > 1.0001e6L) return false;
		Val const r = op(sut.exp[SP], s);
		checkExpB(b, s.c[0], r, x);
		return true;
	}, 3., [](Case & c, Rng & r) {
		if (r.chance(.7)) setSize(c.a[0].c + 1, 3, angle(r, 1e6));
		Dom const d{ 1e-140, 300., true };
		if (!d.has(c.a[0].c[0])) c.a[0].c[0] = r.chance(.5) ? r.sym() * 300. : num(r, d);
	});
	for (int t : { (int)B, (int)SP })
		scen("C09", std::string("exp not valid ") + tagName(t), { t }, d, [t](Case const & c, Ctx & x) {
			Rng r(c.seed);
			Val a = c.a[0];
			invalidate(a, r, t == SP);
			Val const e = op(sut.exp[t], a);
			if (okVal(e)) OPV("exp of %s is the valid %s", show(a).c_str(), show(e).c_str());
			return true;
		}, .7);
}

//
// C10
//
namespace {
inline Q mSqrt(Q x) { return sqrtq(x); } inline LD mSqrt(LD x) { return sqrtl(x); }
inline Q mExp(Q x) { return expq(x); } inline LD mExp(LD x) { return expl(x); }
inline Q mCos(Q x) { return cosq(x); } inline LD mCos(LD x) { return cosl(x); }
inline Q mSin(Q x) { return sinq(x); } inline LD mSin(LD x) { return sinl(x); }
inline Q mCosh(Q x) { return coshq(x); } inline LD mCosh(LD x) { return coshl(x); }
inline Q mSinh(Q x) { return sinhq(x); } inline LD mSinh(LD x) { return sinhl(x); }
template <typename Q> struct Cq { Q re, im; };
template <typename Q> Cq<Q> sqrtC(Cq<Q> z)
{
	Q const m = mSqrt(z.re * z.re + z.im * z.im);
	Q a = mSqrt((m + rabs(z.re)) / 2);
	if (a == 0) return { 0, 0 };
	Q b = z.im / (2 * a);
	if (z.re >= 0) return { a, b };
	return { rabs(b), z.im < 0 ? -a : a };
}
template <typename Q> Q absC(Cq<Q> z) { return mSqrt(z.re * z.re + z.im * z.im); }
// in long double with half the tolerance first; only what that cannot accept
// is decided in quad precision
template <typename Q> bool checkExpIn(Val const & m, Val const & got, Ctx & x, Q share)
{
	Ref<Q> const w = rexp(Ref<Q>(m));
	Q f2 = 0;
	for (int i = 1; i < 7; ++i) f2 += (Q)m.c[i] * (Q)m.c[i];
	Q const F = mSqrt(f2), es = mExp((Q)m.c[0]);
	// w = D*D = |v|^2-|b|^2 + 2 v.b' I
	Q v2 = 0, b2 = 0, vb = 0;
	for (int i = 1; i < 4; ++i) { v2 += (Q)m.c[i] * m.c[i]; b2 += (Q)m.c[i + 3] * m.c[i + 3]; vb += (Q)m.c[i] * m.c[i + 3]; }
	Cq<Q> const z = sqrtC(Cq<Q>{ v2 - b2, 2 * vb });
	Q const az = absC(z);
	// |cosh z|, |sinh z / z|, |d(sinhc)/dw|
	Cq<Q> const ch{ mCosh(z.re) * mCos(z.im), mSinh(z.re) * mSin(z.im) }, sh{ mSinh(z.re) * mCos(z.im), mCosh(z.re) * mSin(z.im) };
	Q const C = absC(ch);
	Q sc, dsc;
	if (az < Q(1e-3)) { sc = 1; dsc = 1 / (Q)6; }
	else
	{
		sc = absC(sh) / az;
		dsc = (C + sc) / (2 * az * az);
		if (az < 1) dsc = 1 / (Q)3;
	}
	Q const K = share * 64 * (Q)EPS;
	Q const t0 = K * es * (C + sc * f2), t1 = K * es * (sc * F + dsc * F * F * F);
	for (int i = 0; i < 8; ++i)
	{
		Q const tol = (i == 0 || i == 7) ? t0 : t1;
		if (!(rabs((Q)at(got, i) - w.c[i]) <= tol + Q(1e-290)))
		{
			x.viol("exp(%s): component %d is %.17g want %.17g tol %.3g", show(m).c_str(), i, at(got, i), (double)w.c[i], (double)tol);
			return false;
		}
	}
	return true;
}
bool checkExpM(Val const & m, Val const & got, Ctx & x)
{
	Ctx y;
	if (checkExpIn<LD>(m, got, y, .5L)) return true;
	return checkExpIn<Q>(m, got, x, 1);
}
}
static void expm()
{
	Dom const d{ 1e-140, 30., true };
	Gen const gen = [](Case & c, Rng & r) {
		Val & a = c.a[0];
		switch (r.below(12))
		{
			case 0: // nilpotent vector+bivector
			{
				for (double & z : a.c) z = 0.;
				double const k = std::ldexp(r.range(1, 9), r.range(-6, 1));
				int const i = r.below(3), j = (i + 1 + r.below(2)) % 3;
				a.c[1 + i] = k * r.sgn(); a.c[4 + j] = k * r.sgn();
				if (r.chance(.4)) { a.c[0] = r.sym(); a.c[7] = r.sym() * 3.; }
				break;
			}
			case 1: // bivector parallel to the vector
				for (int i = 1; i < 4; ++i) { a.c[i] = r.sym() * 3.; a.c[i + 3] = a.c[i]; }
				{ double const k = r.sym() * 2.; for (int i = 4; i < 7; ++i) a.c[i] *= k; }
				break;
			case 2: // nearly nilpotent
			{
				for (double & z : a.c) z = 0.;
				double const k = r.uni() * 5.;
				int const i = r.below(3), j = (i + 1 + r.below(2)) % 3;
				a.c[1 + i] = k; a.c[4 + j] = k * (1. + r.sym() * std::pow(10., -r.range(1, 14)));
				break;
			}
			case 3: // single grade
			{
				int const g = r.below(4);
				for (int i = 0; i < 8; ++i) if (gradeOf(i) != g) a.c[i] = 0.;
				if (g == 1 || g == 2) setSize(a.c + (g == 1 ? 1 : 4), 3, angle(r, 28.));
				else a.c[g == 0 ? 0 : 7] = g == 3 ? angle(r, 29.) * r.sgn() : r.sym() * 29.;
				break;
			}
			case 4: // two grades only
			{
				int const g = r.below(4), h = r.below(4);
				for (int i = 0; i < 8; ++i) { a.c[i] = (gradeOf(i) == g || gradeOf(i) == h) ? r.sym() * 6. : 0.; }
				break;
			}
			case 5: // small
				for (double & z : a.c) z = r.sym() * std::pow(10., -r.range(1, 12));
				break;
			default: break;
		}
		LD const m = magLd(a);
		if (m > 30) for (double & z : a.c) z = (double)(z * (29. * r.uni() + .5) / m);
		for (double & z : a.c) if (!c.s->dom.has(z)) z = 0.;
	};
	scen("C10", "exp MultiVector", { MV }, d, [](Case const & c, Ctx & x) {
		if (!caseIn(c) || magLd(c.a[0]) > 30.5L) return false;
		Val const & a = c.a[0];
		Val const r = op(sut.exp[MV], a);
		if (isZero(a)) { for (int i = 0; i < 8; ++i) if (at(r, i) != (i == 0 ? 1. : 0.)) OPV("exp of zero is %s", show(r).c_str()); return true; }
		if (!checkExpM(a, r, x)) return true;
		Val const n = op(sut.exp[MV], negOf(a));
		Val const p = op(sut.mul[MV][MV], r, n);
		Ref<LD> const A = rl(r), N = rl(n);
		LD const sz = sqrtl(A.magSq() * N.magSq());
		LD const mm = magLd(a);
		if (!close(p, Ref<LD>::scalar(1), 256 * EPS * sz * (1 + mm * mm))) OPV("exp(M)*exp(-M) = %s", show(p).c_str());
		// same as the specialised functions
		if (a.c[1] == 0. && a.c[2] == 0. && a.c[3] == 0. && a.c[7] == 0.)
		{
			Val const s = op(sut.exp[SP], mk(SP, { a.c[0], a.c[4], a.c[5], a.c[6] }));
			if (!closeV(s, r, 200 * EPS * (1 + mm) * (LD)std::exp(a.c[0]))) OPV("exp of Spinor is %s, as MultiVector %s", show(s).c_str(), show(r).c_str());
			if (a.c[0] == 0.)
			{
				Val const b = op(sut.exp[B], mk(B, { a.c[4], a.c[5], a.c[6] }));
				if (!closeV(b, r, 200 * EPS * (1 + mm))) OPV("exp of BiVector is %s, as MultiVector %s", show(b).c_str(), show(r).c_str());
			}
		}
		return true;
	}, 1., gen);
	scen("C10", "exp MultiVector not valid", { MV }, d, [](Case const & c, Ctx & x) {
		Rng r(c.seed);
		Val a = c.a[0];
		invalidate(a, r, false);
		Val const e = op(sut.exp[MV], a);
		if (okVal(e)) OPV("exp of %s is the valid %s", show(a).c_str(), show(e).c_str());
		return true;
	}, .12);
}

//
// C11, C12
//
static void spinorGen(Case & c, Rng & r)
{
	Val & s = c.a[0];
	double const mag = r.chance(.6) ? 1. : std::pow(10., r.range(-11, 11)) * (1. + r.uni());
	double u[3]{ r.sym(), r.sym(), r.sym() };
	switch (r.below(4))
	{
		case 0: u[0] = u[1] = u[2] = 0.; u[r.below(3)] = r.sgn(); break;
		case 1: u[r.below(3)] = 0.; break;
		default: break;
	}
	setSize(u, 3, 1.);
	double a;
	switch (r.below(9))
	{
		case 0: a = PI * r.range(0, 12) / 12.; break;
		case 1: a = std::pow(10., -r.range(1, 17)) * (1. + r.uni()); break;
		case 2: a = PI - std::pow(10., -r.range(1, 17)) * (1. + r.uni()); break;
		case 3: a = PI / 2 + r.sym() * std::pow(10., -r.range(1, 16)); break;
		default: a = r.uni() * PI; break;
	}
	uint32_t const m = r.below(100);
	if (m < 70)
	{
		s.c[0] = mag * std::cos(a);
		double si = mag * std::sin(a);
		if (r.chance(.06)) si = 0.;
		if (r.chance(.05)) s.c[0] = 0.;
		for (int i = 0; i < 3; ++i) s.c[1 + i] = si * u[i];
	}
	else if (m < 78)
	{
		for (int i = 0; i < 4; ++i) s.c[i] = 0.;
		s.c[0] = mag * r.sgn();
		if (r.chance(.3)) for (int i = 1; i < 4; ++i) s.c[i] = r.chance(.5) ? -0. : s.c[i];
		if (r.chance(.3)) s.c[1 + r.below(3)] = mag * std::pow(10., -r.range(5, 60)) * r.sgn();
	}
	for (int i = 0; i < 4; ++i) if (!c.s->dom.has(s.c[i])) s.c[i] = 0.;
}
// log and root of a spinor with the given plane (null pointer: default)
static bool checkLog(Val const & s, Val const * plane, Val const & g, Ctx & x)
{
	Q const s0 = s.c[0];
	Q b2 = 0;
	for (int i = 1; i < 4; ++i) b2 += (Q)s.c[i] * s.c[i];
	Q const b = sqrtq(b2), m = sqrtq(b2 + s0 * s0), ln = logq(m), th = atan2q(b, s0);
	if (!okVal(g)) { x.viol("log is not valid: %s", show(g).c_str()); return false; }
	if (!(qabs((Q)at(g, 0) - ln) <= 16 * (Q)EPS * (1 + qabs(ln)))) { x.viol("log scalar part %.17g want %.17g", at(g, 0), (double)ln); return false; }
	Q u[3]{};
	Q const hp = M_PIq;
	Q const near = 1e-7Q;
	if (b == 0)
	{
		if (s0 < 0)
		{
			Q p[3]{ 1, 0, 0 };
			if (plane) { Q n = 0; for (int i = 0; i < 3; ++i) n += (Q)plane->c[i] * plane->c[i]; n = sqrtq(n); for (int i = 0; i < 3; ++i) p[i] = plane->c[i] / n; }
			for (int i = 0; i < 3; ++i)
				if (!(qabs((Q)at(g, 4 + i) - hp * p[i]) <= 16 * (Q)EPS * hp * qabs(p[i])))
				{ x.viol("log of a negative scalar: component %d is %.17g want %.17g", i, at(g, 4 + i), (double)(hp * p[i])); return false; }
		}
		else for (int i = 0; i < 3; ++i)
			if (!(at(g, 4 + i) == 0.)) { x.viol("log of a positive scalar has bivector component %.17g", at(g, 4 + i)); return false; }
		return true;
	}
	for (int i = 0; i < 3; ++i) u[i] = s.c[1 + i] / b;
	if (th >= near && th <= hp - near)
	{
		for (int i = 0; i < 3; ++i)
			if (!(qabs((Q)at(g, 4 + i) - th * u[i]) <= 32 * (Q)EPS * th * qabs(u[i])))
			{ x.viol("log bivector component %d is %.17g want %.17g", i, at(g, 4 + i), (double)(th * u[i])); return false; }
	}
	else
	{
		Q n = 0;
		for (int i = 0; i < 3; ++i) n += (Q)at(g, 4 + i) * at(g, 4 + i);
		n = sqrtq(n);
		if (!(qabs(n - th) <= near) || !(n <= hp * (1 + 16 * (Q)EPS))) { x.viol("turn angle %.17g want %.17g", (double)n, (double)th); return false; }
	}
	return true;
}
static bool farFromScalar(Val const & s)
{
	Q b2 = 0;
	for (int i = 1; i < 4; ++i) b2 += (Q)s.c[i] * s.c[i];
	Q const th = atan2q(sqrtq(b2), qabs((Q)s.c[0]));
	return th >= 1e-7Q;
}
static bool bivZero(Val const & s) { return s.c[1] == 0. && s.c[2] == 0. && s.c[3] == 0.; }
static void logs()
{
	Dom const d{ 1e-140, 1e12, true };
	for (int pl = 0; pl < 2; ++pl)
	{
		Dom dd = d;
		std::vector<int> tags{ SP };
		if (pl) tags.push_back(B);
		char const * const sfx = pl ? " plane given" : "";
		// the plane argument: any nonzero size
		Gen const gen = [](Case & c, Rng & r) {
			spinorGen(c, r);
			if (c.n > 1)
			{
				c.alias = false;
				Dom const p{ 1e-140, 1e140, true };
				c.a[1] = entity(r, B, p);
				if (r.chance(.5)) setSize(c.a[1].c, 3, std::pow(10., r.range(-130, 130)));
				if (r.chance(.2)) for (int i = 0; i < 3; ++i) c.a[1].c[i] = c.a[0].c[1 + i];
				for (int i = 0; i < 3; ++i) if (!p.has(c.a[1].c[i])) c.a[1].c[i] = 0.;
				if (isZero(c.a[1])) c.a[1].c[r.below(3)] = r.sgn();
			}
		};
		auto dom = [pl, d](Case const & c) {
			Dom const p{ 1e-140, 1e140, true };
			if (!inDom(c.a[0], d) || (pl && (!inDom(c.a[1], p) || isZero(c.a[1])))) return false;
			LD const m = magLd(c.a[0]);
			return m >= 1e-12L && m <= 1e12L;
		};
		scen("C11", std::string("logG2") + sfx, tags, dd, [pl, dom](Case const & c, Ctx & x) {
			if (!dom(c)) return false;
			Val const & s = c.a[0];
			Val const g = pl ? op(sut.logG2p, s, c.a[1]) : op(sut.logG2, s);
			if (!checkLog(s, pl ? &c.a[1] : nullptr, g, x)) return true;
			LD const m = magLd(s), ln = fabsl(logl(m));
			Val const e = op(sut.exp[SP], g);
			bool const sharp = bivZero(s) || farFromScalar(s);
			if (!close(e, rl(s), (sharp ? 64 * EPS * (1 + ln) : 1e-7L) * m)) OPV("exp(log) is %s, log %s", show(e).c_str(), show(g).c_str());
			return true;
		}, 4., gen);
		scen("C12", std::string("sqrtG2") + sfx, tags, dd, [pl, dom](Case const & c, Ctx & x) {
			if (!dom(c)) return false;
			Val const & s = c.a[0];
			Val const r = pl ? op(sut.sqrtG2p, s, c.a[1]) : op(sut.sqrtG2, s);
			LD const m = magLd(s), ln = fabsl(logl(m)), rm = sqrtl(m);
			if (!okVal(r)) OPV("root is not valid: %s", show(r).c_str());
			Val const q = op(sut.mul[SP][SP], r, r);
			bool const sharp = bivZero(s) || farFromScalar(s);
			if (!close(q, rl(s), (sharp ? 64 * EPS * (1 + ln) : 1e-7L) * m)) OPV("root %s squared is %s", show(r).c_str(), show(q).c_str());
			if (!(fabsl(magLd(r) - rm) <= 64 * EPS * (1 + ln) * rm)) OPV("root %s has magnitude %.17Lg want %.17Lg", show(r).c_str(), magLd(r), rm);
			if (!(at(r, 0) >= -8 * EPS * (double)rm)) OPV("root has scalar part %.17g", at(r, 0));
			if (bivZero(s))
			{
				LD u[3]{ 0, 0, 0 };
				if (s.c[0] < 0)
				{
					u[0] = 1;
					if (pl) { LD const n = magLd(c.a[1]); for (int i = 0; i < 3; ++i) u[i] = c.a[1].c[i] / n; }
				}
				for (int i = 0; i < 3; ++i)
					if (!(fabsl(at(r, 4 + i) - rm * u[i]) <= 64 * EPS * (1 + ln) * rm * fabsl(u[i]))) OPV("root of a pure scalar: bivector component %d is %.17g want %.17Lg", i, at(r, 4 + i), rm * u[i]);
			}
			else if (sharp)
			{
				Q b2 = 0;
				for (int i = 1; i < 4; ++i) b2 += (Q)s.c[i] * s.c[i];
				Q const b = sqrtq(b2), h = atan2q(b, (Q)s.c[0]) / 2, R = sqrtq(sqrtq(b2 + (Q)s.c[0] * s.c[0]));
				Q const k = 64 * (Q)EPS * (1 + (Q)ln);
				if (!(qabs((Q)at(r, 0) - R * cosq(h)) <= k * R)) OPV("root scalar part %.17g want %.17g", at(r, 0), (double)(R * cosq(h)));
				for (int i = 0; i < 3; ++i)
				{
					Q const w = R * sinq(h) * (s.c[1 + i] / b);
					if (!(qabs((Q)at(r, 4 + i) - w) <= k * qabs(w))) OPV("root bivector component %d is %.17g want %.17g", i, at(r, 4 + i), (double)w);
				}
			}
			return true;
		}, 4., gen);
		// not valid arguments, zero
		scen("C11", std::string("logG2 not valid") + sfx, tags, dd, [pl](Case const & c, Ctx & x) {
			Rng r(c.seed);
			Val s = c.a[0];
			if (r.chance(.1)) s = mk(SP, { r.sgn() * 0., 0., 0., 0. });
			else invalidate(s, r, false);
			Val const g = pl ? op(sut.logG2p, s, c.a[1]) : op(sut.logG2, s);
			if (okVal(g)) OPV("log of %s is the valid %s", show(s).c_str(), show(g).c_str());
			return true;
		}, .6, gen);
		scen("C12", std::string("sqrtG2 not valid") + sfx, tags, dd, [pl](Case const & c, Ctx & x) {
			Rng r(c.seed);
			Val s = c.a[0];
			bool const z = r.chance(.1);
			if (z) s = mk(SP, { r.sgn() * 0., 0., 0., r.sgn() * 0. });
			else invalidate(s, r, false);
			Val const g = pl ? op(sut.sqrtG2p, s, c.a[1]) : op(sut.sqrtG2, s);
			if (z) { if (!isZero(g)) OPV("root of zero is %s", show(g).c_str()); }
			else if (okVal(g)) OPV("root of %s is the valid %s", show(s).c_str(), show(g).c_str());
			return true;
		}, .6, gen);
	}
}

//
// C13
//
namespace {
struct Mat { LD m[3][3]; };
// rotation of vectors by reverse(R) x R, R = exp(A/2): right handed by |A| about the dual of A
Mat rodrigues(double const * A, int sense)
{
	LD th = 0;
	for (int i = 0; i < 3; ++i) th += (LD)A[i] * A[i];
	th = sqrtl(th);
	Mat r;
	for (auto & row : r.m) for (LD & z : row) z = 0;
	if (th == 0) { for (int i = 0; i < 3; ++i) r.m[i][i] = 1; return r; }
	Q const tq = th;
	LD const c = (LD)cosq(tq), s = (LD)sinq(tq) * sense;
	LD k[3];
	for (int i = 0; i < 3; ++i) k[i] = A[i] / th;
	LD const x[3][3]{ { 0, -k[2], k[1] }, { k[2], 0, -k[0] }, { -k[1], k[0], 0 } };
	// 1-c computed without cancellation
	LD const sh = (LD)sinq(tq / 2), v = 2 * sh * sh;
	(void)c;
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
		r.m[i][j] = (i == j ? 1.L : 0.L) + s * x[i][j] + v * (k[i] * k[j] - (i == j ? 1.L : 0.L));
	return r;
}
Mat mulM(Mat const & a, Mat const & b)
{
	Mat r;
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.m[i][j] = 0; for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; }
	return r;
}
// the rotated Val: vectors and bivectors turn alike, scalars and trivectors stay
Ref<LD> turn(Mat const & m, Ref<LD> const & v)
{
	Ref<LD> r = v;
	for (int o : { 1, 4 })
		for (int i = 0; i < 3; ++i) { r.c[o + i] = 0; for (int k = 0; k < 3; ++k) r.c[o + i] += m.m[i][k] * v.c[o + k]; }
	return r;
}
Val sandwich(Val const & L, Val const & x, Val const & R)
{
	Val const lx = op(sut.mul[L.t][x.t], L, x);
	return op(sut.mul[lx.t][R.t], lx, R);
}
}
static void rotations()
{
	Dom const da{ 1e-100, 1e3, true };
	Dom const dx{ 1e-100, 1e100, true };
	for (int t = 1; t < NTAG; ++t)
		scen("C13", std::string("rotate ") + tagName(t), { B, t }, da, [dx](Case const & c, Ctx & x) {
			if (!inDom(c.a[0], c.s->dom) || !inDom(c.a[1], dx)) return false;
			Val const & A = c.a[0];
			Val const & v = c.a[1];
			LD const th = magLd(A);
			if (th > 1.01e3L) return false;
			Val const half = scaled(A, .5);
			Val const R = op(sut.exp[B], half), Rr = op(sut.rev[R.t], R);
			LD const size = magLd(v), tol = 64 * EPS * (1 + th) * size + 1e-200L;
			for (int sense = 1; sense >= -1; sense -= 2)
			{
				Mat const m = rodrigues(A.c, sense);
				Ref<LD> const w = turn(m, rl(v));
				Val const y = sense > 0 ? sandwich(Rr, v, R) : sandwich(R, v, Rr);
				if (!close(y, w, tol)) OPV("%s turns to %s want %s", sense > 0 ? "reverse(R)xR" : "R x reverse(R)", show(y).c_str(), showRef(w).c_str());
				// undo
				Val const z = sense > 0 ? sandwich(R, y, Rr) : sandwich(Rr, y, R);
				if (!close(z, rl(v), 64 * EPS * size + 1e-200L)) OPV("turning back gives %s", show(z).c_str());
				// -R acts alike
				Val const N = op(sut.neg[R.t], R), Nr = op(sut.rev[N.t], N);
				Val const y2 = sense > 0 ? sandwich(Nr, v, N) : sandwich(N, v, Nr);
				if (!closeV(y2, y, 32 * EPS * size + 1e-200L)) OPV("-R gives %s, R gives %s", show(y2).c_str(), show(y).c_str());
				LD const ms = magLd(y);
				if (!(fabsl(ms - size) <= 64 * EPS * size + 1e-200L)) OPV("magnitude %.17Lg became %.17Lg", size, ms);
			}
			// the plane is fixed
			LD const ma = th;
			Val const p = sandwich(R, A, Rr);
			if (!close(p, rl(A), 64 * EPS * ma + 1e-200L)) OPV("plane of rotation moved to %s", show(p).c_str());
			return true;
		}, t <= T ? 2. : 1., [dx](Case & c, Rng & r) {
			if (r.chance(.6)) setSize(c.a[0].c, 3, angle(r, 1e3));
			if (r.chance(.2)) { for (int i = 0; i < 3; ++i) c.a[0].c[i] = 0.; c.a[0].c[r.below(3)] = angle(r, 1e3) * r.sgn(); }
			if (r.chance(.7)) c.a[1] = entity(r, c.a[1].t, dx);
			for (int i = 0; i < 3; ++i) if (!c.s->dom.has(c.a[0].c[i])) c.a[0].c[i] = 0.;
			for (int i = 0; i < nComp(c.a[1].t); ++i) if (!dx.has(c.a[1].c[i])) c.a[1].c[i] = 0.;
		});
	// README frame transform, chained, with moments carried along
	scen("C13", "frame chain", { V, V, B }, Dom{ 1e-6, 1e6, true }, [](Case const & c, Ctx & x) {
		if (!caseIn(c)) return false;
		Rng r(c.seed);
		int const n = 1 + r.below(30);
		Val p = c.a[0], f = c.a[1], tq = c.a[2];
		Ref<LD> P = rl(p), F = rl(f), TQ = rl(tq);
		Val acc = mk(SP, { 1., 0., 0., 0. });
		Mat M = rodrigues(mk(B, { 0., 0., 0. }).c, 1);
		LD size = magLd(p), fs = magLd(f), ts = magLd(tq), budget = 0;
		for (int k = 0; k < n; ++k)
		{
			Val A = mk(B, { r.sym(), r.sym(), r.sym() });
			if (r.chance(.2)) { A.c[0] = A.c[1] = A.c[2] = 0.; A.c[r.below(3)] = PI / 2 * r.range(-4, 4); }
			else setSize(A.c, 3, angle(r, 10.));
			Val const off = mk(V, { r.sym() * 10., r.sym() * 10., r.sym() * 10. });
			Val const R = op(sut.exp[B], op(sut.mul[D][B], mk(D, { .5 }), A)), Rr = op(sut.rev[SP], R);
			Val const d = op(sut.sub[V][V], p, off);
			Val const y = sandwich(R, d, Rr);
			Mat const m = rodrigues(A.c, -1);
			P = turn(m, P - rl(off));
			F = turn(m, F); TQ = turn(m, TQ);
			p = project(y, V);
			f = project(sandwich(R, f, Rr), V);
			tq = project(sandwich(R, tq, Rr), B);
			size = std::max(size, magLd(p)) + 20;
			budget += 64 * (1 + magLd(A));
			acc = op(sut.mul[SP][SP], R, acc);
			M = mulM(m, M);
			if (!close(p, P, budget * EPS * size)) OPV("step %d: position %s want %s", k, show(p).c_str(), showRef(P).c_str());
			if (!close(f, F, budget * EPS * fs + 1e-200L)) OPV("step %d: vector %s want %s", k, show(f).c_str(), showRef(F).c_str());
			if (!close(tq, TQ, budget * EPS * ts + 1e-200L)) OPV("step %d: bivector %s want %s", k, show(tq).c_str(), showRef(TQ).c_str());
			// moment position x force, as a bivector and as its dual
			Val const mom = project(op(sut.mul[V][V], p, f), B);
			LD const cx[3]{ P.c[2] * F.c[3] - P.c[3] * F.c[2], P.c[3] * F.c[1] - P.c[1] * F.c[3], P.c[1] * F.c[2] - P.c[2] * F.c[1] };
			for (int i = 0; i < 3; ++i)
				if (!(fabsl(mom.c[i] - cx[i]) <= (2 * budget + 64) * EPS * size * fs + 1e-200L)) OPV("step %d: moment component %d is %.17g want %.17Lg", k, i, mom.c[i], cx[i]);
		}
		// the product of the spinors turns like the product of the matrices
		Val const y = sandwich(acc, c.a[0], op(sut.rev[SP], acc));
		if (!close(y, turn(M, rl(c.a[0])), budget * EPS * magLd(c.a[0]) + 1e-200L)) OPV("composed rotation of %s gives %s", show(c.a[0]).c_str(), show(y).c_str());
		// dot products and volumes survive
		Val const a = c.a[0], b = c.a[1];
		Val const ya = project(sandwich(acc, a, op(sut.rev[SP], acc)), V), yb = project(sandwich(acc, b, op(sut.rev[SP], acc)), V);
		Val const ab = op(sut.mul[V][V], a, b), yab = op(sut.mul[V][V], ya, yb);
		if (!(std::fabs(ab.c[0] - yab.c[0]) <= budget * EPS * magLd(a) * magLd(b) + 1e-200L)) OPV("dot product %.17g became %.17g", ab.c[0], yab.c[0]);
		Val const I = sandwich(acc, mk(T, { 1. }), op(sut.rev[SP], acc));
		if (!(fabsl(at(I, 7) - 1.L) <= budget * EPS)) OPV("unit volume became %s", show(I).c_str());
		return true;
	}, 3.);
}
void regExp() { exps(); expm(); logs(); rotations(); }
