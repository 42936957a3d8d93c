// C27..C30: value semantics, geometric constructions, independence of axes
// and units, and functions of promoted values.
#include "scen.hpp"

static Dom const anyD{ 5e-324, 1.7976931348623157e308, true };
static bool sameD(double a, double b) { return (a != a && b != b) || std::memcmp(&a, &b, 8) == 0; }
static bool sameNumber(double a, double b) { return (a != a && b != b) || a == b; }

//
// C27
//
static void values()
{
	for (int t = 0; t < NTAG; ++t)
		scen("C27", std::string("copies of ") + tagName(t), { t, t }, anyD, [t](Case const & c, Ctx & x) {
			Rng r(c.seed);
			auto wild = [&r](Val v) { if (r.chance(.3)) for (int i = 0; i < nComp(v.t); ++i) if (r.chance(.5)) v.c[i] = anyBits(r); return v; };
			Val const v = wild(c.a[0]), w = c.alias ? v : wild(c.a[1]);
			Val o[NCOPIES];
			counters.calls += NCOPIES;
			sut.copies[t](&v, &w, o);
			for (int k = 0; k < NCOPIES; ++k)
			{
				Val const & want = copyOther(k) ? w : v;
				checkDefined(o[k].c, 8 * nComp(t), "copy");
				for (int i = 0; i < nComp(t); ++i) if (!sameD(o[k].c[i], want.c[i])) OPV("%s is %s after %s", show(want).c_str(), show(o[k]).c_str(), copyHow(k));
			}
			return true;
		}, 3.);
	special("C27", "type traits", [](Ctx & x, Rng &) {
		for (int w = 0; w < NTAG; ++w) for (int t = 0; t <= NTAG; ++t)
		{
			bool const want = w == 0 ? t == S || t == V || t == B || t == T : t == w;
			++counters.calls;
			if (sut.trait[w][t] != want) x.viol("is::%s is %s for %s", w == 0 ? "blade" : tagName(w), want ? "false" : "true", t == NTAG ? "a foreign type" : tagName(t));
		}
	});
	// the same call with its result used in other ways
	for (OpRef const & o : allOps())
	{
		std::vector<int> tags{ o.in[0] };
		if (o.n == 2) tags.push_back(o.in[1]);
		OpRef const * p = &o;
		scen("C27", "use of " + o.name, tags, anyD, [p](Case const & c, Ctx & x) {
			Rng r(c.seed);
			Val a = c.a[0], b = c.a[1];
			if (r.chance(.2)) for (int i = 0; i < nComp(a.t); ++i) if (r.chance(.4)) a.c[i] = anyBits(r);
			if (p->n == 2 && r.chance(.2)) for (int i = 0; i < nComp(b.t); ++i) if (r.chance(.4)) b.c[i] = anyBits(r);
			auto run = [&](Val * z) {
				if (p->n == 2) z[0] = op(p->f2, a, c.alias ? a : b);
				else if (p->kind == "pairMagDirFrom") op2out(p->f1, a, z[0], z[1]);
				else z[0] = op(p->f1, a);
			};
			unsigned long const changed = sutArgChanged;
			Val plain[2], other[2];
			sutUse = -1;
			run(plain);
			sutUse = 0;
			static char const * const how[]{ "", "assigned to its first operand", "assigned to its second operand", "held while the function is called again"
				, "computed from temporaries", "computed from variables", "computed from a temporary and a constant", "computed from a constant and a temporary" };
			for (int use = 1; use <= 7; ++use)
			{
				sutUse = use;
				run(other);
				sutUse = 0;
				for (int k = 0; k < 2; ++k)
				{
					if (other[k].t != plain[k].t) OPV("result has another type");
					if (plain[k].t == ERR) continue;
					for (int i = 0; i < nComp(plain[k].t); ++i)
						if (!sameD(plain[k].c[i], other[k].c[i])) OPV("result is %s, but %s when %s", show(plain[k]).c_str(), show(other[k]).c_str(), how[use]);
				}
			}
			if (sutArgChanged != changed) OPV("an operand or an earlier result changed");
			return true;
		}, .12);
	}
}

//
// C28
//
namespace {
struct V3 { LD c[3]; };
V3 v3(Val const & v) { return { { v.c[0], v.c[1], v.c[2] } }; }
LD dot(V3 const & a, V3 const & b) { return a.c[0] * b.c[0] + a.c[1] * b.c[1] + a.c[2] * b.c[2]; }
V3 cross(V3 const & a, V3 const & b) { return { { a.c[1] * b.c[2] - a.c[2] * b.c[1], a.c[2] * b.c[0] - a.c[0] * b.c[2], a.c[0] * b.c[1] - a.c[1] * b.c[0] } }; }
LD len(V3 const & a) { return sqrtl(dot(a, a)); }
Val mul(Val const & a, Val const & b) { return op(sut.mul[a.t][b.t], a, b); }
Val mul(Val const & a, Val const & b, Val const & c) { return mul(mul(a, b), c); }
bool nearV(Val const & g, int from, V3 const & w, LD tol) { for (int i = 0; i < 3; ++i) if (!(fabsl((LD)at(g, from + i) - w.c[i]) <= tol)) return false; return true; }
std::string show3(V3 const & v) { char b[120]; snprintf(b, sizeof b, "(%.17Lg,%.17Lg,%.17Lg)", v.c[0], v.c[1], v.c[2]); return b; }
}
static void geometry()
{
	Dom const d{ 1e-40, 1e40, true };
	scen("C28", "products of vectors", { V, V, V }, d, [](Case const & c, Ctx & x) {
		if (!caseIn(c)) return false;
		Val const & a = c.a[0];
		Val const b = c.alias ? a : c.a[1];
		Val const & q = c.a[2];
		V3 const A = v3(a), B3 = v3(b), C3 = v3(q);
		LD const la = len(A), lb = len(B3), lc = len(C3);
		Val const ab = c.alias ? opSame(sut.mul[V][V], a) : mul(a, b), ba = mul(b, a);
		V3 const cr = cross(A, B3);
		LD const dt = dot(A, B3), t = 16 * EPS * la * lb + 1e-100L;
		if (!(fabsl(at(ab, 0) - dt) <= t) || !(fabsl(at(ba, 0) - dt) <= t)) OPV("scalar part of a*b is %.17g, a.b is %.17Lg", at(ab, 0), dt);
		Val const w = project(ab, B), dw = op(sut.dual[B], w), cp = op(sut.neg[dw.t], dw);
		if (!nearV(cp, 1, cr, t)) OPV("-dual of the bivector of a*b is %s, cross product %s", show(cp).c_str(), show3(cr).c_str());
		if (!nearV(op(sut.neg[B], project(ba, B)), 4, cr, t)) OPV("bivector part of b*a is %s", show(ba).c_str());
		// cos and sin
		LD const m = at(op(sut.mag[ab.t], ab), 0);
		if (!(fabsl(m - la * lb) <= 16 * EPS * la * lb + 1e-100L)) OPV("|a*b| is %.17Lg, |a||b| %.17Lg", m, la * lb);
		// volume of the box
		LD const det = dot(cr, C3);
		Val const abc = mul(ab, q), wc = mul(w, q);
		LD const tv = 64 * EPS * la * lb * lc + 1e-100L;
		if (!(fabsl(at(abc, 7) - det) <= tv) || !(fabsl(at(wc, 7) - det) <= tv)) OPV("trivector of a*b*c is %.17g, determinant %.17Lg", at(abc, 7), det);
		// vector part of (a^b)*c: the contraction a(b.c)-b(a.c)
		V3 k;
		for (int i = 0; i < 3; ++i) k.c[i] = A.c[i] * dot(B3, C3) - B3.c[i] * dot(A, C3);
		if (!nearV(wc, 1, k, tv)) OPV("vector part of (a^b)*c is %s want %s", show(wc).c_str(), show3(k).c_str());
		return true;
	}, 3.);
	scen("C28", "project, reject, reflect", { V, V, B }, d, [](Case const & c, Ctx & x) {
		if (!caseIn(c)) return false;
		Val const & v = c.a[0];
		Val const n = c.alias ? v : c.a[1];
		Val const & b = c.a[2];
		V3 const X = v3(v), N = v3(n), K = v3(b); // K: normal of the plane b
		LD const lv = len(X), ln = len(N), lk = len(K), t = 128 * EPS * lv + 1e-100L;
		if (ln > 0)
		{
			Val const in = op(sut.inv[V], n), vn = mul(v, n);
			LD const f = dot(X, N) / (ln * ln);
			V3 par, perp, refl;
			for (int i = 0; i < 3; ++i) { par.c[i] = f * N.c[i]; perp.c[i] = X.c[i] - par.c[i]; refl.c[i] = perp.c[i] - par.c[i]; }
			Val const p = mul(project(vn, S), in), q = mul(project(vn, B), in);
			if (!nearV(p, 1, par, t)) OPV("projection on the vector is %s want %s", show(p).c_str(), show3(par).c_str());
			if (!nearV(q, 1, perp, t) || !(std::fabs(at(q, 7)) <= t)) OPV("rejection from the vector is %s want %s", show(q).c_str(), show3(perp).c_str());
			if (!closeV(mul(vn, in), v, t)) OPV("(v*n)*inverse(n) is %s", show(mul(vn, in)).c_str());
			if (!closeV(mul(in, mul(n, v)), v, t)) OPV("inverse(n)*(n*v) is %s", show(mul(in, mul(n, v))).c_str());
			Val const u = op(sut.direction[V], n), m = op(sut.neg[V], u), r = mul(m, v, u);
			if (!nearV(r, 1, refl, t) || !(std::fabs(at(r, 7)) <= t)) OPV("-n*v*n is %s, mirror image %s", show(r).c_str(), show3(refl).c_str());
			// bivectors and trivectors in the mirror
			Val const rb = mul(u, b, u);
			V3 kb;
			LD const fk = dot(K, N) / (ln * ln);
			for (int i = 0; i < 3; ++i) kb.c[i] = 2 * fk * N.c[i] - K.c[i]; // axial: n b n
			if (!nearV(rb, 4, kb, 128 * EPS * lk + 1e-100L) || !(std::fabs(at(rb, 0)) <= 128 * EPS * lk + 1e-100L)) OPV("n*B*n is %s want %s", show(rb).c_str(), show3(kb).c_str());
			// two mirrors make a rotation by twice the angle between them
			if (lk > 0)
			{
				Val kv = b; kv.t = V;
				Val const u2 = op(sut.direction[V], kv);
				Val const two = mul(op(sut.neg[V], u2), project(r, V), u2), R = mul(u, u2), S2 = mul(mul(op(sut.rev[R.t], R), v), R);
				if (!closeV(two, S2, 4 * t)) OPV("two reflections give %s, the rotor of their product %s", show(two).c_str(), show(S2).c_str());
			}
		}
		if (lk > 0)
		{
			Val const ib = op(sut.inv[B], b), vb = mul(v, b);
			LD const f = dot(X, K) / (lk * lk);
			V3 in, out;
			for (int i = 0; i < 3; ++i) { out.c[i] = f * K.c[i]; in.c[i] = X.c[i] - out.c[i]; }
			Val const p = mul(project(vb, V), ib), q = mul(project(vb, T), ib);
			if (!nearV(p, 1, in, t) || !(std::fabs(at(p, 7)) <= t)) OPV("projection into the plane is %s want %s", show(p).c_str(), show3(in).c_str());
			if (!nearV(q, 1, out, t)) OPV("rejection from the plane is %s want %s", show(q).c_str(), show3(out).c_str());
		}
		return true;
	}, 3.);
	// the turn from one direction to another
	scen("C28", "align and angle", { V, V }, Dom{ 1e-20, 1e20, true }, [](Case const & c, Ctx & x) {
		if (!caseIn(c)) return false;
		Val const & a = c.a[0];
		Val const b = c.alias ? a : c.a[1];
		V3 const A = v3(a), B3 = v3(b);
		LD const la = len(A), lb = len(B3);
		if (!(la > 0) || !(lb > 0)) return false;
		V3 const cr = cross(A, B3);
		LD const th = atan2l(len(cr), dot(A, B3)), pi = 3.14159265358979323846L;
		Val const ua = op(sut.direction[V], a), ub = op(sut.direction[V], b), P = mul(ua, ub);
		if (!(th <= pi - 1e-6L)) return false;
		Val const g = op(sut.logG2, P), R = op(sut.sqrtG2, P), Rr = op(sut.rev[R.t], R);
		if (!okVal(g) || !okVal(R)) OPV("log %s or root %s of the product of unit vectors %s is not valid", show(g).c_str(), show(R).c_str(), show(P).c_str());
		LD const soft = 1e-7L, tol = th > 1e-6L ? 256 * EPS * (1 + 1 / (pi - th)) : soft;
		if (!(std::fabs(at(g, 0)) <= 64 * EPS)) OPV("log of unit product has scalar part %.17g", at(g, 0));
		LD const size = at(op(sut.mag[B], project(g, B)), 0);
		if (!(fabsl(size - th) <= tol)) OPV("angle between vectors is %.17Lg want %.17Lg", size, th);
		Val const to = mul(mul(Rr, ua), R);
		if (!closeV(to, ub, tol)) OPV("turned direction is %s want %s", show(to).c_str(), show(ub).c_str());
		Val const back = mul(mul(R, ub), Rr);
		if (!closeV(back, ua, tol)) OPV("turned back direction is %s want %s", show(back).c_str(), show(ua).c_str());
		if (th > 1e-3L && th < pi - 1e-3L)
		{
			// part of the way
			Rng r(c.seed);
			double const f = r.chance(.4) ? r.range(0, 4) / 4. : r.uni();
			Val const h = op(sut.exp[SP], mul(mk(D, { f * .5 }), g)), mid = mul(mul(op(sut.rev[SP], h), ua), h);
			LD const s0 = sinl((1 - f) * th) / sinl(th), s1 = sinl(f * th) / sinl(th);
			V3 w;
			for (int i = 0; i < 3; ++i) w.c[i] = s0 * A.c[i] / la + s1 * B3.c[i] / lb;
			if (!nearV(mid, 1, w, 4096 * EPS / sinl(th))) OPV("%.17g of the turn gives %s want %s", f, show(mid).c_str(), show3(w).c_str());
			// the normal of both stays
			LD const lc = len(cr);
			Val const nrm = mk(V, { (double)(cr.c[0] / lc), (double)(cr.c[1] / lc), (double)(cr.c[2] / lc) });
			Val const ns = mul(mul(Rr, nrm), R);
			if (!closeV(ns, nrm, 1024 * EPS / sinl(th))) OPV("normal moved to %s", show(ns).c_str());
		}
		return true;
	}, 2., [](Case & c, Rng & r) {
		if (r.chance(.15)) // nearly parallel
			for (int i = 0; i < 3; ++i) c.a[1].c[i] = c.a[0].c[i] * (1. + r.sym() * std::pow(10., -r.range(1, 15)));
		if (r.chance(.1))
			for (int i = 0; i < 3; ++i) c.a[1].c[i] = -c.a[0].c[i] + r.sym() * std::fabs(c.a[0].c[(i + 1) % 3]) * std::pow(10., -r.range(1, 5));
		for (int i = 0; i < 3; ++i) if (!c.s->dom.has(c.a[1].c[i])) c.a[1].c[i] = 0.;
		if (c.alias) c.a[1] = c.a[0];
	});
	// components along three given directions: ratios of volumes
	scen("C28", "solve by volumes", { V, V, V, V }, Dom{ 1e-10, 1e10, true }, [](Case const & c, Ctx & x) {
		if (!caseIn(c)) return false;
		Val const e[3]{ c.a[0], c.alias ? c.a[0] : c.a[1], c.a[2] };
		Val const & v = c.a[3];
		V3 const E[3]{ v3(e[0]), v3(e[1]), v3(e[2]) };
		LD const det = dot(cross(E[0], E[1]), E[2]), sz = len(E[0]) * len(E[1]) * len(E[2]);
		if (!(fabsl(det) > 1e-6L * sz)) return false;
		auto vol = [](Val const & p, Val const & q, Val const & s) { return project(mul(p, q, s), T); };
		Val const box = vol(e[0], e[1], e[2]), ib = op(sut.inv[T], box);
		LD const k = sz / fabsl(det);
		Val sum = mk(V, { 0, 0, 0 });
		for (int i = 0; i < 3; ++i)
		{
			Val f[3]{ e[0], e[1], e[2] };
			f[i] = v;
			Val const co = mul(vol(f[0], f[1], f[2]), ib);
			if (!hasIdx(co.t, 0)) OPV("ratio of volumes has type %s", tagName(co.t));
			V3 F[3]{ E[0], E[1], E[2] };
			F[i] = v3(v);
			LD const w = dot(cross(F[0], F[1]), F[2]) / det, s = len(F[0]) * len(F[1]) * len(F[2]) / fabsl(det);
			if (!(fabsl(at(co, 0) - w) <= 512 * EPS * (s + fabsl(w) * k) + 1e-200L)) OPV("coefficient %d is %.17g want %.17Lg", i, at(co, 0), w);
			sum = project(op(sut.add[V][V], sum, project(mul(project(co, S), e[i]), V)), V);
		}
		LD big = 0;
		for (int i = 0; i < 3; ++i) big = std::max(big, len(E[i]));
		LD small = big;
		for (int i = 0; i < 3; ++i) small = std::min(small, len(E[i]));
		if (!closeV(sum, v, 4096 * EPS * k * k * (big / small) * len(v3(v)) + 1e-200L)) OPV("sum of components is %s, not %s", show(sum).c_str(), show(v).c_str());
		return true;
	}, 1.);
}

//
// C29
//
namespace {
struct Frame { LD m[3][3]; int det; bool exact; };
Frame frame(Rng & r)
{
	Frame f;
	f.det = 1;
	f.exact = r.chance(.6);
	for (auto & row : f.m) for (LD & z : row) z = 0;
	if (f.exact)
	{
		int p[3]{ 0, 1, 2 };
		for (int i = 2; i > 0; --i) { int const j = r.below(i + 1); if (j != i) { std::swap(p[i], p[j]); f.det = -f.det; } }
		for (int i = 0; i < 3; ++i) { int const s = r.chance(.5) ? 1 : -1; f.m[i][p[i]] = s; f.det *= s; }
		return f;
	}
	// from a random quaternion
	LD q[4], n = 0;
	for (LD & z : q) { z = r.sym(); n += z * z; }
	if (n < 1e-4L) { q[0] = 1; q[1] = q[2] = q[3] = 0; n = 1; }
	n = 2 / n;
	LD const w = q[0], a = q[1], b = q[2], c = q[3];
	LD const m[3][3]{ { 1 - n * (b * b + c * c), n * (a * b - c * w), n * (a * c + b * w) }
		, { n * (a * b + c * w), 1 - n * (a * a + c * c), n * (b * c - a * w) }
		, { n * (a * c - b * w), n * (b * c + a * w), 1 - n * (a * a + b * b) } };
	f.det = r.chance(.5) ? 1 : -1;
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) f.m[i][j] = f.det * m[i][j];
	return f;
}
// the value as seen in the other frame: vectors turn, bivectors as axial vectors, trivectors change sign with the handedness
Ref<LD> seen(Frame const & f, Val const & v)
{
	Ref<LD> const x = rl(v);
	Ref<LD> y;
	y.c[0] = x.c[0]; y.c[7] = x.c[7] * f.det;
	for (int o : { 1, 4 }) for (int i = 0; i < 3; ++i)
	{
		for (int j = 0; j < 3; ++j) if (f.m[i][j] != 0) y.c[o + i] += f.m[i][j] * x.c[o + j];
		if (o == 4) y.c[o + i] *= f.det;
	}
	return y;
}
Val seenVal(Frame const & f, Val const & v)
{
	Ref<LD> const y = seen(f, v);
	Val r;
	r.t = v.t;
	for (int k = 0; k < nComp(v.t); ++k) r.c[k] = (double)y.c[mvIdx(v.t, k)];
	return r;
}
// error allowed to an operation's result when its operands are off by `in`
// rounding errors of their own size; negative: leave the case out
LD slack(OpRef const & o, Val const & a, Val const & b, LD in)
{
	LD const la = magLd(a), lb = o.n == 2 ? magLd(b) : 0, K = (32 + 16 * in) * EPS;
	std::string const & k = o.kind;
	if (k == "*") return K * la * lb;
	if (k == "+" || k == "-") return in * 8 * EPS * (la + lb);
	if (k == "neg" || k == "reverse" || k == "oddverse" || k == "dirverse" || k == "dual" || k == "promote") return in * 8 * EPS * la;
	if (k == "sq") return K * la * la;
	if (k == "cube") return 4 * K * la * la * la;
	if (k == "magSq" || k == "ampSq") return 2 * K * la * la;
	if (k == "magnitude") return K * la;
	if (k == "direction") return la > 0 ? K : -1;
	auto kappa = [&]() {
		Ref<LD> const r = rl(a), s = r * rdir(r);
		LD const n = sqrtl(s.c[0] * s.c[0] + s.c[7] * s.c[7]);
		return n > 0 ? la * la / n : INFINITY * 1.L;
	};
	if (k == "amplitude")
	{
		// the root is well conditioned away from zero
		Ref<LD> const r = rl(a), s = r * rdir(r);
		LD const n = sqrtl(s.c[0] * s.c[0] + s.c[7] * s.c[7]);
		if (!(n > 1e-6L * la * la)) return -1;
		return 8 * K * la * la / sqrtl(n);
	}
	if (k == "inverse")
	{
		if (!(la > 0)) return -1;
		LD const q = kappa();
		if (!(q * q * EPS < 1e-5L)) return -1;
		return 16 * K * q * q / la;
	}
	if (k == "exp")
	{
		if (a.t == B) return 8 * K * (1 + la);
		if (a.t == SP) return 8 * K * (1 + la) * expl(a.c[0]);
		return 16 * K * expl(la) * (1 + la);
	}
	if (k == "logG2" || k == "logG2(plane)" || k == "sqrtG2" || k == "sqrtG2(plane)")
	{
		LD b2 = 0;
		for (int i = 1; i < 4; ++i) b2 += (LD)a.c[i] * a.c[i];
		LD const th = atan2l(sqrtl(b2), a.c[0]), ln = fabsl(logl(la));
		if (!(la >= 1e-11L && la <= 1e11L) || !(th > 1e-6L && th < 3.14159L)) return -1;
		return 16 * K * (1 + ln) * (k[0] == 's' ? sqrtl(la) : 1.L);
	}
	return -1;
}
// Where the new axes are the old ones (reordered, turned round) every
// component is a sum of the same terms as before, so that rounding is in
// proportion to those terms, component by component.
bool termSlack(OpRef const & o, Val const & a, Val const & b, LD in, LD * tol)
{
	std::string const & k = o.kind;
	LD const K = (32 + 16 * in) * EPS;
	Ref<LD> const x = rl(a);
	Ref<LD> y;
	if (k == "*") y = x * rl(b);
	else if (k == "sq") y = x * x;
	else if (k == "cube") y = x * x * x;
	else if (k == "ampSq") y = x * rdir(x);
	else if (k == "magSq") { for (LD const & q : x.c) y.a[0] += q * q; }
	else if (k == "magnitude") y.a[0] = magLd(a);
	else if (k == "direction" || (k == "inverse" && a.t <= T && a.t != D))
	{
		LD const m = magLd(a);
		if (!(m > 0)) return false;
		for (int i = 0; i < 8; ++i) y.a[i] = fabsl(x.c[i]) / (k[0] == 'd' ? m : m * m);
	}
	else return false;
	for (int i = 0; i < 8; ++i) tol[i] = K * y.a[i] + 1e-250L;
	return true;
}
bool closeTerms(Val const & v, Ref<LD> const & want, LD const * tol)
{
	Ref<LD> const x = rl(v);
	for (int i = 0; i < 8; ++i) if (!(fabsl(x.c[i] - want.c[i]) <= tol[i])) return false;
	return true;
}
// at the cut of the root rounding may choose either sign
bool eitherRoot(OpRef const & o, Val const & a)
{
	if (o.kind != "amplitude") return false;
	Ref<LD> const r = rl(a), s = r * rdir(r);
	return s.c[0] < 0 && !(fabsl(s.c[7]) > 1e-6L * fabsl(s.c[0]));
}
// power of the unit in the result, per operation
bool degree(OpRef const & o, int & p)
{
	std::string const & k = o.kind;
	if (k == "*") p = 2;
	else if (k == "+" || k == "-" || k == "neg" || k == "reverse" || k == "oddverse" || k == "dirverse" || k == "dual" || k == "promote" || k == "magnitude" || k == "amplitude") p = 1;
	else if (k == "sq" || k == "magSq" || k == "ampSq") p = 2;
	else if (k == "cube") p = 3;
	else if (k == "direction") p = 0;
	else if (k == "inverse") p = -1;
	else return false;
	return true;
}
}
static void frames()
{
	for (OpRef const & o : allOps())
	{
		OpRef const * p = &o;
		Val tmp;
		if (o.kind == "pairMagDirFrom" || o.kind == "MultiVector(ComPlex,DirPlex)" || o.kind == "MultiVector(8)" || o.kind == "ComPlex::from" || o.kind == "complex(ComPlex)") continue;
		std::vector<int> tags{ o.in[0] };
		if (o.n == 2) tags.push_back(o.in[1]);
		bool const ex = o.kind == "exp", lg = o.kind[0] == 'l' || o.kind.compare(0, 3, "sqr") == 0;
		Dom const d = ex ? Dom{ 1e-50, 3., true } : lg ? Dom{ 1e-12, 1e10, true } : Dom{ 1e-30, 1e30, true };
		double const w = o.n == 2 ? .2 : 1.;
		scen("C29", "axes " + o.name, tags, d, [p](Case const & c, Ctx & x) {
			if (!caseIn(c)) return false;
			Rng r(c.seed);
			Frame const f = frame(r);
			Val const & a = c.a[0];
			Val const b = p->n == 2 ? (c.alias ? a : c.a[1]) : a;
			LD const tol = slack(*p, a, b, f.exact ? 0 : 1);
			if (!(tol >= 0)) return false;
			if (p->kind.size() > 8 && p->kind.compare(p->kind.size() - 7, 7, "(plane)") == 0 && isZero(b)) return false;
			Val const fa = seenVal(f, a), fb = seenVal(f, b);
			Val y, z;
			if (p->n == 2)
			{
				y = c.alias ? opSame(p->f2, a) : op(p->f2, a, b);
				z = c.alias ? opSame(p->f2, fa) : op(p->f2, fa, fb);
			}
			else { y = op(p->f1, a); z = op(p->f1, fa); }
			Ref<LD> want = seen(f, y);
			if (p->kind == "dual" && f.det < 0) want = rneg(want);
			if (z.t != y.t) OPV("result has another type");
			if (!okVal(y) && !okVal(z)) return true;
			if (!close(z, want, tol + 1e-250L) && !(eitherRoot(*p, a) && close(z, rneg(want), tol + 1e-250L)))
				OPV("%s gives %s; in the frame (%.3Lg,%.3Lg,%.3Lg/%.3Lg,%.3Lg,%.3Lg/%.3Lg,%.3Lg,%.3Lg) it gives %s want %s (tolerance %.3Lg)", p->name.c_str(), show(y).c_str()
					, f.m[0][0], f.m[0][1], f.m[0][2], f.m[1][0], f.m[1][1], f.m[1][2], f.m[2][0], f.m[2][1], f.m[2][2], show(z).c_str(), showRef(want).c_str(), tol);
			LD part[8];
			if (f.exact && okVal(y) && okVal(z) && termSlack(*p, fa, fb, 0, part) && !closeTerms(z, want, part))
				OPV("%s gives %s; with axes (%.3Lg,%.3Lg,%.3Lg/%.3Lg,%.3Lg,%.3Lg/%.3Lg,%.3Lg,%.3Lg) it gives %s want %s", p->name.c_str(), show(y).c_str()
					, f.m[0][0], f.m[0][1], f.m[0][2], f.m[1][0], f.m[1][1], f.m[1][2], f.m[2][0], f.m[2][1], f.m[2][2], show(z).c_str(), showRef(want).c_str());
			return true;
		}, w);
		int deg = 0;
		if (!degree(o, deg)) continue;
		scen("C29", "units " + o.name, tags, d, [p, deg](Case const & c, Ctx & x) {
			if (!caseIn(c)) return false;
			Rng r(c.seed);
			double const k = std::ldexp(1., r.chance(.5) ? r.range(-3, 3) : r.range(-60, 60)) * (r.chance(.5) ? 1. : 1. + r.uni());
			Val const & a = c.a[0];
			Val const b = p->n == 2 ? (c.alias ? a : c.a[1]) : a;
			LD const tol = slack(*p, a, b, 1);
			if (!(tol >= 0)) return false;
			Val const ka = scaled(a, k), kb = scaled(b, k);
			LD const kl = powl((LD)k, deg);
			Val y, z;
			if (p->n == 2)
			{
				y = c.alias ? opSame(p->f2, a) : op(p->f2, a, b);
				z = c.alias ? opSame(p->f2, ka) : op(p->f2, ka, kb);
			}
			else { y = op(p->f1, a); z = op(p->f1, ka); }
			Ref<LD> want = rl(y);
			for (LD & q : want.c) q *= kl;
			if (!okVal(y) && !okVal(z)) return true;
			if (!close(z, want, 2 * tol * kl + 1e-250L) && !(eitherRoot(*p, a) && close(z, rneg(want), 2 * tol * kl + 1e-250L))) OPV("%s gives %s, with unit 1/%.17g it gives %s want %s", p->name.c_str(), show(y).c_str(), k, show(z).c_str(), showRef(want).c_str());
			LD part[8];
			if (okVal(y) && okVal(z) && termSlack(*p, ka, kb, 1, part) && !closeTerms(z, want, part))
				OPV("%s gives %s, with unit 1/%.17g it gives %s want %s (in proportion to the terms of each component)", p->name.c_str(), show(y).c_str(), k, show(z).c_str(), showRef(want).c_str());
			return true;
		}, w);
	}
	// log and root in other units
	for (int sq = 0; sq < 2; ++sq)
		scen("C29", sq ? "units sqrtG2" : "units logG2", { SP }, Dom{ 1e-10, 1e5, true }, [sq](Case const & c, Ctx & x) {
			if (!caseIn(c)) return false;
			Rng r(c.seed);
			Val const & a = c.a[0];
			LD const la = magLd(a);
			if (!(la >= 1e-7L && la <= 1e7L)) return false;
			double const k = std::ldexp(1., 2 * r.range(-8, 8));
			LD b2 = 0;
			for (int i = 1; i < 4; ++i) b2 += (LD)a.c[i] * a.c[i];
			LD const th = atan2l(sqrtl(b2), fabsl(a.c[0]));
			if (!(th > 1e-6L)) return false;
			Val const y = op(sq ? sut.sqrtG2 : sut.logG2, a), z = op(sq ? sut.sqrtG2 : sut.logG2, scaled(a, k));
			Ref<LD> want = rl(y);
			LD const ln = fabsl(logl(la)) + fabsl(logl(k));
			if (sq) for (LD & q : want.c) q *= sqrtl(k);
			else want.c[0] += logl(k);
			if (!close(z, want, 512 * EPS * (1 + ln) * (sq ? sqrtl(la * k) : 1.L))) OPV("%s and %s in units of 1/%.17g", show(y).c_str(), show(z).c_str(), k);
			return true;
		}, 1.);
}

//
// C30
//
static void promotions()
{
	Dom const d{ 1e-60, 1e60, true };
	for (int t = 1; t < MV; ++t)
	{
		scen("C30", std::string("functions of ") + tagName(t), { t }, d, [t](Case const & c, Ctx & x) {
			if (!caseIn(c)) return false;
			Val const & a = c.a[0];
			Val const m = op(sut.promote[t], a);
			LD const la = magLd(a);
			struct Lin { char const * n; Fn1 * f; } const lin[]{ { "-", sut.neg }, { "reverse", sut.rev }, { "oddverse", sut.odd }, { "dirverse", sut.dir }, { "dual", sut.dual } };
			for (auto const & l : lin)
			{
				Val const p = op(l.f[t], a), q = op(l.f[MV], m);
				if (!sameNum(p, q)) OPV("%s of %s is %s, of the promoted value %s", l.n, show(a).c_str(), show(p).c_str(), show(q).c_str());
			}
			struct Sc { char const * n; Fn1 * f; LD tol; } const sc[]{ { "magSq", sut.magSq, 32 * EPS * la * la }, { "magnitude", sut.mag, 32 * EPS * la }, { "ampSq", sut.ampSq, 64 * EPS * la * la }
				, { "sq", sut.sq, 64 * EPS * la * la }, { "cube", sut.cube, 128 * EPS * la * la * la } };
			for (auto const & l : sc)
			{
				if (!l.f[t] || !l.f[MV]) continue;
				Val const p = op(l.f[t], a), q = op(l.f[MV], m);
				if (!closeV(p, q, l.tol + 1e-280L)) OPV("%s is %s, of the promoted value %s", l.n, show(p).c_str(), show(q).c_str());
			}
			Val const u = op(sut.direction[t], a), um = op(sut.direction[MV], m);
			if (la > 0 ? !closeV(u, um, 32 * EPS) : okVal(u) || okVal(um)) OPV("direction is %s, of the promoted value %s", show(u).c_str(), show(um).c_str());
			// the amplitude of both, up to the choice at the cut
			Val const p = op(sut.amp[t], a), q = op(sut.amp[MV], m);
			if (!closeV(mul(p, p), mul(q, q), 128 * EPS * la * la + 1e-280L)) OPV("amplitude is %s, of the promoted value %s", show(p).c_str(), show(q).c_str());
			if (!(at(p, 0) >= 0.) || !(at(q, 0) >= 0.)) OPV("amplitude is %s, of the promoted value %s", show(p).c_str(), show(q).c_str());
			if (sut.inv[t])
			{
				Val const i = op(sut.inv[t], a), im = op(sut.inv[MV], m);
				if (la > 0 ? !closeV(i, im, 128 * EPS / la) : okVal(i) || okVal(im)) OPV("inverse is %s, of the promoted value %s", show(i).c_str(), show(im).c_str());
			}
			if (sut.isValid[t](&a) != sut.isValid[MV](&m) || !sut.isValid[MV](&m)) OPV("validity of %s and its promotion differ", show(a).c_str());
			return true;
		}, 1.);
		if (sut.exp[t])
			scen("C30", std::string("exp of ") + tagName(t), { t }, Dom{ 1e-100, 20., true }, [t](Case const & c, Ctx & x) {
				if (!caseIn(c)) return false;
				Val const & a = c.a[0];
				LD const la = magLd(a);
				if (!(la <= 28)) return false;
				Val const p = op(sut.exp[t], a), q = op(sut.exp[MV], op(sut.promote[t], a));
				if (!closeV(p, q, 400 * EPS * (1 + la) * (t == SP ? expl(a.c[0]) : 1.L))) OPV("exp is %s, of the promoted value %s", show(p).c_str(), show(q).c_str());
				return true;
			}, 1.);
		scen("C30", std::string("comparing ") + tagName(t), { t, t }, Dom{ 1e-100, 1e100, true }, [t](Case const & c, Ctx & x) {
			Rng r(c.seed);
			Val a = c.a[0], b = c.alias ? a : c.a[1];
			if (r.chance(.4)) { b = a; if (r.chance(.7)) { int const k = r.below(nComp(t)); b.c[k] *= 1. + r.sym() * std::pow(10., -r.range(0, 16)); } }
			if (r.chance(.3)) a.c[r.below(nComp(t))] = anyBits(r);
			if (r.chance(.3)) b.c[r.below(nComp(t))] = anyBits(r);
			Val const ma = op(sut.promote[t], a), mb = op(sut.promote[t], b);
			counters.calls += 6;
			if (sut.isValid[t](&a) != sut.isValid[MV](&ma)) OPV("validity of %s and its promotion differ", show(a).c_str());
			if (sut.eq[t] && sut.eq[MV] && sut.eq[t](&a, &b) != sut.eq[MV](&ma, &mb)) OPV("%s == %s is %d, not so after promotion", show(a).c_str(), show(b).c_str(), sut.eq[t](&a, &b));
			double const tol = std::pow(10., r.chance(.5) ? -r.range(0, 17) : -17. * r.uni());
			bool const n0 = sut.nearly[t](&a, &b, tol, 1), n1 = sut.nearly[MV](&ma, &mb, tol, 1);
			if (n0 != n1)
			{
				// unless too close to call
				if (sut.nearly[t](&a, &b, tol * (1 - 1e-12), 1) != sut.nearly[t](&a, &b, tol * (1 + 1e-12), 1)) return false;
				OPV("nearlyEquals(%s,%s,%.17g) is %d, %d after promotion", show(a).c_str(), show(b).c_str(), tol, n0, n1);
			}
			return true;
		}, .7);
	}
	Dom const dm{ 1e-100, 1e100, true };
	for (int t = 0; t < NTAG; ++t) for (int u = 0; u < NTAG; ++u)
	{
		if (!sut.mul[t][u] || (t == MV && u == MV)) continue;
		scen("C30", std::string("products of ") + tagName(t) + " and " + tagName(u), { t, u }, dm, [t, u](Case const & c, Ctx & x) {
			if (!caseIn(c)) return false;
			Val const & a = c.a[0];
			Val const b = c.alias ? a : c.a[1];
			Val const p = c.alias ? opSame(sut.mul[t][u], a) : mul(a, b), q = mul(op(sut.promote[t], a), op(sut.promote[u], b));
			LD const s = magLd(a) * magLd(b);
			bool const exact = dyadic(a) && dyadic(b);
			if (!closeV(p, q, exact ? 0.L : 32 * EPS * s + 1e-290L)) OPV("product is %s, of the promoted values %s", show(p).c_str(), show(q).c_str());
			if (sut.add[t][u])
			{
				Val const g = op(sut.add[t][u], a, b), h = op(sut.add[MV][MV], op(sut.promote[t], a), op(sut.promote[u], b));
				if (!sameNum(g, h)) OPV("sum is %s, of the promoted values %s", show(g).c_str(), show(h).c_str());
			}
			return true;
		}, .1);
	}
}
void regGeo() { values(); geometry(); frames(); promotions(); }
