// C14..C17: comparisons, validity, null propagation.
#include "scen.hpp"

static double someTol(Rng & r)
{
	switch (r.below(6))
	{
		case 0: return EPS;
		case 1: return EPS * std::ldexp(1., r.range(-8, 30));
		case 2: return std::pow(10., r.range(-18, 3));
		case 3: return std::pow(10., -18. + 21. * r.uni());
		case 4: return r.uni();
		default: return 1e-9 * (1. + r.uni());
	}
}
static double negTol(Rng & r)
{
	switch (r.below(5)) { case 0: return 0.; case 1: return -0.; case 2: return -someTol(r); case 3: return std::nan(""); default: return -INFINITY; }
}
static double badNum(Rng & r)
{
	switch (r.below(5))
	{
		case 0: return std::nan("");
		case 1: return INFINITY;
		case 2: return -INFINITY;
		case 3: return r.sgn() * 5e-324 * r.range(1, 1 << 20);
		default: return r.sgn() * 2.2250738585072009e-308;
	}
}
// documented outcome: 1 true, 0 false, -1 too close to call
static int wantDouble(double t, double r, double tol)
{
	if (!okNum(t) || !okNum(r)) return 0;
	if (!(tol > 0)) return 0;
	if (t == r) return 1;
	if (r == 0.) return std::fabs(t) < tol;
	Q const q = rabs((Q)t - (Q)r) / rabs((Q)r);
	Q const slack = 2 * (Q)EPS * (1 + q);
	if (rabs(q - (Q)tol) <= slack) return -1;
	return q < (Q)tol;
}
static int wantGrade(double const * t, double const * r, int n, double tol)
{
	for (int i = 0; i < n; ++i) if (!okNum(t[i]) || !okNum(r[i])) return 0;
	if (!(tol > 0)) return 0;
	Q rr = 0, dd = 0;
	bool same = true;
	for (int i = 0; i < n; ++i) { rr += (Q)r[i] * r[i]; Q const d = (Q)t[i] - (Q)r[i]; dd += d * d; same = same && t[i] == r[i]; }
	if (same) return 1;
	if (rr == 0)
	{
		for (int i = 0; i < n; ++i) if (!(std::fabs(t[i]) < tol)) return 0;
		return 1;
	}
	Q const q = sqrtq(dd / rr);
	// squares of such differences are below the normal range of a double
	if (dd < 1e-298Q && (Q)tol * sqrtq(rr) < 1e-148Q) return -1;
	if (rabs(q - (Q)tol) <= 1e-14Q * ((Q)tol + q)) return -1;
	return q < (Q)tol;
}
static int wantVal(Val const & t, Val const & r, double tol)
{
	if (t.t == D) return wantDouble(t.c[0], r.c[0], tol);
	int res = 1;
	for (int k = 0; k < nComp(t.t);)
	{
		int const g = gradeOf(mvIdx(t.t, k));
		int n = 0;
		while (k + n < nComp(t.t) && gradeOf(mvIdx(t.t, k + n)) == g) ++n;
		int const w = wantGrade(t.c + k, r.c + k, n, tol);
		if (w == 0) return 0;
		if (w < 0) res = -1;
		k += n;
	}
	return res;
}
static void nearlyScens()
{
	Dom const d{ 1e-140, 1e140, true };
	auto refOk = [d](Val const & v) { for (int i = 0; i < nComp(v.t); ++i) if (okNum(v.c[i]) && !d.has(v.c[i])) return false; return true; };
	for (int t = 0; t < NTAG; ++t)
	{
		FnC const f = sut.nearly[t];
		Run const run = [f, t, refOk](Case const & c, Ctx & x) {
			Rng r(c.seed);
			Val ref = c.alias ? c.a[0] : c.a[1], got = c.a[0];
			double tol = someTol(r);
			int useTol = 1;
			uint32_t const mode = r.below(16);
			int const n = nComp(t);
			switch (mode)
			{
				case 0: useTol = 0; tol = EPS; break;
				case 1: tol = negTol(r); if (r.chance(.5)) got = ref; break;
				case 2: got = ref; if (r.chance(.3)) { useTol = 0; tol = EPS; } break;
				case 3: case 4: // one component off, by something near the tolerance
				{
					got = ref;
					int const k = r.below(n);
					int const g = gradeOf(mvIdx(t, k));
					LD m = 0;
					for (int i = 0; i < n; ++i) if (gradeOf(mvIdx(t, i)) == g) m += (LD)ref.c[i] * ref.c[i];
					double const scale = m > 0 ? (double)sqrtl(m) : 1.;
					double const f2 = r.chance(.5) ? 1. + r.sgn() * std::pow(10., -r.range(1, 12)) : r.chance(.5) ? .5 : 2.;
					got.c[k] += r.sgn() * tol * scale * f2;
					break;
				}
				case 5: // several off
				{
					got = ref;
					double const f2 = std::pow(10., r.range(-2, 2)) * r.uni();
					for (int i = 0; i < n; ++i) got.c[i] += tol * f2 * r.sym() * (std::fabs(ref.c[i]) + (r.chance(.2) ? 1. : 0.));
					break;
				}
				case 6: got = ref; got.c[r.below(n)] = badNum(r); break;
				case 7: if (r.chance(.5)) got = ref; ref.c[r.below(n)] = badNum(r); break;
				case 8: got = ref; { double const b = badNum(r); int const k = r.below(n); got.c[k] = b; ref.c[k] = b; } break;
				case 9: // zero reference, values around the tolerance
					for (int i = 0; i < n; ++i) { ref.c[i] = r.sgn() * 0.; got.c[i] = tol * (r.chance(.7) ? r.sym() : r.sgn() * (1. + r.sym() * 1e-3)); }
					if (r.chance(.3)) for (int i = 0; i < n; ++i) got.c[i] = i == (int)r.below(n) ? ulpUp(tol, r.range(-1, 1)) : 0.;
					break;
				case 10: got = ref; { int const k = r.below(n); got.c[k] = -got.c[k]; } break;
				case 11: got = negOf(ref); break;
				case 12: got = ref; { int const k = r.below(n); got.c[k] = ulpUp(got.c[k], r.range(-4, 4)); } if (r.chance(.4)) { useTol = 0; tol = EPS; } break;
				case 13: // one grade zero in the reference
				{
					int const g = r.below(4);
					got = ref;
					for (int i = 0; i < n; ++i) if (gradeOf(mvIdx(t, i)) == g) { ref.c[i] = 0.; got.c[i] = r.chance(.5) ? 0. : tol * r.sym() * 1.5; }
					break;
				}
				case 14: got = ref; if (n > 1) { int const k = r.below(n), l = r.below(n); std::swap(got.c[k], got.c[l]); } break;
				default: break;
			}
			if (!refOk(ref)) return false;
			for (int i = 0; i < n; ++i) if (std::isfinite(got.c[i]) && std::fabs(got.c[i]) > 1e145) return false;
			// a component of the test value below 1e-140 is fine unless the reference grade is nearly as small
			int const w = wantVal(got, ref, tol);
			++counters.calls;
			bool const g = f(&got, &ref, tol, useTol);
			if (w >= 0 && g != (w == 1)) OPV("nearlyEquals(%s, %s, %s%.17g) is %s", show(got).c_str(), show(ref).c_str(), useTol ? "" : "default ", tol, g ? "true" : "false");
			// same object on both sides
			bool const self = f(&ref, &ref, tol, useTol), ws = okVal(ref) && tol > 0;
			if (self != ws) OPV("nearlyEquals of %s with itself at %.17g is %s", show(ref).c_str(), tol, self ? "true" : "false");
			if (t == D)
			{
				bool const rel = sut.nearlyRel(&got, &ref, tol, useTol);
				if (w >= 0 && rel != (w == 1)) OPV("nearlyEqualsRel(%.17g, %.17g, %.17g) is %s", got.c[0], ref.c[0], tol, rel ? "true" : "false");
				volatile double const df = got.c[0] - ref.c[0];
				bool const wa = okVal(got) && okVal(ref) && std::fabs(df) < tol;
				bool const ab = sut.nearlyAbs(&got, &ref, tol, useTol);
				if (ab != wa) OPV("nearlyEqualsAbs(%.17g, %.17g, %.17g) is %s", got.c[0], ref.c[0], tol, ab ? "true" : "false");
			}
			return true;
		};
		scen("C14", std::string("nearlyEquals ") + tagName(t), { t, t }, d, run, 1. + .2 * nComp(t));
	}
	for (int k = 0; k < sut.nArr; ++k)
	{
		ArrFns const & f = sut.arr[k];
		if (!f.nearly) continue;
		int const n = f.n;
		scen("C14", "nearlyEquals array of " + std::to_string(n), {}, d, [&f, n, d](Case const & c, Ctx & x) {
			Rng r(c.seed);
			std::vector<double> ref(n), got(n);
			double tol = someTol(r);
			int useTol = 1;
			bool const sparse = r.chance(.3);
			double const base = r.chance(.5) ? 1. : std::fabs(num(r, d)) + 1e-140;
			for (int i = 0; i < n; ++i) ref[i] = sparse && r.chance(.8) ? 0. : r.chance(.8) ? base * r.sym() : num(r, d);
			for (double & z : ref) if (!d.has(z)) z = 0.;
			got = ref;
			int const at = r.below(n);
			LD m = 0;
			for (double z : ref) m += (LD)z * z;
			double const scale = m > 0 ? (double)sqrtl(m) : 1.;
			double const off = r.chance(.4) ? 1. + r.sgn() * std::pow(10., -r.range(1, 12)) : r.chance(.5) ? .5 : 2.;
			switch (r.below(10))
			{
				case 0: useTol = 0; tol = EPS; got[at] += r.sgn() * tol * scale * off; break;
				case 1: tol = negTol(r); break;
				case 2: break;
				case 3: case 4: got[at] += r.sgn() * tol * scale * off; break;
				case 5: for (double & z : got) z += tol * scale * off * r.sym(); break;
				case 6: got[at] = badNum(r); break;
				case 7: ref[at] = badNum(r); break;
				case 8: for (int i = 0; i < n; ++i) { ref[i] = 0.; got[i] = r.chance(.7) ? 0. : tol * r.sym() * .5; } got[at] = tol * r.sgn() * (r.chance(.5) ? off : r.uni()); break;
				default: got[at] = -got[at]; break;
			}
			for (double z : got) if (std::isfinite(z) && std::fabs(z) > 1e145) return false;
			int const w = wantGrade(got.data(), ref.data(), n, tol);
			++counters.calls;
			bool const g = f.nearly(got.data(), ref.data(), tol, useTol);
			if (w >= 0 && g != (w == 1)) OPV("nearlyEquals of arrays of %d (component %d changed from %.17g to %.17g, tolerance %.17g) is %s", n, at, ref[at], got[at], tol, g ? "true" : "false");
			bool const self = f.nearly(ref.data(), ref.data(), tol, useTol);
			bool ok = tol > 0;
			for (double z : ref) ok = ok && okNum(z);
			if (self != ok) OPV("nearlyEquals of an array of %d with itself at %.17g is %s", n, tol, self ? "true" : "false");
			return true;
		}, .4);
	}
	scen("C14", "predicates", { D, D }, Dom{ 5e-324, 1.7976931348623157e308, true }, [](Case const & c, Ctx & x) {
		Rng r(c.seed);
		double a = c.a[0].c[0], b = c.alias ? a : c.a[1].c[0];
		if (r.chance(.3)) a = anyBits(r);
		if (r.chance(.3)) b = anyBits(r);
		if (r.chance(.2)) b = a;
		volatile double const df = a - b;
		double tol = r.chance(.3) ? someTol(r) : r.chance(.3) ? negTol(r) : r.chance(.5) ? std::fabs(a) : std::fabs(df);
		if (r.chance(.3)) tol = ulpUp(tol, r.range(-1, 1));
		if (r.chance(.05)) tol = anyBits(r);
		counters.calls += 3;
		if (sut.small(0, a, b, tol) != (std::fabs(a) < tol)) OPV("isSmallAbs(%.17g, %.17g)", a, tol);
		if (sut.small(1, a, b, tol) != (std::fabs(df) < tol)) OPV("isSmallAbsDiff(%.17g, %.17g, %.17g)", a, b, tol);
		if (sut.small(2, a, b, tol) != (okNum(a) && okNum(b))) OPV("bothAreValid(%.17g, %.17g)", a, b);
		return true;
	}, .5);
	scen("C14", "nearlyEquals bool", {}, d, [](Case const & c, Ctx & x) {
		Rng r(c.seed);
		bool const p = r.chance(.5), q = r.chance(.5);
		Val const a = mk(D, { p ? 1. : 0. }), b = mk(D, { q ? 1. : 0. });
		if (sut.nearlyBool(&a, &b) != (p == q)) OPV("nearlyEquals(%d,%d)", p, q);
		return true;
	}, .1);
}

static void equality()
{
	Dom const any{ 5e-324, 1.7976931348623157e308, true };
	for (int t = 0; t < NTAG; ++t)
	{
		FnB const f = sut.eq[t];
		if (!f) continue;
		scen("C15", std::string("operator== ") + tagName(t), { t, t, t }, any, [f, t](Case const & c, Ctx & x) {
			Rng r(c.seed);
			int const n = nComp(t);
			Val v[3]{ c.a[0], c.a[1], c.a[2] };
			if (r.chance(.3)) for (auto & u : v) for (int i = 0; i < n; ++i) u.c[i] = anyBits(r);
			switch (r.below(8))
			{
				case 0: v[1] = v[0]; v[2] = v[0]; break;
				case 1: case 2: v[1] = v[0]; { int const k = r.below(n); v[1].c[k] = ulpUp(v[1].c[k], r.chance(.5) ? 1 : -1); } break;
				case 3: v[1] = v[0]; { int const k = r.below(n); v[1].c[k] = -v[1].c[k]; } break;
				case 4: v[1] = v[0]; { int const k = r.below(n); v[0].c[k] = r.sgn() * 0.; v[1].c[k] = r.sgn() * 0.; } v[2] = v[1]; break;
				case 5: v[1] = v[0]; v[1].c[r.below(n)] = anyBits(r); break;
				case 6: v[1] = v[0]; { double const z = r.chance(.5) ? std::nan("") : INFINITY * r.sgn(); int const k = r.below(n); v[0].c[k] = v[1].c[k] = z; } break;
				default: break;
			}
			for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
			{
				bool w = true;
				for (int k = 0; k < n; ++k) w = w && v[i].c[k] == v[j].c[k];
				++counters.calls;
				bool const g = f(&v[i], i == j ? &v[i] : &v[j]);
				if (g != w) OPV("%s == %s is %s", show(v[i]).c_str(), show(v[j]).c_str(), g ? "true" : "false");
			}
			return true;
		});
	}
}

static void validity()
{
	Dom const any{ 2.2250738585072014e-308, 1.7976931348623157e308, true };
	for (int t = 0; t < NTAG; ++t)
	{
		scen("C16", std::string("isValid ") + tagName(t), { t }, any, [t](Case const & c, Ctx & x) {
			Rng r(c.seed);
			Val v = c.a[0];
			int const n = nComp(t);
			switch (r.below(5))
			{
				case 0: break;
				case 1: v.c[r.below(n)] = badNum(r); break;
				case 2: v.c[r.below(n)] = anyBits(r); break;
				case 3: for (int i = 0; i < n; ++i) v.c[i] = anyBits(r); break;
				default: for (int i = 0; i < n; ++i) if (r.chance(.4)) v.c[i] = badNum(r); break;
			}
			++counters.calls;
			bool const g = sut.isValid[t](&v), w = okVal(v);
			if (g != w) OPV("isValid(%s) is %s", show(v).c_str(), g ? "true" : "false");
			return true;
		});
		if (t == D) for (int k = 0; k < sut.nArr; ++k)
		{
			ArrFns const & f = sut.arr[k];
			if (!f.valid) continue;
			scen("C16", "isValid array of " + std::to_string(f.n), {}, any, [&f, any](Case const & c, Ctx & x) {
				Rng r(c.seed);
				std::vector<double> v(f.n);
				for (double & z : v) z = r.chance(.5) ? num(r, any) : r.sym();
				uint32_t const m = r.below(4);
				if (m == 1 || m == 2) v[r.below(f.n)] = badNum(r);
				if (m == 3) for (double & z : v) if (r.chance(.3)) z = anyBits(r);
				bool w = true;
				std::string txt;
				for (double z : v) { w = w && okNum(z); char b[40]; snprintf(b, sizeof b, " %.17g", z); txt += b; }
				++counters.calls;
				if (f.valid(v.data()) != w) OPV("isValid of the array%s is %s", txt.c_str(), w ? "false" : "true");
				return true;
			}, .4);
		}
		scen("C16", std::string("null and zero ") + tagName(t), {}, any, [t](Case const &, Ctx & x) {
			Val n, z;
			sut.null[t](&n); sut.zero[t](&z);
			counters.calls += 4;
			checkDefined(n.c, 8 * nComp(n.t), "null"); checkDefined(z.c, 8 * nComp(z.t), "zero");
			if (n.t != t || z.t != t) OPV("null or zero of another type");
			for (int i = 0; i < nComp(t); ++i)
			{
				if (!isNanBits(n.c[i])) OPV("null component %d is %.17g", i, n.c[i]);
				if (!(z.c[i] == 0.)) OPV("zero component %d is %.17g", i, z.c[i]);
			}
			if (sut.isValid[t](&n)) OPV("isValid(null) is true");
			if (!sut.isValid[t](&z)) OPV("isValid(zero) is false");
			return true;
		}, .05);
	}
}

//
// C17
//
static Val nullOf(int t)
{
	Val v;
	sut.null[t](&v);
	// what null<T>() itself holds is C16's business: poison with plain NaN here
	v.t = (Tag)t;
	for (int i = 0; i < nComp(t); ++i) v.c[i] = std::nan("");
	return v;
}
// result components that depend on component i of argument arg
static bool dependsOn(OpRef const & o, int arg, int i, int k)
{
	std::string const & kd = o.kind;
	if (kd == "*")
	{
		int const other = o.in[1 - arg];
		for (int j = 0; j < 8; ++j)
			if (hasIdx(other, j) && (arg == 0 ? basis().idx[i][j] : basis().idx[j][i]) == k) return true;
		return false;
	}
	if (kd == "+" || kd == "-" || kd == "neg" || kd == "reverse" || kd == "oddverse" || kd == "dirverse" || kd == "promote") return i == k;
	if (kd == "dual") { static int const to[8]{ 7, 4, 5, 6, 1, 2, 3, 0 }; return to[i] == k; }
	if (kd == "direction" || kd == "magSq" || kd == "magnitude") return true;
	return false; // no claim about single components
}
static bool claimsInvalid(OpRef const & o, int arg)
{
	if (o.kind == "ComPlex::from" || o.kind == "complex(ComPlex)") return true;
	if ((o.kind == "logG2(plane)" || o.kind == "sqrtG2(plane)") && arg == 1) return false;
	return true;
}
static void poison()
{
	Dom const d{ 1e-50, 1e50, true };
	for (OpRef const & o : allOps())
	{
		std::vector<int> tags{ o.in[0] };
		if (o.n == 2) tags.push_back(o.in[1]);
		OpRef const * p = &o;
		scen("C17", "null " + o.name, tags, d, [p](Case const & c, Ctx & x) {
			OpRef const & o = *p;
			if (!caseIn(c)) return false;
			Rng r(c.seed);
			int const arg = o.n == 2 ? r.below(2) : 0;
			Val v[2]{ c.a[0], c.n > 1 ? c.a[1] : Val() };
			if (!claimsInvalid(o, arg)) return false;
			bool const whole = r.chance(.4);
			int const k = r.below(nComp(v[arg].t));
			if (whole) v[arg] = nullOf(v[arg].t);
			else v[arg].c[k] = std::nan("");
			bool const both = whole && o.n == 2 && r.chance(.1);
			if (both) v[1 - arg] = nullOf(v[1 - arg].t);
			bool const same = both && o.in[0] == o.in[1];
			Val res, second;
			if (o.kind == "pairMagDirFrom") op2out(o.f1, v[0], res, second);
			else res = o.n == 1 ? op(o.f1, v[0]) : same ? opSame(o.f2, v[0]) : op(o.f2, v[0], v[1]);
			if (okVal(res)) OPV("argument %d = %s gives the valid %s", arg, show(v[arg]).c_str(), show(res).c_str());
			if (o.kind == "pairMagDirFrom" && okVal(second)) OPV("argument %s gives the valid direction %s", show(v[arg]).c_str(), show(second).c_str());
			++counters.calls;
			if (sut.isValid[res.t] && sut.isValid[res.t](&res)) OPV("isValid accepts %s", show(res).c_str());
			int const i = mvIdx(v[arg].t, k);
			for (int m = 0; m < nComp(res.t); ++m)
			{
				int const to = mvIdx(res.t, m);
				bool dep = false;
				if (whole) { for (int q = 0; q < nComp(v[arg].t); ++q) dep = dep || dependsOn(o, arg, mvIdx(v[arg].t, q), to); }
				else dep = dependsOn(o, arg, i, to);
				if (o.kind == "magSq" || o.kind == "magnitude" || o.kind == "direction") dep = true;
				if (dep && okNum(res.c[m])) OPV("component %d of %s is valid though it depends on the NaN in argument %d, %s", m, show(res).c_str(), arg, show(v[arg]).c_str());
			}
			return true;
		});
		// valid in, valid out
		std::string const kd = o.kind;
		if (kd == "exp") continue;
		scen("C17", "valid " + o.name, tags, d, [p](Case const & c, Ctx & x) {
			OpRef const & o = *p;
			if (!caseIn(c)) return false;
			std::string const & kd = o.kind;
			if (kd == "direction" || kd == "inverse" || kd == "pairMagDirFrom" || kd.compare(0, 5, "logG2") == 0 || kd.compare(0, 6, "sqrtG2") == 0)
			{
				LD const m = magLd(c.a[0]);
				if (!(m > 1e-12L && m < 1e12L)) return false;
				if (c.n > 1 && !(magLd(c.a[1]) > 0)) return false;
				if (kd == "inverse" && o.in[0] == MV)
				{
					Ref<LD> const s = rl(c.a[0]) * rdir(rl(c.a[0]));
					if (!(fabsl(s.c[0]) + fabsl(s.c[7]) > 1e-6L * m * m)) return false;
				}
				if (kd != "logG2" && kd != "sqrtG2") for (int i = 0; i < nComp(c.a[0].t); ++i) if (c.a[0].c[i] != 0. && std::fabs(c.a[0].c[i]) < 1e-60) return false;
			}
			Val res, second;
			if (kd == "pairMagDirFrom") { op2out(o.f1, c.a[0], res, second); if (!okVal(second)) OPV("direction %s is not valid", show(second).c_str()); }
			else res = o.n == 1 ? op(o.f1, c.a[0]) : op(o.f2, c.a[0], c.alias ? c.a[0] : c.a[1]);
			if (!okVal(res)) OPV("valid arguments give %s", show(res).c_str());
			++counters.calls;
			if (sut.isValid[res.t] && !sut.isValid[res.t](&res)) OPV("isValid rejects %s", show(res).c_str());
			return true;
		}, .4);
	}
	for (int t = 0; t < NTAG; ++t)
		scen("C17", std::string("compare null ") + tagName(t), { t }, d, [t](Case const & c, Ctx & x) {
			if (!caseIn(c)) return false;
			Rng r(c.seed);
			Val n = c.a[0];
			if (r.chance(.5)) n = nullOf(t); else n.c[r.below(nComp(t))] = std::nan("");
			double const tol = r.chance(.5) ? std::pow(10., r.range(-15, 300)) : INFINITY;
			counters.calls += 3;
			if (sut.nearly[t](&n, &c.a[0], tol, 1) || sut.nearly[t](&c.a[0], &n, tol, 1) || sut.nearly[t](&n, &n, tol, 1)
				|| sut.nearly[t](&n, &c.a[0], tol, 0) || sut.nearly[t](&n, &n, tol, 0)) OPV("nearlyEquals accepts %s", show(n).c_str());
			if (sut.eq[t] && (sut.eq[t](&n, &c.a[0]) || sut.eq[t](&c.a[0], &n) || sut.eq[t](&n, &n))) OPV("operator== accepts %s", show(n).c_str());
			return true;
		});
	// chains of operations with one null leaf
	scen("C17", "null in a chain", { MV, MV, MV }, Dom{ 1e-10, 1e10, true }, [](Case const & c, Ctx & x) {
		if (!caseIn(c)) return false;
		Rng r(c.seed);
		Val v = project(c.a[0], r.below(NTAG));
		v = nullOf(v.t);
		std::string txt = std::string("null ") + tagName(v.t);
		auto const & ops = allOps();
		for (int s = 1 + r.below(8); s > 0; --s)
		{
			for (int tries = 0; tries < 40; ++tries)
			{
				OpRef const & o = ops[r.below((uint32_t)ops.size())];
				int arg = -1;
				if (o.in[0] == v.t) arg = 0;
				if (o.n == 2 && o.in[1] == v.t && (arg < 0 || r.chance(.5))) arg = 1;
				if (arg < 0 || !claimsInvalid(o, arg) || o.kind == "pairMagDirFrom") continue;
				Val const w = o.n == 2 ? project(c.a[1 + r.below(2)], o.in[1 - arg]) : Val();
				Val const res = o.n == 1 ? op(o.f1, v) : arg == 0 ? op(o.f2, v, w) : op(o.f2, w, v);
				txt += " -> " + o.name;
				v = res;
				if (okVal(v)) OPV("%s is the valid %s", txt.c_str(), show(v).c_str());
				break;
			}
		}
		return true;
	}, 20.);
}
void regCmp() { nearlyScens(); equality(); validity(); poison(); }
