// C06..C08: magnitude and direction, amplitude, inverse.
#include "scen.hpp"

static void magnitudes()
{
	Dom const d{ 1e-140, 1e140, true };
	for (int t = 0; t < NTAG; ++t)
	{
		scen("C06", std::string("magnitude ") + tagName(t), { t }, d, [t](Case const & c, Ctx & x) {
			if (!caseIn(c)) return false;
			Val const & a = c.a[0];
			LD w = 0;
			for (int i = 0; i < nComp(t); ++i) w += (LD)a.c[i] * a.c[i];
			Val const ms = op(sut.magSq[t], a), m = op(sut.mag[t], a);
			if (!(fabsl(ms.c[0] - w) <= 8 * EPS * w)) OPV("magSq %.17g want %.17Lg", ms.c[0], w);
			LD const wm = sqrtl(w);
			if (!(fabsl(m.c[0] - wm) <= 8 * EPS * wm) || m.c[0] < 0.) OPV("magnitude %.17g want %.17Lg", m.c[0], wm);
			if (!sut.pairMD[t]) return true;
			Val pm, pd;
			op2out(sut.pairMD[t], a, pm, pd);
			Val const dr = op(sut.direction[t], a);
			if (!(fabsl(pm.c[0] - wm) <= 8 * EPS * wm)) OPV("pairMagDirFrom magnitude %.17g want %.17Lg", pm.c[0], wm);
			if (dr.t != t || pd.t != t) OPV("direction has another type");
			if (w == 0)
			{
				if (m.c[0] != 0.) OPV("zero has magnitude %.17g", m.c[0]);
				if (okVal(dr) || okVal(pd)) OPV("zero has the valid direction %s", show(dr).c_str());
				return true;
			}
			LD one = 0;
			for (int i = 0; i < nComp(t); ++i)
			{
				LD const u = a.c[i] / wm;
				if (!(fabsl(dr.c[i] - u) <= 16 * EPS * fabsl(u))) OPV("direction component %d is %.17g want %.17Lg", i, dr.c[i], u);
				if (!(fabsl(pd.c[i] - u) <= 16 * EPS * fabsl(u))) OPV("pairMagDirFrom direction component %d is %.17g want %.17Lg", i, pd.c[i], u);
				one += (LD)dr.c[i] * dr.c[i];
			}
			if (!(fabsl(one - 1) <= 32 * EPS)) OPV("direction has squared length %.17Lg", one);
			Rng r(c.seed);
			double k = r.chance(.5) ? std::ldexp(1., r.range(-9, 9)) : r.uni() + .1;
			Val const b = scaled(a, k);
			if (inDom(b, c.s->dom))
			{
				Val const db = op(sut.direction[t], b);
				for (int i = 0; i < nComp(t); ++i)
					if (!(std::fabs(db.c[i] - dr.c[i]) <= 32 * EPS * std::fabs(dr.c[i]))) OPV("direction changes when scaled by %.17g: %s vs %s", k, show(db).c_str(), show(dr).c_str());
			}
			Val const dn = op(sut.direction[t], negOf(a));
			for (int i = 0; i < nComp(t); ++i)
				if (!(std::fabs(dn.c[i] + dr.c[i]) <= 32 * EPS * std::fabs(dr.c[i]))) OPV("direction of -x is %s, of x %s", show(dn).c_str(), show(dr).c_str());
			return true;
		});
	}
}

static Ref<LD> refAmpSq(Val const & v) { Ref<LD> const r = rl(v); return r * rdir(r); }
static void amplitudes()
{
	Dom const d{ 1e-70, 1e70, true };
	for (int t = 1; t < NTAG; ++t)
	{
		scen("C07", std::string("amplitude ") + tagName(t), { t }, d, [t](Case const & c, Ctx & x) {
			if (!caseIn(c)) return false;
			Val const & a = c.a[0];
			LD const m = rl(a).magSq();
			Ref<LD> const w = refAmpSq(a);
			Val const s = op(sut.ampSq[t], a), p = op(sut.amp[t], a);
			bool const exact = smallInt(a, 1000);
			if (!close(s, w, exact ? 0.L : 32 * EPS * m)) OPV("ampSq %s want %s", show(s).c_str(), showRef(w).c_str());
			if (!hasIdx(s.t, 0) || (!hasIdx(s.t, 7) && fabsl(w.c[7]) > 32 * EPS * m)) OPV("ampSq has type %s", tagName(s.t));
			Val const pp = op(sut.mul[p.t][p.t], p, p);
			LD const ws = sqrtl(w.c[0] * w.c[0] + w.c[7] * w.c[7]);
			LD const tol = exact ? 32 * EPS * ws : 48 * EPS * m;
			if (!closeV(pp, s, tol)) OPV("amplitude %s squared is %s, ampSq %s", show(p).c_str(), show(pp).c_str(), show(s).c_str());
			if (!(at(p, 0) >= 0.)) OPV("amplitude has scalar part %.17g", at(p, 0));
			// next to the cut of the root, the side is that of the trivector part wherever rounding leaves it a sign
			LD t7 = fabsl((LD)at(a, 0) * at(a, 7));
			for (int i = 1; i < 4; ++i) t7 += fabsl((LD)at(a, i) * at(a, i + 3));
			if (w.c[0] < -32 * EPS * m && fabsl(w.c[7]) > 64 * EPS * t7 && fabsl(w.c[7]) > 1e-290L && !(std::signbit(at(p, 7)) == std::signbit((double)w.c[7])))
				OPV("amplitude %s is not the principal root of %s", show(p).c_str(), showRef(w).c_str());
			Val const sn = op(sut.ampSq[t], negOf(a));
			Val const dv = op(sut.dir[t], a), sd = op(sut.ampSq[dv.t], dv);
			LD const t2 = exact ? 0.L : 64 * EPS * m;
			if (!closeV(sn, s, t2)) OPV("ampSq(-x) %s, ampSq(x) %s", show(sn).c_str(), show(s).c_str());
			if (!closeV(sd, s, t2)) OPV("ampSq(dirverse(x)) %s, ampSq(x) %s", show(sd).c_str(), show(s).c_str());
			return true;
		}, 3.);
	}
	scen("C07", "amplitude multiplicative", { MV, MV }, d, [](Case const & c, Ctx & x) {
		if (!caseIn(c)) return false;
		Rng r(c.seed);
		Val const p = project(c.a[0], 1 + r.below(NTAG - 1)), q = project(c.a[1], 1 + r.below(NTAG - 1));
		Val const pq = op(sut.mul[p.t][q.t], p, q);
		Val const l = op(sut.ampSq[pq.t], pq), sp = op(sut.ampSq[p.t], p), sq = op(sut.ampSq[q.t], q);
		Val const m = op(sut.mul[sp.t][sq.t], sp, sq);
		LD const mm = rl(p).magSq() * rl(q).magSq();
		bool const exact = smallInt(p, 20) && smallInt(q, 20);
		if (!closeV(l, m, exact ? 0.L : 2000 * EPS * mm))
			OPV("ampSq of product of %s and %s is %s, product of ampSq %s", show(p).c_str(), show(q).c_str(), show(l).c_str(), show(m).c_str());
		return true;
	}, 5.);
}

static bool allBad(Val const & v) { return !okVal(v); }
static void inverses()
{
	Dom const d{ 1e-60, 1e60, true };
	for (int t : { (int)S, (int)V, (int)B, (int)T })
		scen("C08", std::string("inverse ") + tagName(t), { t }, d, [t](Case const & c, Ctx & x) {
			if (!caseIn(c)) return false;
			Val const & a = c.a[0];
			Val const r = op(sut.inv[t], a);
			if (isZero(a)) { if (okVal(r)) OPV("inverse of zero is %s", show(r).c_str()); return true; }
			if (r.t != t) OPV("type %s", tagName(r.t));
			LD const m = rl(a).magSq();
			for (int i = 0; i < nComp(t); ++i)
			{
				LD const w = (t == B || t == T ? -1 : 1) * (a.c[i] / m);
				if (!(fabsl(r.c[i] - w) <= 10 * EPS * fabsl(w))) OPV("component %d of inverse is %.17g want %.17Lg", i, r.c[i], w);
			}
			for (int k = 0; k < 2; ++k)
			{
				Val const one = k ? op(sut.mul[t][t], r, a) : op(sut.mul[t][t], a, r);
				if (!close(one, Ref<LD>::scalar(1), 40 * EPS)) OPV("product with inverse %s is %s", show(r).c_str(), show(one).c_str());
			}
			Val const rr = op(sut.inv[t], r);
			for (int i = 0; i < nComp(t); ++i)
				if (!(std::fabs(rr.c[i] - a.c[i]) <= 40 * EPS * std::fabs(a.c[i]))) OPV("inverse of inverse is %s", show(rr).c_str());
			return true;
		}, 2.);
	scen("C08", "inverse ComPlex", { CX }, d, [](Case const & c, Ctx & x) {
		if (!caseIn(c)) return false;
		Val const & a = c.a[0];
		Val const r = op(sut.inv[CX], a);
		if (isZero(a)) { if (okVal(r)) OPV("inverse of zero is %s", show(r).c_str()); return true; }
		LD const m = rl(a).magSq();
		Ref<LD> w;
		w.c[0] = a.c[0] / m; w.c[7] = -(a.c[1] / m);
		if (!close(r, w, 16 * EPS / sqrtl(m))) OPV("inverse %s want %s", show(r).c_str(), showRef(w).c_str());
		for (int k = 0; k < 2; ++k)
		{
			Val const one = k ? op(sut.mul[CX][CX], r, a) : op(sut.mul[CX][CX], a, r);
			if (!close(one, Ref<LD>::scalar(1), 64 * EPS)) OPV("product with inverse %s is %s", show(r).c_str(), show(one).c_str());
		}
		Val const rr = op(sut.inv[CX], r);
		if (!closeV(rr, a, 64 * EPS * sqrtl(m))) OPV("inverse of inverse is %s", show(rr).c_str());
		return true;
	}, 2.);
	auto kappa = [](Val const & a) {
		Ref<LD> const s = refAmpSq(a);
		LD const n = sqrtl(s.c[0] * s.c[0] + s.c[7] * s.c[7]);
		return n > 0 ? rl(a).magSq() / n : INFINITY * 1.L;
	};
	// singular and nearly singular values among the generated ones
	Gen const gen = [](Case & c, Rng & r) {
		Val & a = c.a[0];
		Dom const & dm = c.s->dom;
		switch (r.below(9))
		{
			case 0: // (1+u)*s, u a basis direction: singular
			{
				for (double & z : a.c) z = 0.;
				double const s = r.sgn() * std::ldexp(r.range(1, 64), r.range(-6, 6));
				a.c[0] = s; a.c[1 + r.below(3)] = r.sgn() * s;
				if (r.chance(.3)) { a.c[4 + r.below(3)] = num(r, dm); }
				break;
			}
			case 1: // same with a rational unit vector (3,4,0)/5, (2,3,6)/7, (1,2,2)/3
			{
				static int const q[3][4]{ { 3, 4, 0, 5 }, { 2, 3, 6, 7 }, { 1, 2, 2, 3 } };
				int const * p = q[r.below(3)];
				double const k = std::ldexp(1., r.range(-6, 6));
				for (double & z : a.c) z = 0.;
				bool const dl = r.chance(.5);
				a.c[dl ? 7 : 0] = p[3] * k * r.sgn();
				int const o = r.below(3);
				for (int i = 0; i < 3; ++i) a.c[(dl ? 4 : 1) + (i + o) % 3] = p[i] * k * r.sgn();
				break;
			}
			case 2: // null vector+bivector: v orthogonal to dual of b, equal size
			{
				for (double & z : a.c) z = 0.;
				double const k = std::ldexp(r.range(1, 9), r.range(-6, 6));
				int const i = r.below(3), j = (i + 1 + r.below(2)) % 3;
				a.c[1 + i] = k * r.sgn(); a.c[4 + j] = k * r.sgn();
				break;
			}
			case 3: // nearly singular
			{
				double const s = r.sgn();
				for (double & z : a.c) z = 0.;
				a.c[0] = s; a.c[1 + r.below(3)] = r.sgn() * (1. + std::pow(10., -r.range(1, 13)));
				if (r.chance(.5)) a.c[4 + r.below(3)] = r.sym() * std::pow(10., -r.range(1, 13));
				break;
			}
			default: break;
		}
	};
	scen("C08", "inverse MultiVector", { MV }, d, [kappa](Case const & c, Ctx & x) {
		if (!caseIn(c)) return false;
		Val const & a = c.a[0];
		LD const m = sqrtl(rl(a).magSq());
		if (m != 0 && !(m >= 1e-60L && m <= 1e61L)) return false;
		LD const k = kappa(a);
		Val const r = op(sut.inv[MV], a);
		if (std::isinf((double)k))
		{
			bool ex = dyadic(a, 1e3);
			// exactly singular and exactly computable
			if (!ex) return isZero(a);
			if (!allBad(r)) OPV("singular value has the valid inverse %s", show(r).c_str());
			return true;
		}
		if (!(k * EPS < 1e-3L)) return false;
		for (int j = 0; j < 2; ++j)
		{
			Val const one = j ? op(sut.mul[MV][MV], r, a) : op(sut.mul[MV][MV], a, r);
			if (!close(one, Ref<LD>::scalar(1), 128 * EPS * k)) OPV("kappa %.3Lg: product with inverse %s is %s", k, show(r).c_str(), show(one).c_str());
		}
		if (k * k * EPS < 1e-4L)
		{
			Val const rr = op(sut.inv[MV], r);
			if (!closeV(rr, a, 512 * EPS * k * k * m)) OPV("kappa %.3Lg: inverse of inverse is %s", k, show(rr).c_str());
		}
		return true;
	}, 12., gen);
	Dom const dd{ 1e-30, 1e30, true };
	scen("C08", "inverse of product", { MV, MV }, dd, [kappa](Case const & c, Ctx & x) {
		if (!caseIn(c)) return false;
		Rng r(c.seed);
		static int const ts[]{ S, V, B, T, CX, MV };
		Val const p = project(c.a[0], ts[r.below(6)]), q = project(c.a[1], ts[r.below(6)]);
		LD const kp = kappa(p), kq = kappa(q);
		LD const kk = kp * kq * kp * kq;
		if (!(kk * EPS < 1e-5L)) return false;
		Val const pq = toMv(op(sut.mul[p.t][q.t], p, q));
		Val const l = op(sut.inv[MV], pq), ip = op(sut.inv[p.t], p), iq = op(sut.inv[q.t], q);
		Val const w = op(sut.mul[iq.t][ip.t], iq, ip);
		if (!closeV(l, w, 2000 * EPS * kk / (magLd(p) * magLd(q)))) OPV("inverse of product of %s and %s is %s, product of inverses %s", show(p).c_str(), show(q).c_str(), show(l).c_str(), show(w).c_str());
		return true;
	}, 4.);
}
void regMag() { magnitudes(); amplitudes(); inverses(); }
