// C04: every element-wise operation, every form, every aliasing, against scalar definitions in double.
#include "vh.h"
#include <algorithm>

struct Sh { int z, r, c; size_t n() const { return (size_t)z * r * c; } };

struct TV {
	typedef RV P; typedef MLPPVector T;
	static const char *nm() { return "vector"; }
	static Sh shape(Rng &r) { return Sh{ 1, 1, r.chance(0.1) ? 0 : r.range(1, 17) }; }
	static P mk(Sh s, const DV &d) { return mkv(d); }
	static P any(Rng &r, Sh s, int mode) { return mode == 0 ? newv(0) : mode == 1 ? newv(s.c) : newv(r.range(1, 20)); }
	static bool cmp(Ctx &c, const char *k, const P &g, Sh s, const DV &w, double rt, double at) { return cmpv(c, k, g, w, rt, at); }
};
struct TM {
	typedef RM P; typedef MLPPMatrix T;
	static const char *nm() { return "matrix"; }
	static Sh shape(Rng &r) { return Sh{ 1, r.range(1, 6), r.range(1, 6) }; }
	static P mk(Sh s, const DV &d) { DM m(s.r, s.c); m.d = d; return mkm(m); }
	static P any(Rng &r, Sh s, int mode) { return mode == 0 ? newm(0, 0) : mode == 1 ? newm(s.r, s.c) : mode == 2 ? newm(s.c, s.r) : newm(r.range(1, 7), r.range(1, 7)); }
	static bool cmp(Ctx &c, const char *k, const P &g, Sh s, const DV &w, double rt, double at) { DM m(s.r, s.c); m.d = w; return cmpm(c, k, g, m, rt, at); }
};
struct TT {
	typedef RT P; typedef MLPPTensor3 T;
	static const char *nm() { return "tensor"; }
	static Sh shape(Rng &r) { return Sh{ r.range(1, 4), r.range(1, 4), r.range(1, 4) }; }
	static P mk(Sh s, const DV &d) { DT t(s.z, s.r, s.c); t.d = d; return mkt(t); }
	static P any(Rng &r, Sh s, int mode) { return mode == 0 ? newt() : mode == 1 ? newt(s.z, s.r, s.c) : mode == 2 ? newt(s.r, s.c, s.z) : newt(r.range(1, 4), r.range(1, 4), r.range(1, 4)); }
	static bool cmp(Ctx &c, const char *k, const P &g, Sh s, const DV &w, double rt, double at) { DT t(s.z, s.r, s.c); t.d = w; return cmpt(c, k, g, t, rt, at); }
};

template <class K>
static void done(Ctx &c, const char *op, Sh s, const DV &a, const DV &b, long e0) {
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count(strf("%s.%s", K::nm(), op).c_str());
	c.obs(hsh(hsh(hsh(hs(op), a), b), s.c * 31 + s.r), !a.empty());
}

template <class K>
static void binary(Ctx &c, const char *op, std::function<double(double, double)> f,
		void (K::T::*in)(const typename K::P &), typename K::P (K::T::*nw)(const typename K::P &) const, void (K::T::*into)(const typename K::P &, const typename K::P &),
		Kind ka, Kind kb, double rt, double at) {
	Rng &r = c.rng;
	typedef typename K::P P;
	Sh s = K::shape(r);
	DV a = gv(r, s.n(), ka), b = gv(r, s.n(), kb), w(s.n()), waa(s.n());
	if (r.chance(0.2) && ka == kb) { for (size_t i = 0; i < a.size(); i++) if (r.chance(0.4)) b[i] = a[i]; }
	bool sq = ka == kb; // aliasing both operands is only in the domain of equal kinds
	for (size_t i = 0; i < a.size(); i++) { w[i] = f(a[i], b[i]); if (sq) waa[i] = f(a[i], a[i]); }
	long e0 = errors();
	c.label(strf("%s.%s", K::nm(), op));
	P A = K::mk(s, a), B = K::mk(s, b);
	P N = (A.ptr()->*nw)(B);
	K::cmp(c, "new", N, s, w, rt, at);
	K::cmp(c, "new.left_unchanged", A, s, a, 0, 0);
	K::cmp(c, "new.right_unchanged", B, s, b, 0, 0);
	if (N == A || N == B) c.fail("new.fresh", "returned one of its operands");
	(A.ptr()->*in)(B);
	K::cmp(c, "inplace", A, s, w, rt, at);
	K::cmp(c, "inplace.right_unchanged", B, s, b, 0, 0);
	A = K::mk(s, a);
	P t = K::any(r, s, r.range(0, 3));
	(t.ptr()->*into)(A, B);
	K::cmp(c, "into", t, s, w, rt, at);
	K::cmp(c, "into.left_unchanged", A, s, a, 0, 0);
	K::cmp(c, "into.right_unchanged", B, s, b, 0, 0);
	// target is an operand
	P x = K::mk(s, a);
	(x.ptr()->*into)(x, B);
	K::cmp(c, "into.target_is_left", x, s, w, rt, at);
	x = K::mk(s, b);
	(x.ptr()->*into)(A, x);
	K::cmp(c, "into.target_is_right", x, s, w, rt, at);
	if (sq) {
		x = K::mk(s, a);
		(x.ptr()->*in)(x);
		K::cmp(c, "inplace.with_itself", x, s, waa, rt, at);
		x = K::mk(s, a);
		P y = (x.ptr()->*nw)(x);
		K::cmp(c, "new.with_itself", y, s, waa, rt, at);
		(x.ptr()->*into)(x, x);
		K::cmp(c, "into.all_same", x, s, waa, rt, at);
	}
	done<K>(c, op, s, a, b, e0);
	if (!a.empty()) c.sample(str(a) + " with " + str(b) + " gave " + str(w));
}

template <class K>
static void unary(Ctx &c, const char *op, std::function<double(double)> f, void (K::T::*in)(), typename K::P (K::T::*nw)() const, void (K::T::*into)(const typename K::P &), Kind k, double rt, double at) {
	Rng &r = c.rng;
	typedef typename K::P P;
	Sh s = K::shape(r);
	DV a = gv(r, s.n(), k), w(s.n());
	for (size_t i = 0; i < a.size(); i++) w[i] = f(a[i]);
	long e0 = errors();
	c.label(strf("%s.%s", K::nm(), op));
	P A = K::mk(s, a);
	P N = (A.ptr()->*nw)();
	K::cmp(c, "new", N, s, w, rt, at);
	K::cmp(c, "new.unchanged", A, s, a, 0, 0);
	P t = K::any(r, s, r.range(0, 3));
	(t.ptr()->*into)(A);
	K::cmp(c, "into", t, s, w, rt, at);
	K::cmp(c, "into.unchanged", A, s, a, 0, 0);
	P x = K::mk(s, a);
	(x.ptr()->*into)(x);
	K::cmp(c, "into.self", x, s, w, rt, at);
	(A.ptr()->*in)();
	K::cmp(c, "inplace", A, s, w, rt, at);
	done<K>(c, op, s, a, DV(), e0);
}

// operations with one real argument; OrderSA: into form is (scalar, a), otherwise (a, scalar)
template <class K, class IN, class NW, class INTO>
static void scalar(Ctx &c, const char *op, std::function<double(double, double)> f, IN in, NW nw, INTO into, double p, Kind k, double rt, double at) {
	Rng &r = c.rng;
	typedef typename K::P P;
	Sh s = K::shape(r);
	DV a = gv(r, s.n(), k), w(s.n());
	for (size_t i = 0; i < a.size(); i++) w[i] = f(a[i], p);
	long e0 = errors();
	c.label(strf("%s.%s", K::nm(), op));
	P A = K::mk(s, a);
	P N = nw(A, p);
	K::cmp(c, "new", N, s, w, rt, at);
	K::cmp(c, "new.unchanged", A, s, a, 0, 0);
	P t = K::any(r, s, r.range(0, 3));
	into(t, A, p);
	K::cmp(c, "into", t, s, w, rt, at);
	K::cmp(c, "into.unchanged", A, s, a, 0, 0);
	P x = K::mk(s, a);
	into(x, x, p);
	K::cmp(c, "into.self", x, s, w, rt, at);
	in(A, p);
	K::cmp(c, "inplace", A, s, w, rt, at);
	done<K>(c, op, s, a, DV(1, p), e0);
}

static const double RTA = 4e-7, AT = 1e-30; // correctly rounded arithmetic
static const double RF = 3e-6, AF = 3e-7;  // library functions

#define BIN(K, M, F, KA, KB) binary<K>(c, #M, F, &K::T::M, &K::T::M##n, &K::T::M##b, KA, KB, RTA, AT)
#define UN(K, M, F, KI) unary<K>(c, #M, F, &K::T::M, &K::T::M##n, &K::T::M##b, KI, RF, AF)
#define P_(K) typename K::P
template <class K> static void smul(Ctx &c) {
	scalar<K>(c, "scalar_multiply", [](double a, double p) { return a * p; }, [](P_(K) x, double p) { x->scalar_multiply(p); }, [](P_(K) x, double p) { return x->scalar_multiplyn(p); },
			[](P_(K) t, P_(K) x, double p) { t->scalar_multiplyb(p, x); }, c.rng.chance(0.1) ? 0 : gval(c.rng, K_STD), K_MIX, RTA, AT);
}
template <class K> static void sadd(Ctx &c) {
	scalar<K>(c, "scalar_add", [](double a, double p) { return a + p; }, [](P_(K) x, double p) { x->scalar_add(p); }, [](P_(K) x, double p) { return x->scalar_addn(p); },
			[](P_(K) t, P_(K) x, double p) { t->scalar_addb(p, x); }, gval(c.rng, K_STD), K_STD, RTA, 1e-6);
}
template <class K> static void power(Ctx &c) {
	bool integral = c.rng.chance(0.4);
	double p = integral ? c.rng.range(0, 5) : (double)c.rng.f(-2.5, 2.5);
	scalar<K>(c, "exponentiate", [](double a, double q) { return std::pow(a, q); }, [](P_(K) x, double q) { x->exponentiate(q); }, [](P_(K) x, double q) { return x->exponentiaten(q); },
			[](P_(K) t, P_(K) x, double q) { t->exponentiateb(x, q); }, p, integral ? K_STD : K_POS, 6e-6, AF);
}

static Kind anyk(Rng &r) { return (Kind)r.range(0, 6); }
template <class K> static void common(Ctx &c, int i) {
	auto mx = [](double a, double b) { return a > b ? a : b; };
	Kind k = anyk(c.rng);
	switch (i) {
		case 0: BIN(K, add, [](double a, double b) { return (double)(float)(a + b); }, k, k); break;
		case 1: BIN(K, sub, [](double a, double b) { return (double)(float)(a - b); }, k, k); break;
		case 2: BIN(K, hadamard_product, [](double a, double b) { return a * b; }, k, k); break;
		case 3: if (c.rng.chance(0.5)) BIN(K, division_element_wise, [](double a, double b) { return a / b; }, K_NONZERO, K_NONZERO); else BIN(K, division_element_wise, [](double a, double b) { return a / b; }, k, K_NONZERO); break;
		case 4: BIN(K, max, mx, k, k); break;
		case 5: smul<K>(c); break;
		case 6: sadd<K>(c); break;
		case 7: power<K>(c); break;
		case 8: UN(K, sqrt, [](double a) { return std::sqrt(a); }, K_POS); break;
		case 9: UN(K, abs, [](double a) { return std::fabs(a); }, anyk(c.rng)); break;
	}
}
template <class K> static void more(Ctx &c, int i) {
	auto mn = [](double a, double b) { return a < b ? a : b; };
	Kind k = anyk(c.rng);
	switch (i) {
		case 0: BIN(K, min, mn, k, k); break;
		case 1: UN(K, log, [](double a) { return std::log(a); }, K_POS); break;
		case 2: UN(K, log10, [](double a) { return std::log10(a); }, K_POS); break;
		case 3: UN(K, exp, [](double a) { return std::exp(a); }, c.rng.chance(0.5) ? K_STD : K_UNIT); break;
		case 4: UN(K, erf, [](double a) { return std::erf(a); }, K_STD); break;
		case 5: UN(K, cbrt, [](double a) { return std::cbrt(a); }, c.rng.chance(0.5) ? K_STD : K_POS); break;
		case 6: UN(K, sin, [](double a) { return std::sin(a); }, K_STD); break;
		case 7: UN(K, cos, [](double a) { return std::cos(a); }, K_STD); break;
	}
}

UNIT("C04", "elementwise.vector", 9000, 200000) { for (int i = 0; i < 2; i++) { int k = c.rng.range(0, 17); if (k < 10) common<TV>(c, k); else more<TV>(c, k - 10); } }
UNIT("C04", "elementwise.matrix", 9000, 200000) { for (int i = 0; i < 2; i++) { int k = c.rng.range(0, 17); if (k < 10) common<TM>(c, k); else more<TM>(c, k - 10); } }
UNIT("C04", "elementwise.tensor", 6000, 150000) { for (int i = 0; i < 2; i++) common<TT>(c, c.rng.range(0, 9)); }

UNIT("C04", "elementwise.add_vec", 1500, 40000) {
	Rng &r = c.rng;
	DM a = gm(r, r.range(1, 6), r.range(1, 6), anyk(r)), w = a;
	DV b = gv(r, a.co, anyk(r));
	for (int y = 0; y < a.r; y++) for (int x = 0; x < a.co; x++) w.at(y, x) = (float)(a.at(y, x) + b[x]);
	long e0 = errors();
	c.label("add_vec");
	RM A = mkm(a);
	RV B = mkv(b);
	cmpm(c, "new", A->add_vecn(B), w, RTA, AT);
	samem(c, "new.unchanged", A, a); samev(c, "new.vector_unchanged", B, b);
	RM t = TM::any(r, Sh{ 1, a.r, a.co }, r.range(0, 3));
	t->add_vecb(A, B);
	cmpm(c, "into", t, w, RTA, AT);
	samem(c, "into.unchanged", A, a); samev(c, "into.vector_unchanged", B, b);
	RM x = mkm(a);
	x->add_vecb(x, B);
	cmpm(c, "into.self", x, w, RTA, AT);
	A->add_vec(B);
	cmpm(c, "inplace", A, w, RTA, AT);
	samev(c, "inplace.vector_unchanged", B, b);
	c.check("no_error", errors() == e0);
	c.obs(hsh(hsh(1, a.d), b));
}
