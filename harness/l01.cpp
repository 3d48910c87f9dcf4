// L01: every operation of the linear-algebra service against its definition and against the
// container operation of the same name, with argument immutability and refusals.
#include "vh.h"
#include <algorithm>

static double mx(const DV &a) { double m = 0; for (double x : a) m = std::max(m, std::fabs(x)); return m; }
typedef Vector<RM> VM;
static VM mkl(const std::vector<DM> &l) { VM v; for (auto &m : l) v.push_back(mkm(m)); return v; }
static std::vector<DM> gl(Rng &r, Kind k, int n = -1) { std::vector<DM> l; if (n < 0) n = r.range(0, 4); for (int i = 0; i < n; i++) l.push_back(gm(r, r.range(1, 4), r.range(1, 4), k)); return l; }
static DM map1(const DM &a, double (*f)(double)) { DM o = a; for (double &v : o.d) v = f(v); return o; }
static DM map2(const DM &a, const DM &b, double (*f)(double, double)) { DM o = a; for (size_t i = 0; i < o.d.size(); i++) o.d[i] = f(a.d[i], b.d[i]); return o; }
static DV vmap1(const DV &a, double (*f)(double)) { DV o = a; for (double &v : o) v = f(v); return o; }
static DV vmap2(const DV &a, const DV &b, double (*f)(double, double)) { DV o = a; for (size_t i = 0; i < o.size(); i++) o[i] = f(a[i], b[i]); return o; }
static double p_add(double a, double b) { return a + b; }
static double p_sub(double a, double b) { return a - b; }
static double p_mul(double a, double b) { return a * b; }
static double p_div(double a, double b) { return a / b; }
static double fmax_(double a, double b) { return a > b ? a : b; }
static double fabs_(double a) { return std::fabs(a); }
static double fln(double a) { return std::log(a); }
static double flg(double a) { return std::log10(a); }
static double fex(double a) { return std::exp(a); }
static double fer(double a) { return std::erf(a); }
static double fsq(double a) { return std::sqrt(a); }
static double fcb(double a) { return std::cbrt(a); }
static double fsi(double a) { return std::sin(a); }
static double fco(double a) { return std::cos(a); }

struct U1 { const char *name; RM (*m)(MLPPLinAlg &, const RM &); RV (*v)(MLPPLinAlg &, const RV &); RM (*cm)(const RM &); RV (*cv)(const RV &); double (*f)(double); Kind k; };
#define U(n, mfn, vfn, cfn, f, k) { n, [](MLPPLinAlg &l, const RM &a) -> RM { return l.mfn(a); }, [](MLPPLinAlg &l, const RV &a) -> RV { return l.vfn(a); }, [](const RM &a) -> RM { return a->cfn(); }, [](const RV &a) -> RV { return a->cfn(); }, f, k }
static const U1 unary[] = {
	U("log", lognm, lognv, logn, fln, K_POS), U("log10", log10nm, log10nv, log10n, flg, K_POS), U("exp", expnm, expnv, expn, fex, K_STD), U("erf", erfnm, erfnv, erfn, fer, K_STD),
	U("sqrt", sqrtnm, sqrtnv, sqrtn, fsq, K_POS), U("cbrt", cbrtnm, cbrtnv, cbrtn, fcb, K_MIX), U("abs", absnm, absv, absn, fabs_, K_MIX), U("sin", sinnm, sinnv, sinn, fsi, K_STD), U("cos", cosnm, cosnv, cosn, fco, K_STD)
};
UNIT("L01", "unary", 1200, 15000) {
	Rng &r = c.rng;
	const U1 &u = unary[r.range(0, 8)];
	MLPPLinAlg alg;
	long e0 = errors();
	DM a = gm(r, r.range(1, 6), r.range(1, 6), u.k);
	DV v = gv(r, r.range(0, 12), u.k);
	RM A = mkm(a); RV V = mkv(v);
	c.label(std::string("matrix.") + u.name);
	RM o = u.m(alg, A);
	cmpm(c, "value", o, map1(a, u.f), 3e-6, 2e-7);
	c.check("fresh_result", o.is_valid() && o != A, "the argument itself was returned");
	cmpm(c, "same_as_container", o, dm(u.cm(A)), 1e-6, 1e-7);
	samem(c, "argument_unchanged", A, a);
	c.label(std::string("vector.") + u.name);
	RV q = u.v(alg, V);
	cmpv(c, "value", q, vmap1(v, u.f), 3e-6, 2e-7);
	c.check("fresh_result", q.is_valid() && q != V, "the argument itself was returned");
	cmpv(c, "same_as_container", q, dv(u.cv(V)), 1e-6, 1e-7);
	samev(c, "argument_unchanged", V, v);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count(u.name); c.obs(hsh(hsh(hs(u.name), a.d), v), a.d.size() > 1);
	c.label(std::string("null.") + u.name);
	e0 = errors();
	RM nm = u.m(alg, RM()); RV nv = u.v(alg, RV());
	c.check("refused", errors() >= e0 + 2 && !(nm.is_valid() && nm->data_size()) && !(nv.is_valid() && nv->size()), "missing operand");
}

struct B2 { const char *name; RM (*m)(MLPPLinAlg &, const RM &, const RM &); RV (*v)(MLPPLinAlg &, const RV &, const RV &); void (*vo)(MLPPLinAlg &, const RV &, const RV &, RV); RM (*cm)(const RM &, const RM &); RV (*cv)(const RV &, const RV &); double (*f)(double, double); Kind k; };
#define B(n, mfn, vfn, vofn, cfn, f, k) { n, [](MLPPLinAlg &l, const RM &a, const RM &b) -> RM { return l.mfn(a, b); }, [](MLPPLinAlg &l, const RV &a, const RV &b) -> RV { return l.vfn(a, b); }, vofn, [](const RM &a, const RM &b) -> RM { return a->cfn(b); }, [](const RV &a, const RV &b) -> RV { return a->cfn(b); }, f, k }
#define VO(fn) [](MLPPLinAlg &l, const RV &a, const RV &b, RV o) { l.fn(a, b, o); }
static const B2 binary[] = {
	B("addition", additionnm, additionnv, VO(additionv), addn, p_add, K_MIX), B("subtraction", subtractionnm, subtractionnv, VO(subtractionv), subn, p_sub, K_MIX),
	B("hadamard_product", hadamard_productnm, hadamard_productnv, VO(hadamard_productv), hadamard_productn, p_mul, K_MIX), B("division_element_wise", division_element_wisenvnm, division_element_wisenv, nullptr, division_element_wisen, p_div, K_NONZERO),
	B("max", maxnm, maxnvv, nullptr, maxn, fmax_, K_MIX)
};
UNIT("L01", "binary", 1200, 15000) {
	Rng &r = c.rng;
	const B2 &u = binary[r.range(0, 4)];
	MLPPLinAlg alg;
	long e0 = errors();
	int y = r.range(1, 6), x = r.range(1, 6), n = r.range(0, 12);
	bool self = r.chance(0.1);
	DM a = gm(r, y, x, u.k), b = self ? a : gm(r, y, x, u.k);
	DV v = gv(r, n, u.k), w = self ? v : gv(r, n, u.k);
	RM A = mkm(a), Bm = self ? A : mkm(b); RV V = mkv(v), W = self ? V : mkv(w);
	c.label(std::string("matrix.") + u.name);
	RM o = u.m(alg, A, Bm);
	cmpm(c, "value", o, map2(a, b, u.f), 2e-6, 1e-30);
	c.check("fresh_result", o.is_valid() && o != A && o != Bm, "an argument itself was returned");
	cmpm(c, "same_as_container", o, dm(u.cm(A, Bm)), 1e-6, 1e-30);
	samem(c, "left_unchanged", A, a); samem(c, "right_unchanged", Bm, b);
	c.label(std::string("vector.") + u.name);
	DV want = vmap2(v, w, u.f);
	RV q = u.v(alg, V, W);
	cmpv(c, "value", q, want, 2e-6, 1e-30);
	c.check("fresh_result", q.is_valid() && q != V && q != W, "an argument itself was returned");
	cmpv(c, "same_as_container", q, dv(u.cv(V, W)), 1e-6, 1e-30);
	samev(c, "left_unchanged", V, v); samev(c, "right_unchanged", W, w);
	if (u.vo) {
		c.label(std::string("vector_into.") + u.name);
		RV t = newv(r.chance(0.5) ? n : r.range(0, 14));
		u.vo(alg, V, W, t);
		cmpv(c, "value", t, want, 2e-6, 1e-30);
		samev(c, "left_unchanged", V, v); samev(c, "right_unchanged", W, w);
		RV s = mkv(v); u.vo(alg, s, W, s); if (!self) cmpv(c, "target_is_left", s, want, 2e-6, 1e-30);
		s = mkv(w); u.vo(alg, V, s, s); if (!self) cmpv(c, "target_is_right", s, want, 2e-6, 1e-30);
	}
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count(u.name); c.obs(hsh(hsh(hsh(hs(u.name), a.d), b.d), v), a.d.size() > 1);
	// refusals
	c.label(std::string("mismatch.") + u.name);
	e0 = errors();
	int how = r.range(0, 3);
	DM bb = how == 0 ? gm(r, y + 1, x) : how == 1 ? gm(r, y, x + 1) : gm(r, x, y);
	if (how == 2 && x == y) bb = gm(r, y + 1, x + 1);
	RM bad = how == 3 ? RM() : mkm(bb); RV badv = how == 3 ? RV() : mkv(gv(r, n + r.range(1, 3)));
	bool left = r.chance(0.5);
	RM nm = left ? u.m(alg, A, bad) : u.m(alg, bad, A); RV nv = left ? u.v(alg, V, badv) : u.v(alg, badv, V);
	c.check("reported", errors() >= e0 + 2, "mismatched or missing operand accepted");
	c.check("neutral", !(nm.is_valid() && nm->data_size()) && !(nv.is_valid() && nv->size()), "a result was returned");
	if (u.vo) { e0 = errors(); RV t = mkv(v); u.vo(alg, left ? V : badv, left ? badv : V, t); c.check("reported", errors() > e0); samev(c, "target_unchanged", t, v); }
	samem(c, "unchanged", A, a); samev(c, "unchanged", V, v);
}

UNIT("L01", "scalar_power", 800, 10000) {
	Rng &r = c.rng;
	MLPPLinAlg alg;
	long e0 = errors();
	DM a = gm(r, r.range(1, 6), r.range(1, 6), K_MIX), p = gm(r, a.r, a.co, K_POS);
	DV v = gv(r, r.range(0, 12), K_MIX), pv = gv(r, (int)v.size(), K_POS);
	double s = gval(r, K_STD), e = r.pick(std::vector<double>{ 2, 3, 0.5, -1, 1, 0, 1.5 });
	RM A = mkm(a), P = mkm(p); RV V = mkv(v), PV = mkv(pv);
	DM m1 = a, m2 = a, m3 = p; for (double &x : m1.d) x *= s; for (double &x : m2.d) x += s; for (double &x : m3.d) x = std::pow(x, e);
	DV v1 = v, v2 = v, v3 = pv; for (double &x : v1) x *= s; for (double &x : v2) x += s; for (double &x : v3) x = std::pow(x, e);
	c.label("matrix.scalar_multiply"); cmpm(c, "value", alg.scalar_multiplynm(s, A), m1, 1e-6, 1e-30);
	c.label("matrix.scalar_add"); cmpm(c, "value", alg.scalar_addnm(s, A), m2, 1e-6, 1e-6);
	c.label("matrix.exponentiate"); cmpm(c, "value", alg.exponentiatenm(P, e), m3, 5e-6, 1e-30);
	samem(c, "unchanged", A, a); samem(c, "unchanged", P, p);
	c.label("vector.scalar_multiply"); cmpv(c, "value", alg.scalar_multiplynv(s, V), v1, 1e-6, 1e-30);
	c.label("vector.scalar_add"); cmpv(c, "value", alg.scalar_addnv(s, V), v2, 1e-6, 1e-6);
	c.label("vector.exponentiate"); cmpv(c, "value", alg.exponentiatenv(PV, e), v3, 5e-6, 1e-30);
	RV t = newv(r.range(0, 14)); c.label("vector_into.scalar_multiply"); alg.scalar_multiplyv(s, V, t); cmpv(c, "value", t, v1, 1e-6, 1e-30);
	t = mkv(v); alg.scalar_multiplyv(s, t, t); cmpv(c, "target_is_source", t, v1, 1e-6, 1e-30);
	t = newv(r.range(0, 14)); c.label("vector_into.scalar_add"); alg.scalar_addv(s, V, t); cmpv(c, "value", t, v2, 1e-6, 1e-6);
	t = mkv(v); alg.scalar_addv(s, t, t); cmpv(c, "target_is_source", t, v2, 1e-6, 1e-6);
	samev(c, "unchanged", V, v); samev(c, "unchanged", PV, pv);
	// lists of matrices
	std::vector<DM> l = gl(r, K_POS), l2; for (auto &m : l) l2.push_back(gm(r, m.r, m.co, K_NONZERO));
	VM L = mkl(l), L2 = mkl(l2);
	auto chk = [&](const char *lab, const VM &g, const std::vector<DM> &w, double at) {
		c.label(lab);
		if (!c.check("count", g.size() == (int)w.size(), strf("%d matrices, expected %d", g.size(), (int)w.size()))) return;
		for (size_t i = 0; i < w.size(); i++) cmpm(c, "value", g[i], w[i], 5e-6, at);
		for (size_t i = 0; i < l.size(); i++) { samem(c, "argument_unchanged", L[i], l[i]); samem(c, "argument_unchanged", L2[i], l2[i]); }
	};
	auto each = [&](std::function<double(double, double)> f) { std::vector<DM> w = l; for (size_t k = 0; k < w.size(); k++) for (size_t i = 0; i < w[k].d.size(); i++) w[k].d[i] = f(l[k].d[i], l2[k].d[i]); return w; };
	chk("list.addition", alg.additionnvt(L, L2), each(p_add), 1e-6);
	chk("list.division_element_wise", alg.division_element_wisenvnvt(L, L2), each(p_div), 1e-30);
	chk("list.sqrt", alg.sqrtnvt(L), each([](double x, double) { return std::sqrt(x); }), 1e-30);
	chk("list.exponentiate", alg.exponentiatenvt(L, e), each([e](double x, double) { return std::pow(x, e); }), 1e-30);
	chk("list.scalar_multiply", alg.scalar_multiplynvt(s, L), each([s](double x, double) { return x * s; }), 1e-30);
	chk("list.scalar_add", alg.scalar_addnvt(s, L), each([s](double x, double) { return x + s; }), 1e-6);
	chk("list.max", alg.maxnvt(L, L2), each(fmax_), 1e-30);
	chk("list.abs", alg.absnvt(L2), each([](double, double y) { return std::fabs(y); }), 1e-30);
	{
		c.label("list.division_in_place");
		VM D = mkl(l); alg.division_element_wisevt(D, L2);
		std::vector<DM> w = each(p_div);
		for (size_t i = 0; i < w.size(); i++) { cmpm(c, "value", D[i], w[i], 5e-6, 1e-30); samem(c, "argument_unchanged", L2[i], l2[i]); }
		c.label("list.resize");
		VM R1 = alg.resizencvt(L), R2 = mkl(gl(r, K_STD)); alg.resizevt(R2, L);
		c.check("count", R1.size() == L.size() && R2.size() == L.size());
		if (R1.size() == L.size() && R2.size() == L.size()) for (int i = 0; i < L.size(); i++) c.check("shape", R1[i].is_valid() && R1[i]->size() == L[i]->size() && R2[i].is_valid() && R2[i]->size() == L[i]->size() && R1[i] != L[i] && R2[i] != L[i]);
		for (size_t i = 0; i < l.size(); i++) samem(c, "argument_unchanged", L[i], l[i]);
	}
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count("scalar_power_list"); c.obs(hsh(hsh((uint64_t)l.size(), a.d), v), a.d.size() > 1);
}

UNIT("L01", "products_reductions", 1000, 12000) {
	Rng &r = c.rng;
	MLPPLinAlg alg;
	long e0 = errors();
	int n = r.range(1, 6), m = r.range(1, 6), p = r.range(1, 6);
	Kind k = r.pick(std::vector<Kind>{ K_STD, K_SMALLINT, K_MIX });
	DM a = gm(r, n, m, k), b = gm(r, m, p, k), g = gm(r, r.range(1, 3), r.range(1, 3), k);
	DV v = gv(r, m, k), w = gv(r, m, k), z = gv(r, p, k);
	RM A = mkm(a), Bm = mkm(b), G = mkm(g); RV V = mkv(v), W = mkv(w), Z = mkv(z);
	double t = 1e-6 * (m + 1) * mx(a.d) * std::max(mx(b.d), mx(v)) + 1e-30;
	c.label("matmult"); cmpm(c, "value", alg.matmultnm(A, Bm), mul(a, b), 0, t); cmpm(c, "same_as_container", alg.matmultnm(A, Bm), dm(A->multn(Bm)), 1e-6, t);
	c.label("gram"); cmpm(c, "value", alg.gram_matrix(A), mul(tr(a), a), 0, 1e-6 * (n + 1) * mx(a.d) * mx(a.d) + 1e-30);
	c.label("transpose"); samem(c, "value", alg.transposenm(A), tr(a));
	c.label("kronecker"); { DM w2(n * g.r, m * g.co); for (int i = 0; i < w2.r; i++) for (int j = 0; j < w2.co; j++) w2.at(i, j) = a.at(i / g.r, j / g.co) * g.at(i % g.r, j % g.co); cmpm(c, "value", alg.kronecker_productnm(A, G), w2, 1e-6, 1e-30); }
	c.label("mat_vec_mult"); { DV w2(n, 0); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) w2[i] += a.at(i, j) * v[j]; cmpv(c, "value", alg.mat_vec_multnv(A, V), w2, 0, t); }
	c.label("mat_vec_add"); { DM w2 = a; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) w2.at(i, j) += v[j]; cmpm(c, "value", alg.mat_vec_addnm(A, V), w2, 1e-6, 1e-6 * (mx(a.d) + mx(v))); }
	c.label("subtract_matrix_rows"); { DV w2 = v; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) w2[j] -= a.at(i, j); cmpv(c, "value", alg.subtract_matrix_rowsnv(V, A), w2, 1e-6, 1e-6 * (n + 1) * (mx(a.d) + mx(v))); }
	c.label("outer"); { DM w2(m, p); for (int i = 0; i < m; i++) for (int j = 0; j < p; j++) w2.at(i, j) = v[i] * z[j]; cmpm(c, "value", alg.outer_product(V, Z), w2, 1e-6, 1e-30); }
	c.label("diag"); { DM w2(m, m); for (int i = 0; i < m; i++) w2.at(i, i) = v[i]; samem(c, "value", alg.diagnm(V), w2); }
	double dot = 0, nsq = 0, sum = 0, d2 = 0, mag = 0, hi = v[0], lo = v[0], q = 0;
	for (int i = 0; i < m; i++) { dot += v[i] * w[i]; nsq += v[i] * v[i]; sum += v[i]; d2 += (v[i] - w[i]) * (v[i] - w[i]); mag += std::fabs(v[i] * w[i]); q += std::fabs(v[i]); hi = std::max(hi, v[i]); lo = std::min(lo, v[i]); }
	c.label("dot"); c.eq("value", alg.dotnv(V, W), dot, 0, 2e-6 * mag + 1e-30); c.eq("same_as_container", alg.dotnv(V, W), V->dot(W), 1e-6, 2e-6 * mag + 1e-30);
	c.label("norm_sq"); c.eq("value", alg.norm_sqv(V), nsq, 2e-6, 1e-30);
	c.label("sum"); c.eq("value", alg.sum_elementsv(V), sum, 0, 2e-6 * q + 1e-30);
	c.label("max"); c.eq("value", alg.maxvr(V), hi, 0, 0); c.label("min"); c.eq("value", alg.minvr(V), lo, 0, 0);
	c.label("euclidean_distance"); c.eq("value", alg.euclidean_distance(V, W), std::sqrt(d2), 3e-6, 2e-6 * (mx(v) + mx(w)) + 1e-30); c.eq("squared", alg.euclidean_distance_squared(V, W), d2, 3e-6, 2e-6 * (mx(v) + mx(w)) * (mx(v) + mx(w)) + 1e-30);
	c.label("vector_projection"); if (nsq > 1e-3) { DV w2(m); for (int i = 0; i < m; i++) w2[i] = v[i] * dot / nsq; cmpv(c, "value", alg.vector_projection(V, W), w2, 0, 4e-6 * (mag / nsq + std::fabs(dot / nsq)) * mx(v) + 1e-30); }
	c.label("flatten"); samev(c, "matrix", alg.flattenvvnv(A), a.d);
	{ int cnt = r.range(0, 4); Vector<RV> l; DV all; for (int i = 0; i < cnt; i++) { DV x = gv(r, r.range(0, 5), k); l.push_back(mkv(x)); all.insert(all.end(), x.begin(), x.end()); } samev(c, "list_of_vectors", alg.flattenmnv(l), all); }
	c.label("covariance"); { int R = r.range(1, 5), S = r.range(2, 6); DM x = gm(r, R, S, K_STD), xc = x; for (int i = 0; i < R; i++) { double mean = 0; for (int j = 0; j < S; j++) mean += x.at(i, j) / S; for (int j = 0; j < S; j++) xc.at(i, j) -= mean; } DM w2 = mul(xc, tr(xc)); for (double &e : w2.d) e /= S - 1; RM X = mkm(x); cmpm(c, "value", alg.covnm(X), w2, 0, 3e-6 * S * mx(x.d) * mx(x.d)); samem(c, "argument_unchanged", X, x); }
	c.label("arguments"); samem(c, "unchanged", A, a); samem(c, "unchanged", Bm, b); samem(c, "unchanged", G, g); samev(c, "unchanged", V, v); samev(c, "unchanged", W, w); samev(c, "unchanged", Z, z);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count("products"); c.obs(hsh(hsh(hsh(n * 64 + m * 8 + p, a.d), b.d), v), m > 1);
}

UNIT("L01", "builders", 300, 3000) {
	Rng &r = c.rng;
	MLPPLinAlg alg;
	int n = r.range(1, 7), m = r.range(1, 7), k = r.range(-5, 9);
	long e0 = errors();
	c.label("zeromat"); samem(c, "value", alg.zeromatnm(n, m), DM(n, m, 0));
	c.label("onemat"); samem(c, "value", alg.onematnm(n, m), DM(n, m, 1));
	c.label("full"); samem(c, "value", alg.fullnm(n, m, k), DM(n, m, k));
	c.label("identity"); { DM w(n, n); for (int i = 0; i < n; i++) w.at(i, i) = 1; samem(c, "value", alg.identitym(n), w); }
	c.label("vectors"); samev(c, "zero", alg.zerovecnv(n), DV(n, 0)); samev(c, "one", alg.onevecnv(n), DV(n, 1)); samev(c, "full", alg.fullnv(n, k), DV(n, k)); samev(c, "empty", alg.zerovecnv(0), DV());
	c.label("gaussian_noise");
	RM g = alg.gaussian_noise(n, m);
	if (c.check("shape", g.is_valid() && g->size() == Size2i(m, n))) {
		DM d = dm(g); std::set<double> u(d.d.begin(), d.d.end()); bool ok = true; for (double v : d.d) if (!(std::fabs(v) < 8)) ok = false;
		c.check("finite_bounded", ok, str(d)); c.check("not_constant", n * m < 3 || u.size() > 1, str(d));
	}
	if (r.chance(0.05)) { // standard normal: mean 0, deviation 1 (7 sigma bands)
		DM d = dm(alg.gaussian_noise(80, 50)); double s = 0, q = 0; for (double v : d.d) { s += v; q += v * v; }
		double N = d.d.size(), mean = s / N, var = q / N - mean * mean;
		c.check("mean", std::fabs(mean) < 7 / std::sqrt(N), strf("%g", mean)); c.check("variance", std::fabs(var - 1) < 7 * std::sqrt(2 / N), strf("%g", var));
	}
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count("builders"); c.obs(n * 1000 + m * 100 + k, n * m > 1);
}

UNIT("L01", "refusals", 700, 5000) {
	Rng &r = c.rng;
	MLPPLinAlg alg;
	int n = r.range(1, 5), m = r.range(1, 5);
	DM a = gm(r, n, m), b = gm(r, m + r.range(1, 3), r.range(1, 4)), s = gm(r, n + 1, m);
	DV v = gv(r, m), w = gv(r, m + r.range(1, 3));
	RM A = mkm(a), Bm = mkm(b), S = mkm(s), N; RV V = mkv(v), W = mkv(w), NV;
	long e0 = errors();
	bool neutral = true;
	auto nm = [&](const RM &x) { neutral = !(x.is_valid() && x->data_size()); };
	auto nv = [&](const RV &x) { neutral = !(x.is_valid() && x->size()); };
	int op = r.range(0, 27);
	c.label(strf("op%d", op));
	switch (op) {
		case 0: c.label("matmult.sizes"); nm(alg.matmultnm(A, Bm)); break;
		case 1: c.label("matmult.null"); nm(r.chance(0.5) ? alg.matmultnm(A, N) : alg.matmultnm(N, A)); break;
		case 2: c.label("kronecker.null"); nm(r.chance(0.5) ? alg.kronecker_productnm(A, N) : alg.kronecker_productnm(N, A)); break;
		case 3: c.label("transpose.null"); nm(alg.transposenm(N)); break;
		case 4: c.label("scalar_multiply.null"); nm(alg.scalar_multiplynm(2, N)); break;
		case 5: c.label("scalar_add.null"); nm(alg.scalar_addnm(2, N)); break;
		case 6: c.label("exponentiate.null"); nm(alg.exponentiatenm(N, 2)); break;
		case 7: c.label("gram.null"); nm(alg.gram_matrix(N)); break;
		case 8: c.label("cov.null"); nm(alg.covnm(N)); break;
		case 9: c.label("mat_vec_mult.sizes"); nv(alg.mat_vec_multnv(A, W)); break;
		case 10: c.label("mat_vec_mult.null"); nv(r.chance(0.5) ? alg.mat_vec_multnv(N, V) : alg.mat_vec_multnv(A, NV)); break;
		case 11: c.label("mat_vec_add.sizes"); nm(alg.mat_vec_addnm(A, W)); break;
		case 12: c.label("mat_vec_add.null"); nm(r.chance(0.5) ? alg.mat_vec_addnm(N, V) : alg.mat_vec_addnm(A, NV)); break;
		case 13: c.label("subtract_matrix_rows.sizes"); alg.subtract_matrix_rowsnv(W, A); break;
		case 14: c.label("subtract_matrix_rows.null"); if (r.chance(0.5)) alg.subtract_matrix_rowsnv(NV, A); else alg.subtract_matrix_rowsnv(V, N); break;
		case 15: c.label("outer.null"); nm(r.chance(0.5) ? alg.outer_product(NV, V) : alg.outer_product(V, NV)); break;
		case 16: c.label("diag.null"); nm(alg.diagnm(NV)); break;
		case 17: c.label("dot.sizes"); neutral = alg.dotnv(V, W) == 0; break;
		case 18: c.label("dot.null"); neutral = (r.chance(0.5) ? alg.dotnv(V, NV) : alg.dotnv(NV, V)) == 0; break;
		case 19: c.label("norm_sq.null"); neutral = alg.norm_sqv(NV) == 0; break;
		case 20: c.label("sum.null"); neutral = alg.sum_elementsv(NV) == 0; break;
		case 21: c.label("distance.sizes"); neutral = (r.chance(0.5) ? alg.euclidean_distance(V, W) : alg.euclidean_distance_squared(V, W)) == 0; break;
		case 22: c.label("distance.null"); neutral = (r.chance(0.5) ? alg.euclidean_distance(V, NV) : alg.euclidean_distance_squared(NV, V)) == 0; break;
		case 23: c.label("flatten.null"); nv(alg.flattenvvnv(N)); break;
		case 24: c.label("vector_projection.null"); nv(r.chance(0.5) ? alg.vector_projection(NV, V) : alg.vector_projection(V, NV)); break;
		case 25: c.label("scalar_into.null"); if (r.chance(0.5)) alg.scalar_multiplyv(2, r.chance(0.5) ? NV : V, NV); else alg.scalar_addv(2, NV, V); break;
		case 26: c.label("minmax.null"); if (r.chance(0.5)) alg.maxvr(NV); else alg.minvr(NV); break;
		case 27: { c.label("list.lengths"); VM L = mkl({ a, s }), K = mkl({ a }); int q = r.range(0, 3); VM o; if (q == 0) o = alg.additionnvt(L, K); else if (q == 1) o = alg.division_element_wisenvnvt(L, K); else if (q == 2) o = alg.maxnvt(L, K); else alg.division_element_wisevt(L, K); samem(c, "unchanged", L[1], s); } break;
	}
	c.check("reported", errors() > e0, "an invalid request was not reported");
	c.check("neutral", neutral, "a result was returned for an invalid request");
	samem(c, "unchanged", A, a); samem(c, "unchanged", Bm, b); samem(c, "unchanged", S, s); samev(c, "unchanged", V, v); samev(c, "unchanged", W, w);
	c.count(c.where.c_str());
	c.obs(hsh(op, a.d));
}
