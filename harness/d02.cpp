// D02: factorisations and projections, judged by the identities that define them.
#include "vh.h"
#include "modules/pca/pca.h"
#include <algorithm>

static double mx(const DV &a) { double m = 0; for (double x : a) m = std::max(m, std::fabs(x)); return m; }
static bool shape(Ctx &c, const char *kind, const RM &m, int r, int co) {
	return c.check(kind, m.is_valid() && m->size() == Size2i(co, r), m.is_valid() ? strf("shape %dx%d, expected %dx%d", m->size().y, m->size().x, r, co) : "missing result");
}
static bool nearm(Ctx &c, const char *kind, const DM &g, const DM &w, double tol, const DM &in) {
	for (size_t i = 0; i < w.d.size(); i++)
		if (!(std::fabs(g.d[i] - w.d[i]) <= tol)) { c.fail(kind, strf("element %d: %g, expected %g (tol %g), input %s", (int)i, g.d[i], w.d[i], tol, str(in).c_str())); return false; }
	return true;
}
static DM eye(int n) { DM m(n, n); for (int i = 0; i < n; i++) m.at(i, i) = 1; return m; }
static DM fl(DM m) { for (double &v : m.d) v = (float)v; return m; }
// random orthogonal matrix by Gram-Schmidt
static DM ortho(Rng &r, int n) {
	for (;;) {
		DM q(n, n);
		bool ok = true;
		for (int i = 0; i < n && ok; i++) {
			DV v(n); for (double &x : v) x = r.uni(-1, 1);
			for (int rep = 0; rep < 2; rep++) for (int j = 0; j < i; j++) { double d = 0; for (int k = 0; k < n; k++) d += v[k] * q.at(k, j); for (int k = 0; k < n; k++) v[k] -= d * q.at(k, j); }
			double s = 0; for (double x : v) s += x * x; s = std::sqrt(s);
			if (s < 0.05) ok = false; else for (int k = 0; k < n; k++) q.at(k, i) = v[k] / s;
		}
		if (ok) return q;
	}
}
static DM spectrum(Rng &r, const DV &l) { int n = l.size(); DM q = ortho(r, n), d(n, n); for (int i = 0; i < n; i++) d.at(i, i) = l[i]; DM a = mul(mul(q, d), tr(q)); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a.at(i, j) = a.at(j, i); return fl(a); }
static DM symm(Rng &r, int n, std::string &name) {
	DM a = gm(r, n, n, K_STD); DV l(n);
	switch (r.range(0, 7)) {
		case 0: name = "random"; break;
		case 1: name = "integer"; a = gm(r, n, n, K_SMALLINT); break;
		case 2: name = "diagonal"; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) a.at(i, j) = 0; break;
		case 3: name = "negative_off_diagonal"; for (double &v : a.d) v = -std::fabs(v); break;
		case 4: name = "repeated_eigenvalues"; for (int i = 0; i < n; i++) l[i] = (i / 2) * 2 - 1; return spectrum(r, l);
		case 5: name = "gram"; { DM b = gm(r, r.range(1, n), n, K_SMALLINT); return mul(tr(b), b); }
		case 6: name = "small_entries"; for (double &v : a.d) v = (float)(v * 0.01); break;
		default: name = "constant"; for (double &v : a.d) v = 2; break;
	}
	for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a.at(i, j) = a.at(j, i);
	return a;
}
static void check_eigen(Ctx &c, const char *lab, const DM &a, const RM &V, const RM &D) {
	c.label(lab);
	int n = a.r;
	if (!shape(c, "vectors", V, n, n) || !shape(c, "values", D, n, n)) return;
	DM v = dm(V), d = dm(D);
	double sc = mx(a.d) * n + 1e-30;
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && !(std::fabs(d.at(i, j)) <= 1e-6 * sc)) { c.fail("values_not_diagonal", strf("D(%d,%d) = %g, input %s", i, j, d.at(i, j), str(a).c_str())); return; }
	nearm(c, "orthonormal", mul(tr(v), v), eye(n), 2e-5, a);
	nearm(c, "a_v_equals_v_d", mul(a, v), mul(v, d), 1e-5 * sc, a);
	DV w, g; DM wv;
	sym_eigen(a, w, wv);
	for (int i = 0; i < n; i++) g.push_back(d.at(i, i));
	std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end());
	for (int i = 0; i < n; i++) if (!(std::fabs(g[i] - w[i]) <= 1e-5 * sc)) { c.fail("eigenvalues", strf("eigenvalue %g, expected %g, input %s", g[i], w[i], str(a).c_str())); return; }
}

UNIT("D02", "eigen", 900, 12000) {
	Rng &r = c.rng;
	int n = r.range(1, 7);
	std::string fam;
	DM a = symm(r, n, fam);
	RM A = mkm(a);
	MLPPLinAlg alg;
	long e0 = errors();
	MLPPMatrix::EigenResult e1 = A->eigen();
	check_eigen(c, "matrix.eigen", a, e1.eigen_vectors, e1.eigen_values);
	RM other = newm(r.range(0, 3), r.range(0, 3));
	MLPPMatrix::EigenResult e2 = other->eigenb(A);
	check_eigen(c, "matrix.eigenb", a, e2.eigen_vectors, e2.eigen_values);
	MLPPLinAlg::EigenResult e3 = alg.eigen(A);
	check_eigen(c, "linalg.eigen", a, e3.eigen_vectors, e3.eigen_values);
	Array b = r.chance(0.5) ? A->eigen_bind() : other->eigenb_bind(A);
	c.label("matrix.eigen_bind");
	if (c.check("size", b.size() == 2)) { RM bv = b[1], bd = b[0]; check_eigen(c, "matrix.eigen_bind", a, bv, bd); }
	c.label("matrix.eigen");
	samem(c, "input_unchanged", A, a);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count(fam.c_str());
	c.obs(hsh(hs(fam), a.d), n > 1);
	c.sample("eigen of " + str(a));
}

static void check_svd(Ctx &c, const char *lab, const DM &a, const RM &U, const RM &S, const RM &Vt) {
	c.label(lab);
	int m = a.r, n = a.co;
	if (!shape(c, "u", U, m, m) || !shape(c, "s", S, m, n) || !shape(c, "vt", Vt, n, n)) return;
	DM u = dm(U), s = dm(S), vt = dm(Vt);
	double sc = mx(a.d) * std::max(m, n) + 1e-30;
	DV g;
	for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
		if (i != j) { if (!(std::fabs(s.at(i, j)) <= 1e-6 * sc)) { c.fail("s_not_diagonal", strf("S(%d,%d) = %g", i, j, s.at(i, j))); return; } }
		else { if (!(s.at(i, i) >= -1e-6 * sc)) { c.fail("negative_singular_value", strf("%g", s.at(i, i))); return; } g.push_back(s.at(i, i)); }
	}
	nearm(c, "u_orthonormal", mul(tr(u), u), eye(m), 3e-5, a);
	nearm(c, "v_orthonormal", mul(vt, tr(vt)), eye(n), 3e-5, a);
	nearm(c, "reproduces_input", mul(mul(u, s), vt), a, 2e-5 * sc, a);
	DV w; DM wv;
	sym_eigen(m <= n ? mul(a, tr(a)) : mul(tr(a), a), w, wv);
	for (double &x : w) x = std::sqrt(std::max(0.0, x));
	std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end());
	for (size_t i = 0; i < w.size(); i++) if (!(std::fabs(g[i] - w[i]) <= 2e-5 * sc)) { c.fail("singular_values", strf("singular value %g, expected %g, input %s", g[i], w[i], str(a).c_str())); return; }
}
UNIT("D02", "svd", 700, 9000) {
	Rng &r = c.rng;
	int m = r.range(1, 6), n = r.range(1, 6);
	const char *fam = "random";
	DM a = gm(r, m, n, K_STD);
	switch (r.range(0, 4)) {
		case 0: a = gm(r, m, n, K_SMALLINT); fam = "integer"; break;
		case 1: { int k = r.range(1, std::max(1, std::min(m, n) - 1)); a = mul(gm(r, m, k, K_SMALLINT), gm(r, k, n, K_SMALLINT)); fam = "rank_deficient"; } break;
		case 2: if (m == n) { std::string f; a = symm(r, n, f); fam = "symmetric"; } break;
		case 3: if (r.chance(0.3)) { a = DM(m, n); fam = "zero"; } break;
	}
	RM A = mkm(a);
	MLPPLinAlg alg;
	long e0 = errors();
	MLPPMatrix::SVDResult s1 = A->svd();
	check_svd(c, "matrix.svd", a, s1.U, s1.S, s1.Vt);
	RM other = newm(r.range(0, 3), r.range(0, 3));
	MLPPMatrix::SVDResult s2 = other->svdb(A);
	check_svd(c, "matrix.svdb", a, s2.U, s2.S, s2.Vt);
	MLPPLinAlg::SVDResult s3 = alg.svd(A);
	check_svd(c, "linalg.svd", a, s3.U, s3.S, s3.Vt);
	Array b = r.chance(0.5) ? A->svd_bind() : other->svdb_bind(A);
	c.label("matrix.svd_bind");
	if (c.check("size", b.size() == 3)) { RM u = b[0], s = b[1], v = b[2]; check_svd(c, "matrix.svd_bind", a, u, s, v); }
	c.label("matrix.svd");
	samem(c, "input_unchanged", A, a);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count(fam); c.count(m == n ? "square" : m > n ? "tall" : "wide");
	c.obs(hsh(hs(fam) + m * 8 + n, a.d), m * n > 1);
	c.sample("svd of " + str(a));
}

UNIT("D02", "qr_gram_schmidt", 700, 9000) {
	Rng &r = c.rng;
	int n = r.range(1, 6), m = n + r.range(0, 3);
	DM a; double cond = 1e9; DV l; DM v;
	for (int t = 0; t < 60 && !(cond < 30); t++) {
		a = gm(r, m, n, r.chance(0.5) ? K_STD : K_SMALLINT);
		sym_eigen(mul(tr(a), a), l, v);
		std::sort(l.begin(), l.end());
		cond = l[0] > 1e-9 ? std::sqrt(l.back() / l[0]) : 1e9;
	}
	if (!(cond < 30)) { DM q = ortho(r, m); a = DM(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a.at(i, j) = (float)(q.at(i, j) * (j + 1)); cond = n; }
	double t = 1e-6 * cond * cond + 1e-5;
	RM A = mkm(a);
	MLPPLinAlg alg;
	long e0 = errors();
	c.label("linalg.gram_schmidt");
	RM B = alg.gram_schmidt_process(A);
	if (shape(c, "shape", B, m, n)) {
		DM b = dm(B);
		nearm(c, "orthonormal", mul(tr(b), b), eye(n), t, a);
		// spans the input: projecting the input onto the columns gives the input back, and
		// Gram-Schmidt order: column k only needs the first k+1 input columns
		DM proj = mul(b, mul(tr(b), a));
		nearm(c, "spans_input", proj, a, t * mx(a.d) * m, a);
		DM ra = mul(tr(b), a);
		for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (!(std::fabs(ra.at(i, j)) <= t * mx(a.d) * m)) { c.fail("column_order", strf("column %d is not orthogonal to input column %d: %g", i, j, ra.at(i, j))); i = n; break; }
	}
	c.label("linalg.qrd");
	MLPPLinAlg::QRDResult q = alg.qrd(A);
	if (shape(c, "q_shape", q.Q, m, n) && shape(c, "r_shape", q.R, n, n)) {
		DM Q = dm(q.Q), R = dm(q.R);
		nearm(c, "orthonormal", mul(tr(Q), Q), eye(n), t, a);
		nearm(c, "product", mul(Q, R), a, t * mx(a.d) * m, a);
		for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (!(std::fabs(R.at(i, j)) <= t * mx(a.d) * m)) { c.fail("upper_triangular", strf("R(%d,%d) = %g", i, j, R.at(i, j))); i = n; break; }
	}
	samem(c, "input_unchanged", A, a);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count(m == n ? "square" : "tall");
	c.obs(hsh(m * 8 + n, a.d), n > 1);
}

UNIT("D02", "cholesky", 700, 8000) {
	Rng &r = c.rng;
	int n = r.range(1, 7);
	DV l(n); for (double &x : l) x = r.uni(0.2, 8);
	DM a = spectrum(r, l);
	if (r.chance(0.3)) { a = DM(n, n); DM b(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) b.at(i, j) = i == j ? r.range(1, 3) : r.range(-2, 2); a = mul(b, tr(b)); }
	DV ev; DM vv; sym_eigen(a, ev, vv); double lo = *std::min_element(ev.begin(), ev.end());
	if (lo < 0.02) return;
	RM A = mkm(a);
	MLPPLinAlg alg;
	long e0 = errors();
	c.label("linalg.cholesky");
	MLPPLinAlg::CholeskyResult ch = alg.cholesky(A);
	double t = 1e-5 * mx(a.d) * n * (1 + 0.05 * mx(a.d) / lo);
	if (shape(c, "l_shape", ch.L, n, n) && shape(c, "lt_shape", ch.Lt, n, n)) {
		DM L = dm(ch.L), Lt = dm(ch.Lt);
		for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (L.at(i, j) != 0) { c.fail("lower_triangular", strf("L(%d,%d) = %g", i, j, L.at(i, j))); i = n; break; }
		for (int i = 0; i < n; i++) if (!(L.at(i, i) > 0)) { c.fail("positive_diagonal", strf("L(%d,%d) = %g", i, i, L.at(i, i))); break; }
		nearm(c, "transpose", Lt, tr(L), 0, a);
		nearm(c, "product", mul(L, tr(L)), a, t, a);
	}
	samem(c, "input_unchanged", A, a);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.obs(hsh(n, a.d), n > 1);
	c.sample("cholesky of " + str(a));
}

UNIT("D02", "definiteness", 700, 8000) {
	Rng &r = c.rng;
	int n = r.range(1, 6), f = r.range(0, 5);
	static const char *nm[] = { "positive_definite", "negative_definite", "indefinite", "positive_with_zero", "negative_with_zero", "indefinite_with_zero" };
	DM a;
	bool zero = f >= 3;
	if (zero) {
		if (n == 1) { a = DM(1, 1); }
		else {
			// exactly singular: integer B (rank < n), B^T D B with integer D of the wanted signs
			int k = r.range(1, n - 1);
			if (f == 5) k = std::max(k, std::min(2, n - 1));
			DM b(k, n), d(k, k);
			for (int i = 0; i < k; i++) { for (int j = 0; j < n; j++) b.at(i, j) = i == j ? 2 : j >= k ? r.range(-2, 2) : 0; d.at(i, i) = f == 3 ? 1 : f == 4 ? -1 : i % 2 ? -1 : 1; }
			a = mul(mul(tr(b), d), b);
		}
	} else {
		DV l(n);
		for (int i = 0; i < n; i++) l[i] = (f == 0 ? 1 : f == 1 ? -1 : i % 2 ? -1 : 1) * r.uni(0.15, 5);
		a = spectrum(r, l);
	}
	DV ev; DM vv; sym_eigen(a, ev, vv);
	bool pd = true, nd = true;
	double big = mx(ev) + 1e-30;
	for (double e : ev) { if (std::fabs(e) < 1e-9 * big || e == 0) { pd = nd = false; } else { if (e < 0) pd = false; else nd = false; } }
	RM A = mkm(a);
	MLPPLinAlg alg;
	long e0 = errors();
	c.label(nm[f]);
	// with an exact zero eigenvalue rounding decides its sign: the definiteness answers are then only
	// judged where the other eigenvalues already decide them
	bool mixed = false; { bool p = false, m = false; for (double e : ev) if (std::fabs(e) > 1e-6 * big) { if (e > 0) p = true; else m = true; } mixed = p && m; }
	bool judged_pd = !zero || mixed || f == 4, judged_nd = !zero || mixed || f == 3;
	if (zero && n == 1) judged_pd = judged_nd = true;
	if (judged_pd) c.check("positive_definite", alg.positive_definite_checker(A) == pd, strf("expected %d for %s", pd, str(a).c_str()));
	if (judged_nd) c.check("negative_definite", alg.negative_definite_checker(A) == nd, strf("expected %d for %s", nd, str(a).c_str()));
	c.check("zero_eigenvalue", alg.zero_eigenvalue(A) == zero, strf("expected %d for %s", zero, str(a).c_str()));
	samem(c, "input_unchanged", A, a);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count(nm[f]);
	c.obs(hsh(hs(nm[f]), a.d));
}

UNIT("D02", "linear_independence", 600, 8000) {
	Rng &r = c.rng;
	// rows as vectors (the project's own example); only square and wide matrices, where the
	// number of vectors can be independent
	int n = r.range(1, 5), m = n + r.range(0, 3);
	bool dep = r.chance(0.5);
	DM a;
	if (dep) {
		a = gm(r, n, m, K_SMALLINT);
		int k = r.range(0, n - 1);
		for (int j = 0; j < m; j++) a.at(k, j) = 0;
		if (n > 1 && !r.chance(0.1)) for (int i = 0; i < n; i++) if (i != k) { int f = r.range(-2, 2); for (int j = 0; j < m; j++) a.at(k, j) += f * a.at(i, j); }
	} else {
		DV l; DM v; double lo = 0;
		for (int t = 0; t < 100 && !(lo > 0.1); t++) { a = gm(r, n, m, r.chance(0.5) ? K_SMALLINT : K_STD); if (r.chance(0.4)) for (int i = 0; i < n; i++) a.at(i, 0) = 0; if (m == 1 && a.at(0, 0) == 0) a.at(0, 0) = 1;
			DM u = a; for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < m; j++) s += u.at(i, j) * u.at(i, j); s = std::sqrt(s) + 1e-30; for (int j = 0; j < m; j++) u.at(i, j) /= s; }
			sym_eigen(mul(u, tr(u)), l, v); lo = *std::min_element(l.begin(), l.end()); }
		if (!(lo > 0.1)) { a = DM(n, m); for (int i = 0; i < n; i++) a.at(i, m - 1 - i) = i + 1; }
	}
	RM A = mkm(a);
	MLPPLinAlg alg;
	long e0 = errors();
	c.label(dep ? "dependent" : "independent");
	c.check("answer", alg.linear_independence_checker(A) == !dep, strf("expected %d for %s", !dep, str(a).c_str()));
	samem(c, "input_unchanged", A, a);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count(dep ? "dependent" : "independent");
	c.obs(hsh(dep, a.d));
}

UNIT("D02", "pca", 400, 5000) {
	Rng &r = c.rng;
	// variables in rows, samples in columns
	int p = r.range(2, 5), N = p + r.range(2, 12);
	DV sd(p); for (int i = 0; i < p; i++) sd[i] = 0.3 * std::pow(2.2, i) * r.uni(0.9, 1.1);
	DM q = ortho(r, p), x(p, N);
	for (int j = 0; j < N; j++) { DV z(p); for (int i = 0; i < p; i++) z[i] = sd[i] * r.uni(-1.7, 1.7); for (int i = 0; i < p; i++) { double s = 0; for (int k = 0; k < p; k++) s += q.at(i, k) * z[k]; x.at(i, j) = (float)(s + 2 * i - 1); } }
	DM xc = x, cov(p, p);
	for (int i = 0; i < p; i++) { double m = 0; for (int j = 0; j < N; j++) m += x.at(i, j) / N; for (int j = 0; j < N; j++) xc.at(i, j) -= m; }
	DM xx = mul(xc, tr(xc));
	for (int i = 0; i < p * p; i++) cov.d[i] = xx.d[i] / (N - 1);
	DV l; DM v; sym_eigen(cov, l, v);
	std::vector<int> o(p); for (int i = 0; i < p; i++) o[i] = i;
	std::sort(o.begin(), o.end(), [&](int a, int b) { return l[a] > l[b]; });
	for (int i = 0; i + 1 < p; i++) if (l[o[i]] < 1.15 * l[o[i + 1]]) return; // directions not well determined
	int k = r.range(1, p);
	RM X = mkm(x);
	Ref<MLPPPCA> pca = r.chance(0.5) ? Ref<MLPPPCA>(memnew(MLPPPCA(X, k))) : Ref<MLPPPCA>(memnew(MLPPPCA));
	if (!pca->get_input_set().is_valid()) { pca->set_input_set(X); pca->set_k(k); }
	long e0 = errors();
	double tot = 0, kept = 0; for (int i = 0; i < p; i++) { tot += l[o[i]]; if (i < k) kept += l[o[i]]; }
	for (int rep = 0; rep < 2; rep++) { // asking again gives the same answer
		c.label(rep ? "second_call" : "first_call");
		RM Z = pca->principal_components();
		if (!shape(c, "shape", Z, k, N)) return;
		DM z = dm(Z);
		for (int i = 0; i < k; i++) {
			DV w(N, 0); double s = 0, sc = 0;
			for (int j = 0; j < N; j++) { for (int y = 0; y < p; y++) w[j] += v.at(y, o[i]) * xc.at(y, j); s += w[j] * z.at(i, j); sc = std::max(sc, std::fabs(w[j])); }
			double sg = s < 0 ? -1 : 1, tol = 1e-3 * mx(xc.d) + 1e-5;
			for (int j = 0; j < N; j++) if (!(std::fabs(z.at(i, j) - sg * w[j]) <= tol)) { c.fail("projection", strf("component %d sample %d: %g, expected %g (scale %g)", i, j, z.at(i, j), sg * w[j], sc)); i = k; break; }
		}
		c.eq("score", pca->score(), kept / tot, 0, 1e-3);
	}
	samem(c, "input_unchanged", X, x);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count(k == p ? "all_components" : "reduced");
	c.obs(hsh(p * 64 + k, x.d));
	c.sample(strf("pca p=%d N=%d k=%d", p, N, k));
}

UNIT("D02", "refusals", 200, 1500) {
	Rng &r = c.rng;
	int n = r.range(1, 5), m = r.range(1, 5);
	if (m == n) m++;
	DM a = gm(r, n, m);
	RM A = mkm(a), N;
	MLPPLinAlg alg;
	int op = r.range(0, 13);
	static const char *nm[] = { "linalg.eigen_null", "linalg.eigen_non_square", "matrix.eigen_non_square", "matrix.eigenb_null", "linalg.svd_null", "matrix.svdb_null", "linalg.gram_schmidt_null", "linalg.qrd_null", "linalg.cholesky_null", "linalg.cholesky_non_square", "linalg.definiteness_null", "linalg.definiteness_non_square", "linalg.independence_null", "pca_without_input" };
	c.label(nm[op]);
	long e0 = errors();
	switch (op) {
		case 0: c.check("neutral", !alg.eigen(N).eigen_values.is_valid()); break;
		case 1: c.check("neutral", !alg.eigen(A).eigen_values.is_valid()); break;
		case 2: c.check("neutral", !A->eigen().eigen_values.is_valid()); break;
		case 3: c.check("neutral", !A->eigenb(N).eigen_values.is_valid()); break;
		case 4: c.check("neutral", !alg.svd(N).U.is_valid()); break;
		case 5: c.check("neutral", !A->svdb(N).U.is_valid()); break;
		case 6: c.check("neutral", !alg.gram_schmidt_process(N).is_valid()); break;
		case 7: c.check("neutral", !alg.qrd(N).Q.is_valid()); break;
		case 8: c.check("neutral", !alg.cholesky(N).L.is_valid()); break;
		case 9: c.check("neutral", !alg.cholesky(A).L.is_valid()); break;
		case 10: alg.positive_definite_checker(N); alg.negative_definite_checker(N); alg.zero_eigenvalue(N); break;
		case 11: alg.positive_definite_checker(A); alg.negative_definite_checker(A); alg.zero_eigenvalue(A); break;
		case 12: alg.linear_independence_checker(N); alg.gram_matrix(N); break;
		case 13: { Ref<MLPPPCA> p(memnew(MLPPPCA)); RM z = p->principal_components(); c.check("neutral", !z.is_valid() || z->data_size() == 0); p->score(); } break;
	}
	c.check("reported", errors() > e0, "an invalid request was not reported");
	samem(c, "unchanged", A, a);
	c.count(nm[op]);
	c.obs(hsh(hs(nm[op]), a.d));
}
