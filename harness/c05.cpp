// C05: products, reductions, builders and covariance against textbook definitions in double.
#include "vh.h"
#include <algorithm>

static double mag(const DV &a) { double m = 0; for (double x : a) m = std::max(m, std::fabs(x)); return m; }
static double tolp(const DM &a, const DM &b) { return 4e-7 * (a.co + 2) * mag(a.d) * mag(b.d) + 1e-30; }
static DM kron(const DM &a, const DM &b) {
	DM k(a.r * b.r, a.co * b.co);
	for (int i = 0; i < k.r; i++) for (int j = 0; j < k.co; j++) k.at(i, j) = a.at(i / b.r, j / b.co) * b.at(i % b.r, j % b.co);
	return k;
}
static RM anym(Rng &r, int rows, int cols) {
	int m = r.range(0, 3);
	return m == 0 ? newm(0, 0) : m == 1 ? newm(rows, cols) : m == 2 ? newm(cols, rows) : newm(r.range(1, 7), r.range(1, 7));
}
static RV anyv(Rng &r, int n) { int m = r.range(0, 2); return newv(m == 0 ? 0 : m == 1 ? n : r.range(1, 20)); }
static Kind kk(Rng &r) { return r.pick(std::vector<Kind>{ K_STD, K_STD, K_SMALLINT, K_UNIT, K_POS, K_MIX }); }
static void endop(Ctx &c, long e0, const char *op, uint64_t h) {
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count(op);
	c.obs(hsh(hs(op), h));
}

UNIT("C05", "matmul", 900, 16000) {
	Rng &r = c.rng;
	bool big = r.chance(0.05);
	int n = r.range(1, big ? 40 : 7), m = r.range(1, big ? 40 : 7), p = r.range(1, big ? 40 : 7);
	if (r.chance(0.3)) p = m; // square right operand
	DM a = gm(r, n, m, kk(r)), b = gm(r, m, p, kk(r)), w = mul(a, b);
	double t = tolp(a, b);
	long e0 = errors();
	c.label("matrix.mult");
	RM A = mkm(a), B = mkm(b);
	RM N = A->multn(B);
	cmpm(c, "new", N, w, 0, t);
	samem(c, "new.left_unchanged", A, a); samem(c, "new.right_unchanged", B, b);
	RM T = anym(r, n, p);
	T->multb(A, B);
	cmpm(c, "into", T, w, 0, t);
	samem(c, "into.left_unchanged", A, a); samem(c, "into.right_unchanged", B, b);
	RM X = mkm(a);
	X->mult(B);
	cmpm(c, "inplace", X, w, 0, t);
	samem(c, "inplace.right_unchanged", B, b);
	X = mkm(a); X->multb(X, B); cmpm(c, "into.target_is_left", X, w, 0, t);
	X = mkm(b); X->multb(A, X); cmpm(c, "into.target_is_right", X, w, 0, t);
	if (m == p) {
		DM bb = mul(b, b); double tb = tolp(b, b);
		X = mkm(b); X->mult(X); cmpm(c, "inplace.with_itself", X, bb, 0, tb);
		X = mkm(b); RM Y = X->multn(X); cmpm(c, "new.with_itself", Y, bb, 0, tb); samem(c, "new.itself_unchanged", X, b);
		X->multb(X, X); cmpm(c, "into.all_same", X, bb, 0, tb);
	}
	endop(c, e0, "mult", hsh(hsh(n * 64 + m, a.d), b.d));
	c.sample(str(a) + " * " + str(b) + " = " + str(w));

	e0 = errors();
	c.label("matrix.mult_vec");
	int bl = r.chance(0.15) ? r.range(1, m) : m; // a shorter vector multiplies the leading columns
	DV v = gv(r, bl, kk(r)), wv(n, 0);
	for (int i = 0; i < n; i++) for (int k = 0; k < bl; k++) wv[i] += a.at(i, k) * v[k];
	double tv = 4e-7 * (m + 2) * mag(a.d) * mag(v) + 1e-30;
	RV V = mkv(v);
	cmpv(c, "new", A->mult_vec(V), wv, 0, tv);
	RV O = anyv(r, n);
	A->mult_veco(V, O);
	cmpv(c, "into", O, wv, 0, tv);
	samem(c, "matrix_unchanged", A, a); samev(c, "vector_unchanged", V, v);
	O = mkv(v); A->mult_veco(O, O); cmpv(c, "into.target_is_operand", O, wv, 0, tv);
	endop(c, e0, "mult_vec", hsh(hsh(n * 64 + m, a.d), v));
}

UNIT("C05", "transpose_kron", 700, 12000) {
	Rng &r = c.rng;
	int n = r.range(1, 5), m = r.range(1, 5), p = r.range(1, 4), q = r.range(1, 4);
	DM a = gm(r, n, m, kk(r)), b = gm(r, p, q, kk(r));
	RM A = mkm(a), B = mkm(b);
	long e0 = errors();
	c.label("matrix.transpose");
	DM w = tr(a);
	samem(c, "new", A->transposen(), w); samem(c, "new.unchanged", A, a);
	RM T = anym(r, m, n); T->transposeb(A); samem(c, "into", T, w); samem(c, "into.unchanged", A, a);
	RM X = mkm(a); X->transpose(); samem(c, "inplace", X, w);
	X = mkm(a); X->transposeb(X); samem(c, "into.target_is_operand", X, w);
	endop(c, e0, "transpose", hsh(n * 8 + m, a.d));
	e0 = errors();
	c.label("matrix.kronecker");
	DM k = kron(a, b);
	cmpm(c, "new", A->kronecker_productn(B), k, 2e-6, 1e-12);
	samem(c, "new.left_unchanged", A, a); samem(c, "new.right_unchanged", B, b);
	T = anym(r, k.r, k.co); T->kronecker_productb(A, B); cmpm(c, "into", T, k, 2e-6, 1e-12);
	samem(c, "into.left_unchanged", A, a); samem(c, "into.right_unchanged", B, b);
	X = mkm(a); X->kronecker_product(B); cmpm(c, "inplace", X, k, 2e-6, 1e-12);
	samem(c, "inplace.right_unchanged", B, b);
	X = mkm(a); X->kronecker_productb(X, B); cmpm(c, "into.target_is_left", X, k, 2e-6, 1e-12);
	X = mkm(b); X->kronecker_productb(A, X); cmpm(c, "into.target_is_right", X, k, 2e-6, 1e-12);
	DM kb = kron(b, b);
	X = mkm(b); X->kronecker_product(X); cmpm(c, "inplace.with_itself", X, kb, 2e-6, 1e-12);
	endop(c, e0, "kronecker", hsh(hsh(n * 8 + m, a.d), b.d));
}

UNIT("C05", "power_trace_flat", 500, 9000) {
	Rng &r = c.rng;
	int n = r.range(1, 4);
	DM a = gm(r, n, n, K_UNIT);
	long e0 = errors();
	c.label("matrix.power");
	int e = r.range(0, 6);
	RM A = mkm(a);
	if (r.chance(0.35)) { // diagonally dominant, so that the inverse is well conditioned
		for (int i = 0; i < n; i++) a.at(i, i) = (float)(a.at(i, i) + (r.chance(0.5) ? n + 1 : -(n + 1)));
		A = mkm(a);
		e = -r.range(1, 3);
		if (n == 1) e = 0;
	}
	DM w(n, n); for (int i = 0; i < n; i++) w.at(i, i) = 1;
	DM f = e < 0 ? inv_d(a) : a;
	for (int i = 0; i < std::abs(e); i++) w = mul(w, f);
	RM P = A->matrix_powern(e);
	cmpm(c, e < 0 ? "negative" : "value", P, w, 2e-5, 2e-5 * (mag(w.d) + 1e-3));
	samem(c, "unchanged", A, a);
	c.check("fresh", P.ptr() != A.ptr(), "the power aliases its base");
	endop(c, e0, "power", hsh(n * 16 + e + 8, a.d));

	int rr = r.range(1, 6), cc = r.range(1, 6);
	DM m = gm(r, rr, cc, kk(r));
	RM M = mkm(m);
	e0 = errors();
	c.label("matrix.trace");
	double s = 0; for (int i = 0; i < std::min(rr, cc); i++) s += m.at(i, i);
	c.eq("value", M->trace(), s, 2e-6, 1e-5 * (mag(m.d) + 1e-9));
	c.label("matrix.flatten");
	samev(c, "new", M->flatten(), m.d);
	RV o = anyv(r, rr * cc); M->flatteno(o); samev(c, "into", o, m.d);
	samem(c, "unchanged", M, m);
	endop(c, e0, "trace_flatten", hsh(rr * 8 + cc, m.d));
	e0 = errors();
	c.label("tensor.flatten");
	DT t = gt(r, r.range(1, 4), rr, cc, kk(r));
	RT TT_ = mkt(t);
	samev(c, "new", TT_->flatten(), t.d);
	o = anyv(r, (int)t.d.size()); TT_->flatteno(o); samev(c, "into", o, t.d);
	c.label("tensor.vec_mult");
	DV v = gv(r, cc, kk(r));
	RV V = mkv(v);
	DM tv(t.z, t.r);
	for (int z = 0; z < t.z; z++) for (int y = 0; y < t.r; y++) for (int x = 0; x < t.co; x++) tv.at(z, y) += t.at(z, y, x) * v[x];
	cmpm(c, "value", TT_->tensor_vec_mult(V), tv, 0, 4e-7 * (cc + 2) * mag(t.d) * mag(v) + 1e-30);
	samet(c, "unchanged", TT_, t); samev(c, "vector_unchanged", V, v);
	endop(c, e0, "tensor", hsh(t.z * 64 + rr * 8 + cc, t.d));
}

UNIT("C05", "vector_reductions", 1500, 30000) {
	Rng &r = c.rng;
	int n = r.chance(0.1) ? r.range(50, 300) : r.range(1, 17);
	Kind k = kk(r);
	DV a = gv(r, n, k), b = gv(r, n, kk(r));
	if (r.chance(0.1)) { double s = r.chance(0.5) ? 1e4 : 1e-4; for (double &x : a) x = (float)(x * s); }
	if (r.chance(0.2)) for (size_t i = 0; i < a.size(); i++) if (r.chance(0.4)) b[i] = a[i];
	double sab = 0, aab = 0, sq = 0, sm = 0, asm_ = 0, ds = 0;
	for (int i = 0; i < n; i++) { sab += a[i] * b[i]; aab += std::fabs(a[i] * b[i]); sq += a[i] * a[i]; sm += a[i]; asm_ += std::fabs(a[i]); ds += (a[i] - b[i]) * (a[i] - b[i]); }
	double u = 1.2e-7 * (n + 3);
	long e0 = errors();
	c.label("vector.reductions");
	RV A = mkv(a), B = mkv(b);
	c.eq("dot", A->dot(B), sab, 0, u * aab + 1e-30);
	c.eq("dot_self", A->dot(A), sq, u, 1e-30);
	c.eq("norm_sq", A->norm_sq(), sq, u, 1e-30);
	c.eq("norm_2", A->norm_2(), std::sqrt(sq), u, 1e-30);
	c.eq("sum", A->sum_elements(), sm, 0, u * asm_ + 1e-30);
	c.eq("distance_squared", A->euclidean_distance_squared(B), ds, u + 1e-6, 1e-30);
	c.eq("distance", A->euclidean_distance(B), std::sqrt(ds), u + 1e-6, 1e-30);
	c.eq("distance_self", A->euclidean_distance(A), 0, 0, 0);
	int mx = (int)(std::max_element(a.begin(), a.end()) - a.begin()), mn = (int)(std::min_element(a.begin(), a.end()) - a.begin());
	c.eq("max", A->max_element(), a[mx], 0, 0);
	c.eq("min", A->min_element(), a[mn], 0, 0);
	int gi = A->max_element_index(), gj = A->min_element_index();
	c.check("max_index", gi >= 0 && gi < n && a[gi] == a[mx], strf("index %d of %s", gi, str(a).c_str()));
	c.check("min_index", gj >= 0 && gj < n && a[gj] == a[mn], strf("index %d of %s", gj, str(a).c_str()));
	samev(c, "unchanged", A, a); samev(c, "operand_unchanged", B, b);
	endop(c, e0, "reductions", hsh(hsh(n, a), b));
	if (n < 6) c.sample(str(a) + " . " + str(b) + strf(" = %g", sab));

	e0 = errors();
	c.label("vector.cross");
	DV p = gv(r, 3, kk(r)), q = gv(r, 3, kk(r));
	RV P = mkv(p), Q = mkv(q);
	DV w = { p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0] };
	cmpv(c, "value", P->cross(Q), w, 0, 1e-6 * mag(p) * mag(q) + 1e-30);
	samev(c, "unchanged", P, p); samev(c, "operand_unchanged", Q, q);
	endop(c, e0, "cross", hsh(hsh(0, p), q));

	e0 = errors();
	c.label("vector.outer");
	if (n > 20) { a.resize(20); A = mkv(a); n = 20; }
	DV d = gv(r, r.range(1, 9), kk(r));
	RV D = mkv(d);
	DM o(n, (int)d.size());
	for (int i = 0; i < n; i++) for (size_t j = 0; j < d.size(); j++) o.at(i, (int)j) = a[i] * d[j];
	cmpm(c, "vector_form", A->outer_product(D), o, 3e-7, 1e-37);
	RM M = anym(r, o.r, o.co); M->outer_product(A, D); cmpm(c, "into", M, o, 3e-7, 1e-37);
	cmpm(c, "new", M->outer_productn(A, D), o, 3e-7, 1e-37);
	c.label("vector.diag");
	DM dg(n, n); for (int i = 0; i < n; i++) dg.at(i, i) = a[i];
	samem(c, "value", A->diagnm(), dg);
	endop(c, e0, "outer_diag", hsh(hsh(n, a), d));

	e0 = errors();
	c.label("vector.subtract_matrix_rows");
	int rows = r.range(1, 5);
	DM sb = gm(r, rows, n, kk(r));
	DV ws = a; for (int i = 0; i < rows; i++) for (int j = 0; j < n; j++) ws[j] -= sb.at(i, j);
	double ts = 1e-6 * (rows + 1) * (mag(a) + mag(sb.d));
	RM SB = mkm(sb);
	cmpv(c, "new", A->subtract_matrix_rowsn(SB), ws, 0, ts); samev(c, "new.unchanged", A, a);
	RV t = anyv(r, n); t->subtract_matrix_rowsb(A, SB); cmpv(c, "into", t, ws, 0, ts); samev(c, "into.unchanged", A, a);
	t = mkv(a); t->subtract_matrix_rowsb(t, SB); cmpv(c, "into.target_is_operand", t, ws, 0, ts);
	A->subtract_matrix_rows(SB); cmpv(c, "inplace", A, ws, 0, ts);
	samem(c, "matrix_unchanged", SB, sb);
	endop(c, e0, "subtract_rows", hsh(hsh(rows, a), sb.d));

	e0 = errors();
	c.label("vector.flatten_vectors");
	Vector<Ref<MLPPVector>> vs; DV fl;
	int cnt = r.range(0, 5);
	for (int i = 0; i < cnt; i++) { DV x = gv(r, r.range(0, 5), K_STD); vs.push_back(mkv(x)); fl.insert(fl.end(), x.begin(), x.end()); }
	samev(c, "new", A->flatten_vectorsn(vs), fl);
	t = anyv(r, (int)fl.size()); t->flatten_vectors(vs); samev(c, "into", t, fl);
	endop(c, e0, "flatten_vectors", hsh(cnt, fl));
}

UNIT("C05", "builders", 500, 8000) {
	Rng &r = c.rng;
	int n = r.range(1, 8), m = r.range(1, 8), k = r.range(-20, 20);
	long e0 = errors();
	c.label("vector.builders");
	RV any = mkv(gv(r, r.range(0, 4)));
	samev(c, "zero", any->vecn_zero(n), DV(n, 0)); samev(c, "create_zero", MLPPVector::create_vec_zero(n), DV(n, 0));
	samev(c, "one", any->vecn_one(n), DV(n, 1)); samev(c, "create_one", MLPPVector::create_vec_one(n), DV(n, 1));
	samev(c, "full", any->vecn_full(n, k), DV(n, k)); samev(c, "create_full", MLPPVector::create_vec_full(n, k), DV(n, k));
	c.label("matrix.builders");
	DM am = gm(r, r.range(1, 4), r.range(1, 4));
	RM anm = mkm(am);
	samem(c, "zero", anm->matn_zero(n, m), DM(n, m, 0)); samem(c, "one", anm->matn_one(n, m), DM(n, m, 1)); samem(c, "full", anm->matn_full(n, m, k), DM(n, m, k));
	DM id(n, n); for (int i = 0; i < n; i++) id.at(i, i) = 1;
	samem(c, "identity_mat", anm->identity_mat(n), id); samem(c, "create_identity", MLPPMatrix::create_identity_mat(n), id);
	DM idr(am.r, am.co); for (int i = 0; i < std::min(am.r, am.co); i++) idr.at(i, i) = 1;
	samem(c, "identityn", anm->identityn(), idr); samem(c, "source_unchanged", anm, am);
	anm->identity(); samem(c, "identity_inplace", anm, idr);
	endop(c, e0, "builders", n * 1000 + m * 100 + k);
	e0 = errors();
	c.label("matrix.rotation");
	double th = r.f(-7, 7);
	if (r.chance(0.2)) th = (float)(r.range(-4, 4) * 0.7853981633974483);
	double C = std::cos(th), S = std::sin(th);
	DM two(2, 2); two.d = { C, -S, S, C };
	DM rx(3, 3), ry(3, 3), rz(3, 3);
	rx.d = { 1, 0, 0, 0, C, -S, 0, S, C }; ry.d = { C, 0, S, 0, 1, 0, -S, 0, C }; rz.d = { C, -S, 0, S, C, 0, 0, 0, 1 };
	DM R[4] = { two, rx, ry, rz };
	const char *nm[4] = { "plane", "x", "y", "z" };
	for (int i = 0; i < 4; i++) {
		cmpm(c, strf("axis_%s", nm[i]), anm->create_rotation_matrix((real_t)th, i - 1), R[i], 1e-5, 1e-6);
		int rows = r.range(1, 4);
		DM p = gm(r, rows, i ? 3 : 2, K_STD), w = mul(p, R[i]);
		double t = 1e-5 * mag(p.d);
		RM P = mkm(p);
		cmpm(c, "rotaten", P->rotaten((real_t)th, i - 1), w, 0, t); samem(c, "rotaten.unchanged", P, p);
		RM T = anym(r, rows, p.co); T->rotateb(P, (real_t)th, i - 1); cmpm(c, "rotateb", T, w, 0, t);
		P->rotate((real_t)th, i - 1); cmpm(c, "rotate", P, w, 0, t);
	}
	endop(c, e0, "rotation", hsh(0, DV(1, th)));
}

UNIT("C05", "covariance", 500, 9000) {
	Rng &r = c.rng;
	// rows are variables, columns are observations
	int n = r.range(1, 6), m = r.range(2, 8);
	DM a = gm(r, n, m, kk(r)), w(n, n);
	double M = mag(a.d);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
		double mi = 0, mj = 0, s = 0;
		for (int k = 0; k < m; k++) { mi += a.at(i, k) / m; mj += a.at(j, k) / m; }
		for (int k = 0; k < m; k++) s += (a.at(i, k) - mi) * (a.at(j, k) - mj);
		w.at(i, j) = s / (m - 1);
	}
	long e0 = errors();
	c.label("matrix.cov");
	RM A = mkm(a);
	cmpm(c, "new", A->cov(), w, 0, 5e-6 * M * M + 1e-30); samem(c, "unchanged", A, a);
	RM T = anym(r, n, n); A->covo(T); cmpm(c, "into", T, w, 0, 5e-6 * M * M + 1e-30); samem(c, "into.unchanged", A, a);
	endop(c, e0, "cov", hsh(n * 16 + m, a.d));
	e0 = errors();
	c.label("matrix.gaussian_noise");
	int rr = r.range(20, 40), cc = r.range(20, 40);
	RM N = MLPPMatrix::create_gaussian_noise(rr, cc);
	RM N2 = A->gaussian_noise(rr, cc);
	RM N3 = newm(rr, cc); N3->gaussian_noise_fill();
	RM ns[3] = { N, N2, N3 };
	for (int i = 0; i < 3; i++) {
		DM d = dm(ns[i]);
		if (!c.check("shape", d.r == rr && d.co == cc, strf("%dx%d", d.r, d.co))) continue;
		double s = 0, q = 0; bool fin = true; std::set<double> dist;
		for (double x : d.d) { s += x; q += x * x; fin = fin && std::isfinite(x); dist.insert(x); }
		double k = d.d.size(); s /= k; q = std::sqrt(q / k - s * s);
		c.check("finite", fin, "an element was not written");
		// 400 samples at least: mean within 7 sigma/sqrt(n), deviation within 30 %
		c.check("mean", std::fabs(s) < 7 / std::sqrt(k), strf("mean %g", s));
		c.check("deviation", q > 0.7 && q < 1.3, strf("deviation %g", q));
		c.check("varied", dist.size() > k / 2, "repeated values");
	}
	endop(c, e0, "noise", rr * 64 + cc + c.case_no * 4096);
}
