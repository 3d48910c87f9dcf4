// D01: determinant, cofactors, adjugate, inverse, pseudo-inverse and solve against a double
// precision reference, for the container methods and the linear-algebra service.
#include "vh.h"
#include <algorithm>

static double mx(const DV &a) { double m = 0; for (double x : a) m = std::max(m, std::fabs(x)); return m; }
// sum over permutations of |products|: scale of the rounding error of any determinant expansion
static double perm_abs(const DM &a, int row = 0, unsigned used = 0) {
	if (row == a.r) return 1;
	double s = 0;
	for (int j = 0; j < a.co; j++)
		if (!(used >> j & 1)) s += std::fabs(a.at(row, j)) * perm_abs(a, row + 1, used | 1u << j);
	return s;
}
// the Leibniz sum itself (exactly 0 where every product is 0, unlike elimination)
static double perm_sum(const DM &a, int row = 0, unsigned used = 0) {
	if (row == a.r) return 1;
	double s = 0;
	int before = 0; // unused columns left of j: parity of the permutation
	for (int j = 0; j < a.co; j++)
		if (!(used >> j & 1)) { if (a.at(row, j) != 0) s += (before & 1 ? -1 : 1) * a.at(row, j) * perm_sum(a, row + 1, used | 1u << j); before++; }
	return s;
}
static DM sub(const DM &a, int i, int j) {
	DM m(a.r - 1, a.co - 1);
	for (int y = 0, yy = 0; y < a.r; y++) { if (y == i) continue; for (int x = 0, xx = 0; x < a.co; x++) { if (x == j) continue; m.at(yy, xx++) = a.at(y, x); } yy++; }
	return m;
}
static DM lead(const DM &a, int n) { DM m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m.at(i, j) = a.at(i, j); return m; }
static double detx(const DM &a) { return a.r == 0 ? 1 : perm_sum(a); }
static DM adj_d(const DM &a, DM &tol) {
	DM r(a.r, a.r); tol = DM(a.r, a.r);
	for (int i = 0; i < a.r; i++) for (int j = 0; j < a.r; j++) { DM s = sub(a, i, j); r.at(j, i) = ((i + j) & 1 ? -1 : 1) * detx(s); tol.at(j, i) = 2e-6 * perm_abs(s) + 1e-30; }
	return r;
}
static double n1(const DM &a) { double m = 0; for (int y = 0; y < a.r; y++) { double s = 0; for (int x = 0; x < a.co; x++) s += std::fabs(a.at(y, x)); m = std::max(m, s); } return m; }
static void cmp_tol(Ctx &c, const char *kind, const RM &g, const DM &w, const DM &tol) {
	if (!c.check(kind, g.is_valid() && g->size() == Size2i(w.co, w.r), "wrong shape or missing")) return;
	DM d = dm(g);
	for (size_t k = 0; k < d.d.size(); k++)
		if (!(std::fabs(d.d[k] - w.d[k]) <= tol.d[k])) { c.fail(kind, strf("element %d: got %g want %g (tol %g) matrix %s", (int)k, d.d[k], w.d[k], tol.d[k], str(w).c_str())); return; }
}
// a matrix of the requested size, of one of several families
static DM family(Rng &r, int n, std::string &name) {
	int f = r.range(0, 8);
	DM a = gm(r, n, n, K_STD);
	switch (f) {
		case 0: name = "random"; break;
		case 1: name = "small_integer"; a = gm(r, n, n, K_SMALLINT); break;
		case 2: name = "diagonally_dominant"; for (int i = 0; i < n; i++) a.at(i, i) = (float)(a.at(i, i) + (r.chance(0.5) ? 1 : -1) * 3.0 * n); break;
		case 3: name = "permutation"; { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.range(0, i)]); a = DM(n, n); for (int i = 0; i < n; i++) a.at(i, p[i]) = r.range(1, 3) * (r.chance(0.5) ? 1 : -1); } break;
		case 4: name = "upper_triangular"; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a.at(i, j) = 0; break;
		case 5: name = "zero_diagonal"; for (int i = 0; i < n; i++) a.at(i, i) = 0; break;
		case 6: name = "symmetric"; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a.at(i, j) = a.at(j, i); break;
		case 7: name = "singular"; a = gm(r, n, n, K_SMALLINT); if (n > 1) for (int j = 0; j < n; j++) a.at(n - 1, j) = a.at(0, j) * 2; else a.at(0, 0) = 0; break;
		default: name = "near_identity"; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a.at(i, j) = (float)((i == j) + 0.1 * a.at(i, j)); break;
	}
	return a;
}

UNIT("D01", "determinant", 900, 12000) {
	Rng &r = c.rng;
	int n = r.chance(0.15) ? 1 : r.chance(0.1) ? 7 : r.range(1, 6);
	std::string fam;
	DM a = family(r, n, fam);
	double w = perm_sum(a), t = 2e-6 * perm_abs(a) + 1e-30;
	RM A = mkm(a);
	MLPPLinAlg alg;
	long e0 = errors();
	c.label("matrix.det");
	c.eq("det", A->det(), w, 0, t);
	c.eq("det.sized", A->det(n), w, 0, t);
	c.label("matrix.detb");
	RM other = newm(r.range(0, 3), r.range(0, 3));
	c.eq("detb", other->detb(A, n), w, 0, t);
	c.label("linalg.detm");
	c.eq("detm", alg.detm(A, n), w, 0, t);
	int k = r.range(1, n);
	DM l = lead(a, k);
	c.label("leading_minor");
	c.eq("det.leading", A->det(k), perm_sum(l), 0, 2e-6 * perm_abs(l) + 1e-30);
	c.eq("detm.leading", alg.detm(A, k), perm_sum(l), 0, 2e-6 * perm_abs(l) + 1e-30);
	samem(c, "input_unchanged", A, a);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count(fam.c_str());
	c.obs(hsh(hs(fam), a.d), std::fabs(w) > t);
	c.sample("det " + str(a) + strf(" = %g", w));
	// algebraic laws, independent of the reference: det(A^T) = det(A), swapping rows flips the sign
	c.label("matrix.det");
	c.eq("transpose_law", A->transposen()->det(), w, 0, t);
	if (n > 1) { RM S = mkm(a); S->row_swap(0, n - 1); c.eq("row_swap_law", S->det(), -w, 0, t); }
}

UNIT("D01", "cofactor_adjugate", 700, 9000) {
	Rng &r = c.rng;
	int n = r.range(1, 6);
	std::string fam;
	DM a = family(r, n, fam);
	RM A = mkm(a);
	MLPPLinAlg alg;
	long e0 = errors();
	if (n > 1) {
		int i = r.range(0, n - 1), j = r.range(0, n - 1);
		DM w = sub(a, i, j);
		auto chk = [&](const char *lab, const RM &g) {
			c.label(lab);
			if (!c.check("minor", g.is_valid() && g->size().x >= n - 1 && g->size().y >= n - 1, "too small or missing")) return;
			DM d = dm(g);
			for (int y = 0; y < d.r; y++) for (int x = 0; x < d.co; x++) {
				if (y < n - 1 && x < n - 1) { if (d.at(y, x) != w.at(y, x)) { c.fail("minor", strf("(%d,%d) of minor %d,%d of %s: got %g want %g", y, x, i, j, str(a).c_str(), d.at(y, x), w.at(y, x))); return; } }
				else if (!std::isfinite(d.at(y, x))) { c.fail("minor.uninitialised", strf("element (%d,%d) outside the minor was never written", y, x)); return; }
			}
		};
		chk("matrix.cofactor", A->cofactor(n, i, j));
		RM o = r.chance(0.5) ? newm(0, 0) : r.chance(0.5) ? newm(n, n) : newm(r.range(1, 7), r.range(1, 7));
		A->cofactoro(n, i, j, o);
		chk("matrix.cofactoro", o);
		chk("linalg.cofactornm", alg.cofactornm(A, n, i, j));
		samem(c, "input_unchanged", A, a);
	}
	DM tol, w = adj_d(a, tol);
	c.label("matrix.adjoint"); cmp_tol(c, "adjugate", A->adjoint(), w, tol);
	RM o = r.chance(0.4) ? newm(0, 0) : r.chance(0.5) ? newm(n, n) : newm(r.range(1, 7), r.range(1, 7));
	c.label("matrix.adjointo"); A->adjointo(o); cmp_tol(c, "adjugate", o, w, tol);
	RM X = mkm(a); X->adjointo(X); cmp_tol(c, "adjugate.target_is_source", X, w, tol);
	c.label("linalg.adjointnm"); cmp_tol(c, "adjugate", alg.adjointnm(A), w, tol);
	samem(c, "input_unchanged", A, a);
	// A adj(A) = det(A) I with the library's own product and determinant
	c.label("adjugate_law");
	double sc = 4e-6 * n * mx(a.d) * [&] { double m = 0; for (double v : tol.d) m = std::max(m, v / 2e-6); return m; }() + 1e-30;
	DM id(n, n); for (int i = 0; i < n; i++) id.at(i, i) = perm_sum(a);
	cmpm(c, "law", A->multn(A->adjoint()), id, 0, sc);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count(fam.c_str());
	c.obs(hsh(hs(fam) + 1, a.d), n > 1);
}

UNIT("D01", "inverse_solve", 700, 9000) {
	Rng &r = c.rng;
	int n = r.range(1, 6);
	std::string fam;
	DM a; double cond = 1e9; DM inv;
	for (int t = 0; t < 20 && !(cond < 300); t++) {
		a = family(r, n, fam);
		if (std::fabs(perm_sum(a)) < 1e-4) { cond = 1e9; continue; }
		inv = inv_d(a); cond = n1(a) * n1(inv);
	}
	if (!(cond < 300)) { a = DM(n, n); for (int i = 0; i < n; i++) a.at(i, i) = i + 1; inv = inv_d(a); cond = n1(a) * n1(inv); fam = "diagonal"; }
	// error of the adjugate formula: adjugate entries and determinant carry cancellation errors
	DM tol, ad = adj_d(a, tol);
	double dt_ = perm_sum(a), det_t = 2e-6 * perm_abs(a);
	if (std::fabs(dt_) < 20 * det_t) return; // not well conditioned for this formula
	for (size_t k = 0; k < tol.d.size(); k++) tol.d[k] = (tol.d[k] + std::fabs(ad.d[k]) * (det_t / std::fabs(dt_) + 1e-6)) / std::fabs(dt_) * 1.2 + 1e-7 * mx(inv.d) + 1e-30;
	RM A = mkm(a);
	MLPPLinAlg alg;
	long e0 = errors();
	c.label("matrix.inverse"); cmp_tol(c, "inverse", A->inverse(), inv, tol);
	RM o = r.chance(0.4) ? newm(0, 0) : r.chance(0.5) ? newm(n, n) : newm(r.range(1, 7), r.range(1, 7));
	c.label("matrix.inverseo"); A->inverseo(o); cmp_tol(c, "inverse", o, inv, tol);
	RM X = mkm(a); X->inverseo(X); cmp_tol(c, "inverse.target_is_source", X, inv, tol);
	c.label("linalg.inversenm"); cmp_tol(c, "inverse", alg.inversenm(A), inv, tol);
	samem(c, "input_unchanged", A, a);
	c.label("inverse_law");
	double lt = 0; for (double v : tol.d) lt = std::max(lt, v);
	lt = lt * n * mx(a.d) * 1.5 + 1e-5;
	DM id(n, n); for (int i = 0; i < n; i++) id.at(i, i) = 1;
	if (lt < 0.1) {
		cmpm(c, "left", A->inverse()->multn(A), id, 0, lt);
		cmpm(c, "right", A->multn(A->inverse()), id, 0, lt);
		cmpm(c, "square_pinverse", A->pinverse(), inv, 0, 1e-4 * cond * cond * mx(inv.d) + 1e-4);
	}
	DV b = gv(r, n, K_STD), x(n, 0), xt(n, 0);
	for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) { x[i] += inv.at(i, j) * b[j]; xt[i] += (tol.at(i, j) + 1e-6 * std::fabs(inv.at(i, j))) * std::fabs(b[j]); } xt[i] += 1e-6; }
	RV B = mkv(b);
	auto chks = [&](const char *lab, const RV &g) {
		c.label(lab);
		if (!c.check("solve", g.is_valid() && g->size() == n, "wrong size or missing")) return;
		for (int i = 0; i < n; i++) if (!(std::fabs(g->element_get(i) - x[i]) <= xt[i])) { c.fail("solve", strf("x[%d] got %g want %g tol %g", i, g->element_get(i), x[i], xt[i])); return; }
	};
	chks("matrix.solve", A->solve(B));
	chks("linalg.solve", alg.solve(A, B));
	samem(c, "input_unchanged", A, a);
	samev(c, "rhs_unchanged", B, b);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count(fam.c_str());
	c.obs(hsh(hs(fam) + 2, a.d));
	c.sample("inverse of " + str(a));
}

UNIT("D01", "pseudo_inverse", 500, 6000) {
	Rng &r = c.rng;
	int k = r.range(1, 4), n = k + r.range(0, 4);
	DM a, g, gi; double cond = 1e9;
	for (int t = 0; t < 40 && !(cond < 60); t++) {
		a = gm(r, n, k, r.chance(0.5) ? K_STD : K_SMALLINT);
		g = mul(tr(a), a);
		if (std::fabs(perm_sum(g)) < 1e-3 || std::fabs(perm_sum(g)) < 2e-4 * perm_abs(g)) { cond = 1e9; continue; }
		gi = inv_d(g); cond = n1(g) * n1(gi);
	}
	if (!(cond < 60)) { a = DM(n, k); for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) a.at(i, j) = i == j ? 2 : i > j && i >= k ? 0.5 : 0; g = mul(tr(a), a); gi = inv_d(g); cond = n1(g) * n1(gi); }
	DM w = mul(gi, tr(a));
	double t = 5e-4 * (mx(w.d) + 0.1) * (1 + perm_abs(g) / std::fabs(perm_sum(g)) * 0.02);
	RM A = mkm(a);
	MLPPLinAlg alg;
	long e0 = errors();
	c.label("matrix.pinverse"); cmpm(c, "pinverse", A->pinverse(), w, 0, t);
	RM o = r.chance(0.4) ? newm(0, 0) : r.chance(0.5) ? newm(k, n) : newm(r.range(1, 7), r.range(1, 7));
	c.label("matrix.pinverseo"); A->pinverseo(o); cmpm(c, "pinverse", o, w, 0, t);
	RM X = mkm(a); X->pinverseo(X); cmpm(c, "pinverse.target_is_source", X, w, 0, t);
	c.label("linalg.pinversenm"); cmpm(c, "pinverse", alg.pinversenm(A), w, 0, t);
	c.label("left_inverse_law");
	DM id(k, k); for (int i = 0; i < k; i++) id.at(i, i) = 1;
	cmpm(c, "law", A->pinverse()->multn(A), id, 0, t * n * mx(a.d) + 1e-4);
	samem(c, "input_unchanged", A, a);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count(n == k ? "square" : "tall");
	c.obs(hsh(n * 16 + k, a.d));
	c.sample("pinverse of " + str(a));
}

UNIT("D01", "refusals", 300, 2000) {
	Rng &r = c.rng;
	int n = r.range(1, 5), m = r.range(1, 5);
	if (m == n) m++;
	DM a = gm(r, n, m), sq = gm(r, n, n);
	RM A = mkm(a), S = mkm(sq), N;
	MLPPLinAlg alg;
	int op = r.range(0, 10);
	static const char *nm[] = { "linalg.detm", "linalg.adjointnm", "linalg.inversenm", "linalg.solve_non_square", "linalg.solve_sizes", "matrix.solve_sizes", "matrix.solve_null", "linalg.null", "matrix.detb_null", "matrix.pinverseo_null", "linalg.solve_null" };
	c.label(nm[op]);
	long e0 = errors();
	bool need = true;
	RV b = mkv(gv(r, n)), bad = mkv(gv(r, n + r.range(1, 3))), nv;
	switch (op) {
		case 0: alg.detm(N, n); break;
		case 1: c.check("neutral", !alg.adjointnm(A).is_valid() || alg.adjointnm(A)->data_size() == 0); break;
		case 2: { RM x = alg.inversenm(A); c.check("neutral", !x.is_valid() || x->data_size() == 0); } break;
		case 3: { RV x = alg.solve(A, b); c.check("neutral", !x.is_valid() || x->size() == 0); } break;
		case 4: need = true; { for (int i = 0; i < n; i++) S->element_set(i, i, 10 + i); sq = dm(S); RV x = alg.solve(S, bad); c.check("neutral", !x.is_valid() || x->size() == 0); } break;
		case 5: { for (int i = 0; i < n; i++) S->element_set(i, i, 10 + i); sq = dm(S); RV x = S->solve(bad); c.check("neutral", !x.is_valid() || x->size() == 0); } break;
		case 6: { RV x = S->solve(nv); c.check("neutral", !x.is_valid() || x->size() == 0); } break;
		case 7: { RM x = r.chance(0.3) ? alg.inversenm(N) : r.chance(0.5) ? alg.pinversenm(N) : alg.cofactornm(N, 2, 0, 0); c.check("neutral", !x.is_valid() || x->data_size() == 0); } break;
		case 8: S->detb(N, n); break;
		case 9: S->pinverseo(N); break;
		case 10: { RV x = alg.solve(N, b); c.check("neutral", !x.is_valid() || x->size() == 0); } break;
	}
	if (need) c.check("reported", errors() > e0, "an invalid request was not reported");
	samem(c, "unchanged", A, a); samem(c, "unchanged", S, sq);
	c.count(nm[op]);
	c.obs(hsh(hs(nm[op]), a.d));
}
