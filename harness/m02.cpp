// M02: k-means against an exhaustive reference, stepping one epoch at a time.
#include "vh.h"
#include "modules/kmeans/kmeans.h"
#include <algorithm>
#include <functional>
static bool eqv(const RV &g, const DV &w) { return g.is_valid() && dv(g) == w; }
static bool eqm(const RM &g, const DM &w) { return g.is_valid() && g->size() == Size2i(w.co, w.r) && dm(g).d == w.d; }

struct XKMeans : MLPPKMeans { DM mu() { return dm(_mu); } void place(const DM &m) { _mu->set_from_mlpp_matrix(mkm(m)); } };
static double d2(const DM &A, int i, const DM &B, int j) { double s = 0; for (int k = 0; k < A.co; k++) { double d = A.at(i, k) - B.at(j, k); s += d * d; } return s; }
static bool finite(const DM &m) { for (double v : m.d) if (!std::isfinite(v)) return false; return true; }
static double objective(const DM &X, const DM &M) { double s = 0; for (int i = 0; i < X.r; i++) { double b = 1e300; for (int j = 0; j < M.r; j++) b = std::min(b, d2(X, i, M, j)); s += b; } return s; }
static double scale(const DM &X) { double s = 1; for (double v : X.d) s = std::max(s, std::fabs(v)); return s; }
// nearest centroids of a sample, ties within float accuracy included
static std::vector<int> nearest(const DM &X, int i, const DM &M) { std::vector<double> d(M.r); double b = 1e300; for (int j = 0; j < M.r; j++) { d[j] = std::sqrt(d2(X, i, M, j)); b = std::min(b, d[j]); } std::vector<int> o; for (int j = 0; j < M.r; j++) if (d[j] <= b + 1e-5 * (b + scale(X))) o.push_back(j); return o; }
// is B what one update of the centroids A gives for some choice among tied assignments?  -1: too many to enumerate
static int one_step(const DM &X, const DM &A, const DM &B, double tol, bool &empty) {
	std::vector<std::vector<int>> t; double total = 1; for (int i = 0; i < X.r; i++) { t.push_back(nearest(X, i, A)); total *= t.back().size(); if (total > 3000) return -1; }
	std::vector<int> a(X.r); bool found = false; const double lim = tol * scale(X);
	std::function<void(int)> rec = [&](int i) {
		if (found) return;
		if (i == X.r) { DM S(A.r, A.co); std::vector<int> n(A.r, 0); for (int q = 0; q < X.r; q++) { n[a[q]]++; for (int k = 0; k < A.co; k++) S.at(a[q], k) += X.at(q, k); } bool ok = true, em = false; for (int j = 0; j < A.r; j++) { if (!n[j]) { em = true; continue; } for (int k = 0; k < A.co; k++) if (!(std::fabs(S.at(j, k) / n[j] - B.at(j, k)) <= lim)) ok = false; } if (ok) { found = true; empty = em; } return; }
		for (int j : t[i]) { a[i] = j; rec(i + 1); }
	};
	rec(0); return found;
}
static DM gdata(Rng &r, bool &grid) { int n = r.chance(0.1) ? r.range(12, 25) : r.range(1, 9), w = r.range(1, 4); grid = r.chance(0.3); DM X(n, w); const int blobs = r.range(1, 4); DM C(blobs, w); for (double &v : C.d) v = r.range(-6, 6); for (int i = 0; i < n; i++) { int b = r.range(0, blobs - 1); for (int j = 0; j < w; j++) X.at(i, j) = grid ? r.range(-3, 3) : (double)(float)(C.at(b, j) + r.f(-1.5, 1.5)); } return X; }
static std::string ms(const DM &m) { std::string s; for (int i = 0; i < m.r; i++) s += str(DV(m.d.begin() + i * m.co, m.d.begin() + (i + 1) * m.co)) + " "; return s; }

struct KM {
	Ref<XKMeans> m; DM X; RM rx; int k; bool grid = false, pp; 
	KM(Ctx &c) { Rng &r = c.rng; X = gdata(r, grid); m = Ref<XKMeans>(memnew(XKMeans)); rx = mkm(X); k = r.chance(0.1) ? r.range(1, 12) : r.range(1, std::min(X.r, 5)); pp = r.chance(0.5); c.label("create"); m->set_input_set(rx); m->set_k(k); m->set_mean_type(pp ? MLPPKMeans::MEAN_TYPE_KMEANSPP : MLPPKMeans::MEAN_TYPE_CENTROID); c.check("getters", m->get_input_set() == rx && m->get_k() == k && (m->get_mean_type() == MLPPKMeans::MEAN_TYPE_KMEANSPP) == pp, "a getter differs from what was set"); }
	void start(Ctx &c) {
		c.label(pp ? "initialize.kmeanspp" : "initialize.centroid"); m->initialize(); DM M = m->mu(); c.check("size", M.r == k && M.co == X.co, strf("%dx%d centroids", M.r, M.co)); if (M.r != k || M.co != X.co) return;
		for (int j = 0; j < k; j++) { bool in = false; for (int i = 0; i < X.r && !in; i++) in = d2(X, i, M, j) == 0; c.check("sample", in, strf("initial centroid %d of %d is not a training sample: ", j, k) + ms(M)); }
		if (pp) for (int j = 1; j < k; j++) { auto far = [&](const DM &A, int i) { double s = 0; for (int q = 0; q < j; q++) s += std::sqrt(d2(A, i, M, q)); return s; }; double best = 0; for (int i = 0; i < X.r; i++) best = std::max(best, far(X, i)); double got = far(M, j); c.check("farthest", got >= best - 1e-5 * (best + 1), strf("centroid %d has summed distance %g to the earlier ones, the farthest sample has %g", j, got, best)); }
	}
};

UNIT("M02", "train", 12000, 500000) {
	Rng &r = c.rng; long e0 = errors(); KM g(c); const DM &X = g.X; g.start(c); DM M = g.m->mu(); uint64_t h = hsh(hsh(3, X.d), M.d); bool moved = false;
	if (r.chance(0.4)) { for (double &v : M.d) v = g.grid ? r.range(-4, 4) : r.f(-7, 7); g.m->place(M); c.count("placed centroids"); }
	double last = objective(X, M);
	for (int op = r.range(1, 5); op-- > 0;) {
		int e = r.chance(0.7) ? 1 : r.range(1, 6); c.label("train"); DM A = g.m->mu(); g.m->train(e); DM B = g.m->mu(); c.check("size", B.r == g.k && B.co == X.co, "the centroids changed their size"); c.check("finite", finite(B), strf("k=%d, %d epochs: centroids ", g.k, e) + ms(B) + "from " + ms(A)); if (!finite(B)) return;
		if (e == 1) { bool em = false; int s = one_step(X, A, B, 1e-4, em); c.count(s < 0 ? "too many ties" : em ? "step with an empty cluster" : "step"); if (s >= 0) c.check("step", s, "data " + ms(X) + "centroids " + ms(A) + "became " + ms(B)); if (s > 0 && !em) for (int q = 0; q < 1; q++) moved = moved || A.d != B.d; }
		double J = objective(X, B), sc = scale(X); sc = 2e-5 * X.r * X.co * sc * sc; c.check("objective", J <= last + 1e-5 * last + sc, strf("the within-cluster squared distance rose from %g to %g", last, J)); last = J;
		c.label("score"); c.eq("value", g.m->score(), J, 1e-5, sc); h = hsh(h, B.d);
		if (r.chance(0.4)) { c.label("model_set_test"); DM Q(r.range(1, 7), X.co); for (int i = 0; i < Q.r; i++) { int s = r.chance(0.3) ? r.range(0, X.r - 1) : -1; for (int j = 0; j < X.co; j++) Q.at(i, j) = s >= 0 ? X.at(s, j) : r.f(-8, 8); } RM rq = mkm(Q); RM p = g.m->model_set_test(rq); if (!p.is_valid() || p->size() != Size2i(X.co, Q.r)) c.fail("size", strf("predictions for %d queries", Q.r)); else { DM P = dm(p); for (int i = 0; i < Q.r; i++) { bool ok = false; for (int j : nearest(Q, i, B)) ok = ok || d2(P, i, B, j) == 0; c.check("nearest", ok, strf("query %d", i)); } } c.check("argument_changed", eqm(rq, Q), "the queries changed"); }
		if (r.chance(0.4)) { c.label("model_test"); DM Q(1, X.co); for (double &v : Q.d) v = r.f(-8, 8); RV rq = mkv(Q.d); RV p = g.m->model_test(rq); DM P(1, X.co); bool ok = false; if (p.is_valid() && p->size() == X.co) { P.d = dv(p); for (int j : nearest(Q, 0, B)) ok = ok || d2(P, 0, B, j) == 0; } c.check("nearest", ok, "the prediction is not a nearest centroid"); }
		if (r.chance(0.1)) { c.label("reconfigure"); g.k = r.range(1, std::min(X.r, 5)); g.m->set_k(g.k); g.m->train(1); c.check("size", g.m->mu().r == g.k, "set_k does not take effect"); c.check("finite", finite(g.m->mu()), "centroids " + ms(g.m->mu())); last = objective(X, g.m->mu()); }
	}
	c.label("train"); c.check("data_changed", eqm(g.rx, X), "the training data changed"); c.check("errors", errors() == e0, "an error was logged"); c.obs(h, moved); if (r.chance(0.003)) c.sample(strf("%d samples of %d features, k=%d: objective %g", X.r, X.co, g.k, last));
}

UNIT("M02", "silhouette", 8000, 300000) {
	Rng &r = c.rng; long e0 = errors(); KM g(c); const DM &X = g.X; g.start(c); c.label("silhouette"); g.m->train(r.range(1, 4)); DM M = g.m->mu(); if (!finite(M) || X.r < 2) return;
	std::vector<int> a; for (int i = 0; i < X.r; i++) { auto t = nearest(X, i, M); if (t.size() != 1) return; a.push_back(t[0]); }
	std::vector<int> n(M.r, 0); for (int q : a) n[q]++; int used = 0; for (int q : n) used += q > 0; if (used < 2) return;
	RV s = g.m->silhouette_scores(); if (!s.is_valid() || s->size() != X.r) { c.fail("size", "one score per training sample"); return; } DV S = dv(s);
	for (int i = 0; i < X.r; i++) {
		double A = 0, Bm = 1e300; for (int j = 0; j < M.r; j++) { if (!n[j]) continue; double t = 0; for (int q = 0; q < X.r; q++) if (a[q] == j) t += std::sqrt(d2(X, i, X, q)); if (j == a[i]) A = n[j] > 1 ? t / (n[j] - 1) : 0; else Bm = std::min(Bm, t / n[j]); }
		double want = n[a[i]] == 1 ? 0 : A == Bm ? 0 : (Bm - A) / std::max(A, Bm); c.check("score", std::fabs(S[i] - want) <= 2e-4, strf("sample %d in a cluster of %d (of %d clusters): got %g, want %g", i, n[a[i]], used, S[i], want));
	}
	c.check("errors", errors() == e0, "an error was logged"); c.obs(hsh(hsh(9, X.d), M.d), true);
}
