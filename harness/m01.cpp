// M01: k-nearest-neighbour classification and z-score outlier detection against exhaustive references.
#include "vh.h"
#include "modules/knn/knn.h"
#include "modules/outlier_finder/outlier_finder.h"
#include <algorithm>
#include <map>
#include <set>
static bool eqv(const RV &g, const DV &w) { return g.is_valid() && dv(g) == w; }
static bool eqm(const RM &g, const DM &w) { return g.is_valid() && g->size() == Size2i(w.co, w.r) && dm(g).d == w.d; }

static double dist2(const DM &X, int i, const DV &q) { double s = 0; for (int j = 0; j < X.co; j++) { double d = X.at(i, j) - q[j]; s += d * d; } return s; }
// every label some choice of k nearest samples (ties free) makes most frequent
static std::set<int> admissible(const DM &X, const std::vector<int> &y, const DV &q, int k, double tol) {
	const int n = X.r; std::vector<double> d(n), s; for (int i = 0; i < n; i++) d[i] = std::sqrt(dist2(X, i, q)); s = d; std::sort(s.begin(), s.end()); const double kth = s[k - 1], eps = tol * (1 + kth);
	std::map<int, int> mand, opt; std::set<int> labels(y.begin(), y.end()); int m = k;
	for (int i = 0; i < n; i++) { if (d[i] < kth - eps) { mand[y[i]]++; m--; } else if (d[i] <= kth + eps) opt[y[i]]++; }
	std::set<int> out;
	for (int L : labels) {
		int take = std::min(m, opt[L]), have = mand[L] + take, rest = m - take, room = 0; bool ok = true;
		for (int o : labels) if (o != L) { if (mand[o] > have) ok = false; room += std::min(opt[o], std::max(0, have - mand[o])); }
		if (ok && room >= rest) out.insert(L);
	}
	return out;
}
static std::string lab(const std::set<int> &s) { std::string o; for (int v : s) o += strf("%d ", v); return o; }

UNIT("M01", "knn", 12000, 500000) {
	Rng &r = c.rng; long e0 = errors(); Ref<MLPPKNN> m; m.instance(); DM X; std::vector<int> y; int k = 1, w = 1; RM rx; RV ry; bool grid = false; uint64_t h = 5; bool multi = false;
	auto data = [&]() {
		int n = r.chance(0.15) ? r.range(12, 30) : r.range(1, 9); w = r.range(1, 4); grid = r.chance(0.5); X = DM(n, w); y.assign(n, 0); const int classes = r.range(1, 5), base = r.chance(0.2) ? r.range(-3, 20) : 0;
		for (double &v : X.d) v = grid ? r.range(-3, 3) : r.f(-5, 5); for (int &v : y) v = base + r.range(0, classes - 1);
		DV yy(n); for (int i = 0; i < n; i++) yy[i] = y[i]; rx = mkm(X); ry = mkv(yy); m->set_input_set(rx); m->set_output_set(ry); k = r.chance(0.15) ? n : r.range(1, n); m->set_k(k); multi = multi || classes > 1; h = hsh(hsh(h, X.d), yy); h = hsh(h, (uint64_t)k);
	};
	auto query = [&]() { DV q(w); if (r.chance(0.25)) { int i = r.range(0, X.r - 1); for (int j = 0; j < w; j++) q[j] = X.at(i, j); } else for (double &v : q) v = grid ? r.range(-4, 4) : r.f(-6, 6); return q; };
	data();
	for (int op = r.range(2, 6); op-- > 0;) {
		switch (r.range(0, 5)) {
			case 0: case 1: { c.label("model_test"); DV q = query(); RV rq = mkv(q); auto ok = admissible(X, y, q, k, 1e-5); int got = m->model_test(rq); c.check("class", ok.count(got), strf("k=%d of %d samples: predicted %d, admissible %s", k, X.r, got, lab(ok).c_str())); c.check("argument_changed", eqv(rq, q), "the query changed"); c.count(ok.size() == 1 ? "unique class" : "tied class"); h = hsh(h, q); break; }
			case 2: { c.label("model_set_test"); DM Q(r.range(0, 6), w); for (int i = 0; i < Q.r; i++) { DV q = query(); for (int j = 0; j < w; j++) Q.at(i, j) = q[j]; } if (!Q.r) break; RM rq = mkm(Q); PoolIntArray got = m->model_set_test(rq); c.check("size", got.size() == Q.r, strf("%d predictions for %d queries", got.size(), Q.r)); for (int i = 0; i < got.size() && i < Q.r; i++) { DV q(Q.d.begin() + i * w, Q.d.begin() + (i + 1) * w); auto ok = admissible(X, y, q, k, 1e-5); int g = got[i]; c.check("class", ok.count(g), strf("query %d: k=%d of %d samples: predicted %d, admissible %s", i, k, X.r, g, lab(ok).c_str())); } h = hsh(h, Q.d); break; }
			case 3: {
				c.label("score"); int lo = 0, hi = 0; for (int i = 0; i < X.r; i++) { DV q(X.d.begin() + i * w, X.d.begin() + (i + 1) * w); auto ok = admissible(X, y, q, k, 1e-5); if (ok.count(y[i])) { hi++; if (ok.size() == 1) lo++; } }
				double s = m->score(); c.check("fraction", s >= (double)lo / X.r - 1e-5 && s <= (double)hi / X.r + 1e-5, strf("score %g, %d to %d of %d training samples are predicted correctly", s, lo, hi, X.r));
				PoolIntArray all = m->model_set_test(rx); int right = 0; for (int i = 0; i < all.size(); i++) right += all[i] == y[i]; c.eq("consistent", s, (double)right / X.r, 1e-5, 1e-6); break;
			}
			case 4: c.label("set_k"); k = r.range(1, X.r); m->set_k(k); c.check("get_k", m->get_k() == k, "get_k differs"); h = hsh(h, (uint64_t)k); break;
			case 5: c.label("set_data"); data(); c.check("getters", m->get_input_set() == rx && m->get_output_set() == ry, "the data getters differ from what was set"); break;
		}
		c.check("data_changed", eqm(rx, X), "the training data changed");
	}
	c.label("knn"); c.check("errors", errors() == e0, "an error was logged"); c.obs(h, multi); if (r.chance(0.003)) c.sample(strf("%d samples of %d features, k=%d", X.r, w, k));
}

struct Z { DV v; double mean = 0, sd = 0; };
static Z zs(const DV &v) { Z z; z.v = v; for (double a : v) z.mean += a; z.mean /= v.size(); double s = 0; for (double a : v) s += (a - z.mean) * (a - z.mean); z.sd = std::sqrt(s / (v.size() - 1)); return z; }
// -1 inside, 1 outlier, 0 too close to call
static int out(const Z &z, double a, double th) { if (z.sd == 0) return -1; double q = std::fabs(a - z.mean) / z.sd, mx = 0; for (double b : z.v) mx = std::max(mx, std::fabs(b)); double tol = 2e-5 * (1 + q) + 1e-6 * mx / z.sd; return std::fabs(q - th) <= tol ? 0 : q > th ? 1 : -1; }
static bool match(const DV &got, const std::vector<std::pair<double, int>> &want) { size_t g = 0; // in order; uncertain values may be present or absent
	std::vector<std::set<size_t>> dummy; std::set<size_t> pos{ 0 }; (void)g;
	for (auto &w : want) { std::set<size_t> nx; for (size_t p : pos) { if (w.second >= 0 && p < got.size() && got[p] == w.first) nx.insert(p + 1); if (w.second <= 0) nx.insert(p); } pos = nx; }
	return pos.count(got.size()) > 0; }
UNIT("M01", "outliers", 12000, 500000) {
	Rng &r = c.rng; long e0 = errors(); double th = r.chance(0.2) ? r.range(0, 2) : r.f(0, 3.5); Ref<MLPPOutlierFinder> f; c.label("create");
	if (r.chance(0.5)) f = Ref<MLPPOutlierFinder>(memnew(MLPPOutlierFinder(th))); else { f.instance(); c.check("default_threshold", f->get_threshold() == 0, "the default threshold is not 0"); f->set_threshold(th); }
	th = (float)th; c.check("threshold", f->get_threshold() == (real_t)th, "get_threshold differs"); int outl = 0; uint64_t h = hsh(11, DV{ th });
	auto row = [&](int n) { DV v(n); bool g = r.chance(0.3); double sc = r.chance(0.2) ? 100 : 1; for (double &a : v) a = g ? r.range(-2, 2) : r.f(-sc, sc); if (r.chance(0.5)) v[r.range(0, n - 1)] = g ? r.range(-30, 30) : r.f(-20 * sc, 20 * sc); if (r.chance(0.05)) std::fill(v.begin(), v.end(), (double)r.range(-3, 3)); return v; };
	for (int it = r.range(1, 3); it-- > 0;) {
		if (r.chance(0.5)) {
			c.label("model_test"); DV v = row(r.range(2, 14)); RV rv = mkv(v); Z z = zs(v); std::vector<std::pair<double, int>> want; for (double a : v) { want.push_back({ a, out(z, a, th) }); outl += want.back().second > 0; }
			DV got; PoolRealArray p = f->model_test(rv); for (int i = 0; i < p.size(); i++) got.push_back(p[i]); c.check("outliers", match(got, want), "of " + str(v) + strf(" beyond %g standard deviations: got ", th) + str(got)); c.check("argument_changed", eqv(rv, v), "the sample changed"); h = hsh(h, v);
		} else {
			int n = r.range(1, 4), k = r.range(2, 10); DM M(n, k); for (int i = 0; i < n; i++) { DV v = row(k); std::copy(v.begin(), v.end(), M.d.begin() + i * k); } RM rm = mkm(M); h = hsh(h, M.d);
			std::vector<std::vector<std::pair<double, int>>> want(n); std::vector<std::pair<double, int>> idx; for (int i = 0; i < n; i++) { DV v(M.d.begin() + i * k, M.d.begin() + (i + 1) * k); Z z = zs(v); for (int j = 0; j < k; j++) { int o = out(z, v[j], th); want[i].push_back({ v[j], o }); idx.push_back({ i * 1000.0 + j, o }); outl += o > 0; } }
			c.label("model_set_test"); Vector<Vector<real_t>> g = f->model_set_test(rm); c.check("rows", g.size() == n, strf("%d rows of outliers for %d rows", g.size(), n)); for (int i = 0; i < g.size() && i < n; i++) { DV v; for (int j = 0; j < g[i].size(); j++) v.push_back(g[i][j]); c.check("outliers", match(v, want[i]), strf("row %d", i)); }
			c.label("model_set_test_bind"); Array a = f->model_set_test_bind(rm); c.check("rows", a.size() == n, "row count"); for (int i = 0; i < a.size() && i < n; i++) { PoolRealArray p = a[i]; DV v; for (int j = 0; j < p.size(); j++) v.push_back(p[j]); c.check("outliers", match(v, want[i]), strf("row %d", i)); }
			c.label("model_set_test_indices"); PoolVector2iArray p = f->model_set_test_indices(rm); DV v; for (int j = 0; j < p.size(); j++) { Vector2i q = p[j]; v.push_back(q.y * 1000.0 + q.x); } c.check("indices", match(v, idx), "indices of outliers in row order"); c.check("argument_changed", eqm(rm, M), "the samples changed");
		}
		if (r.chance(0.3)) { c.label("set_threshold"); th = (float)r.f(0, 3); f->set_threshold(th); }
	}
	c.label("outliers"); c.check("errors", errors() == e0, "an error was logged"); c.count("outliers expected", outl); c.obs(h, outl > 0);
}
