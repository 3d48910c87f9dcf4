// M03: naive Bayes classifiers against an exhaustive reference.
#include "vh.h"
#include "modules/bernoulli_nb/bernoulli_nb.h"
#include "modules/gaussian_nb/gaussian_nb.h"
#include "modules/multinomial_nb/multinomial_nb.h"
#include <algorithm>
#include <map>
#include <set>
static bool eqv(const RV &g, const DV &w) { return g.is_valid() && dv(g) == w; }
static bool eqm(const RM &g, const DM &w) { return g.is_valid() && g->size() == Size2i(w.co, w.r) && dm(g).d == w.d; }

// classes whose log posterior is the maximum within tol
static std::set<int> best(const DV &lp, double tol) { double b = -INFINITY; for (double v : lp) b = std::max(b, v); std::set<int> o; for (size_t i = 0; i < lp.size(); i++) if (b == -INFINITY ? lp[i] == b : lp[i] >= b - tol) o.insert(i); return o; }
static std::string lps(const DV &d) { return "log posteriors " + str(d); }
template <class Pred> static void judge(Ctx &c, const std::string &nm, Pred P, const DM &X, const std::vector<int> &y, std::function<DV(const DV &)> post, double tol, DM Q, RM rx, RV ry, long e0) {
	c.label(nm + ".model_test"); for (int i = 0; i < Q.r; i++) { DV q(Q.d.begin() + i * Q.co, Q.d.begin() + (i + 1) * Q.co); DV lp = post(q); auto ok = best(lp, tol); double g = P.m->model_test(mkv(q)); c.check("class", g == (int)g && ok.count((int)g), "query " + str(q) + ": " + lps(lp) + strf(", predicted %g", g)); c.count(ok.size() == 1 ? "unique class" : "tied class"); }
	c.label(nm + ".model_set_test"); RM rq = mkm(Q); RV p = P.m->model_set_test(rq); c.check("size", p.is_valid() && p->size() == Q.r, "one prediction per query"); if (p.is_valid() && p->size() == Q.r) for (int i = 0; i < Q.r; i++) { DV q(Q.d.begin() + i * Q.co, Q.d.begin() + (i + 1) * Q.co); DV lp = post(q); auto ok = best(lp, tol); double g = p->element_get(i); c.check("class", g == (int)g && ok.count((int)g), "query " + str(q) + ": " + lps(lp) + strf(", predicted %g", g)); }
	c.label(nm + ".score"); int lo = 0, hi = 0; for (int i = 0; i < X.r; i++) { DV q(X.d.begin() + i * X.co, X.d.begin() + (i + 1) * X.co); auto ok = best(post(q), tol); if (ok.count(y[i])) { hi++; if (ok.size() == 1) lo++; } } double s = P.m->score(); c.check("fraction", s >= (double)lo / X.r - 1e-5 && s <= (double)hi / X.r + 1e-5, strf("score %g, %d to %d of %d training samples are predicted correctly", s, lo, hi, X.r));
	c.label(nm); c.check("data_changed", eqm(rx, X) && eqv(ry, DV(y.begin(), y.end())), "the training data changed"); c.check("errors", errors() == e0, "an error was logged");
}
template <class M> struct Holder { Ref<M> m; };
// class labels 0..k-1 with every class present at least `each` times
static std::vector<int> labels(Rng &r, int n, int k, int each) { std::vector<int> y; for (int i = 0; i < k; i++) for (int j = 0; j < each; j++) y.push_back(i); while ((int)y.size() < n) y.push_back(r.range(0, k - 1)); for (size_t i = y.size(); i-- > 1;) std::swap(y[i], y[r.range(0, (int)i)]); return y; }

UNIT("M03", "gaussian", 8000, 300000) {
	Rng &r = c.rng; long e0 = errors(); int k = r.range(1, 4), w = r.range(1, 4), each = w == 1 ? 2 : 1, n = r.range(k * each, k * each + 10); std::vector<int> y = labels(r, n, k, each); DM X(n, w); DV ctr(k), sp(k); for (int i = 0; i < k; i++) { ctr[i] = r.f(-3, 3); sp[i] = r.f(0.3, 3); } for (int i = 0; i < n; i++) for (int j = 0; j < w; j++) X.at(i, j) = (float)(ctr[y[i]] + sp[y[i]] * r.f(-1.5, 1.5));
	DV mu(k), sd(k), pr(k); for (int q = 0; q < k; q++) { DV v; for (int i = 0; i < n; i++) if (y[i] == q) { pr[q]++; for (int j = 0; j < w; j++) v.push_back(X.at(i, j)); } double s = 0; for (double a : v) s += a; mu[q] = s / v.size(); s = 0; for (double a : v) s += (a - mu[q]) * (a - mu[q]); sd[q] = std::sqrt(s / (v.size() - 1)); if (sd[q] < 0.05) return; pr[q] /= n; }
	auto post = [&](const DV &x) { DV l(k); for (int q = 0; q < k; q++) { l[q] = std::log(pr[q]); for (double a : x) l[q] += -std::log(sd[q] * std::sqrt(2 * M_PI)) - (a - mu[q]) * (a - mu[q]) / (2 * sd[q] * sd[q]); } return l; };
	RM rx = mkm(X); RV ry = mkv(DV(y.begin(), y.end())); c.label("gaussian.create"); Holder<MLPPGaussianNB> h; h.m = Ref<MLPPGaussianNB>(memnew(MLPPGaussianNB(rx, ry, k)));
	DM Q(r.range(1, 6), w); for (double &v : Q.d) v = r.f(-4, 4); double far = 0; for (double v : Q.d) for (int q = 0; q < k; q++) far = std::max(far, std::fabs(v - mu[q]) / sd[q]); for (double v : X.d) for (int q = 0; q < k; q++) far = std::max(far, std::fabs(v - mu[q]) / sd[q]);
	judge(c, "gaussian", h, X, y, post, 1e-3 * (1 + 0.01 * far * far * w), Q, rx, ry, e0); c.obs(hsh(hsh(1, X.d), Q.d), k > 1); if (r.chance(0.003)) c.sample(strf("gaussian: %d samples, %d classes, %d features", n, k, w));
}
// rows of distinct word identifiers out of a vocabulary
static DM words(Rng &r, int n, int w, const DV &pool, bool distinct) { DM X(n, w); for (int i = 0; i < n; i++) { DV p = pool; for (int j = 0; j < w; j++) { int q = r.range(distinct ? j : 0, (int)p.size() - 1); X.at(i, j) = p[q]; if (distinct) std::swap(p[j], p[q]); } } return X; }
static DV pool(Rng &r, int m, bool plain) { DV p; std::set<int> s; while ((int)s.size() < m) s.insert(plain ? (int)s.size() : r.range(0, 40)); for (int v : s) p.push_back(v); return p; }

UNIT("M03", "bernoulli", 8000, 300000) {
	Rng &r = c.rng; long e0 = errors(); int w = r.range(1, 3), m = r.range(w, 6), n = r.range(2, 10); DV pl = pool(r, m, r.chance(0.5)); std::vector<int> y = labels(r, n, 2, 1); DM X = words(r, n, w, pl, true);
	std::set<double> vocab(X.d.begin(), X.d.end()); std::map<double, double> th[2]; double nc[2] = { 0, 0 }; for (int i = 0; i < n; i++) nc[y[i]]++; for (int q = 0; q < 2; q++) for (double v : vocab) th[q][v] = 0; for (int i = 0; i < n; i++) for (int j = 0; j < w; j++) th[y[i]][X.at(i, j)] += 1.0 / nc[y[i]];
	auto post = [&](const DV &x) { DV l(2); std::set<double> in(x.begin(), x.end()); for (int q = 0; q < 2; q++) { l[q] = std::log(nc[q] / n); for (double v : vocab) { double t = th[q][v]; t = in.count(v) ? t : 1 - t; l[q] += t < 1e-9 ? -INFINITY : std::log(t); } } return l; };
	RM rx = mkm(X); RV ry = mkv(DV(y.begin(), y.end())); c.label("bernoulli.create"); Holder<MLPPBernoulliNB> h; h.m = Ref<MLPPBernoulliNB>(memnew(MLPPBernoulliNB(rx, ry))); DV qp = pl; if (r.chance(0.3)) qp.push_back(77); DM Q = words(r, r.range(1, 6), w, qp, true);
	judge(c, "bernoulli", h, X, y, post, 1e-4, Q, rx, ry, e0); c.obs(hsh(hsh(hsh(2, X.d), Q.d), DV(y.begin(), y.end())), vocab.size() > 1);
}
UNIT("M03", "multinomial", 8000, 300000) {
	Rng &r = c.rng; long e0 = errors(); int k = r.range(1, 4), w = r.range(1, 5), m = r.range(1, 6), n = r.range(k, k + 8); DV pl = pool(r, m, r.chance(0.5)); std::vector<int> y = labels(r, n, k, 1); DM X = words(r, n, w, pl, false);
	std::set<double> vocab(X.d.begin(), X.d.end()); std::vector<std::map<double, double>> th(k); DV nc(k); for (int q : y) nc[q]++; for (int i = 0; i < n; i++) for (int j = 0; j < w; j++) th[y[i]][X.at(i, j)] += 1.0 / (nc[y[i]] * w);
	auto post = [&](const DV &x) { DV l(k); for (int q = 0; q < k; q++) { l[q] = std::log(nc[q] / n); for (double v : x) if (vocab.count(v)) { auto it = th[q].find(v); l[q] += it == th[q].end() ? -INFINITY : std::log(it->second); } } return l; };
	RM rx = mkm(X); RV ry = mkv(DV(y.begin(), y.end())); c.label("multinomial.create"); Holder<MLPPMultinomialNB> h; h.m = Ref<MLPPMultinomialNB>(memnew(MLPPMultinomialNB(rx, ry, k))); DV qp = pl; if (r.chance(0.3)) qp.push_back(77); DM Q = words(r, r.range(1, 6), w, qp, false);
	judge(c, "multinomial", h, X, y, post, 1e-4, Q, rx, ry, e0); c.obs(hsh(hsh(hsh(4, X.d), Q.d), DV(y.begin(), y.end())), k > 1 && vocab.size() > 1);
}
