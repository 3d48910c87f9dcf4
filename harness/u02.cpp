// U02: classification metrics and parameter initialisation.
#include "vh.h"
#include <algorithm>
typedef std::vector<real_t> FV; typedef std::vector<FV> FM; typedef MLPPUtilities UT;

UNIT("U02", "metrics", 4000, 100000) {
	Rng &r = c.rng;
	UT ut;
	int n = r.chance(0.05) ? r.range(50, 300) : r.range(1, 14), x = r.range(1, 4), kl = r.range(1, 5);
	DV y(n), h(n); double ok = 0;
	auto noise = [&](double lab) { return (double)(r.chance(0.15) ? (float)(lab + (r.chance(0.5) ? 1 : -1)) : r.f(lab - 0.45, lab + 0.45)); };
	for (int i = 0; i < n; i++) { y[i] = r.range(0, kl); h[i] = noise(r.chance(0.7) ? y[i] : r.range(0, kl)); if (std::round(h[i]) == y[i]) ok++; }
	RV H = mkv(h), Y = mkv(y);
	c.label("performance_vec"); c.eq("value", ut.performance_vec(H, Y), ok / n, 1e-6, 1e-7);
	c.label("performance_std"); c.eq("value", ut.performance(FV(h.begin(), h.end()), FV(y.begin(), y.end())), ok / n, 1e-6, 1e-7);
	PoolIntArray pi; double okp = 0; for (int i = 0; i < n; i++) { int q = r.chance(0.6) ? (int)y[i] : r.range(0, kl); pi.push_back(q); if (q == (int)y[i]) okp++; }
	c.label("performance_pool_int_array_vec"); c.eq("value", ut.performance_pool_int_array_vec(pi, Y), okp / n, 1e-6, 1e-7);
	samev(c, "argument_unchanged", H, h); samev(c, "argument_unchanged", Y, y);
	DM my(n, x), mh(n, x); double okm = 0;
	bool onehot = r.chance(0.5);
	for (int i = 0; i < n; i++) {
		bool all = true; int hot = r.range(0, x - 1), ph = r.chance(0.7) ? hot : r.range(0, x - 1);
		for (int j = 0; j < x; j++) { my.at(i, j) = onehot ? j == hot : r.range(0, kl); mh.at(i, j) = onehot ? (double)r.f((j == ph) - 0.4, (j == ph) + 0.4) : noise(r.chance(0.8) ? my.at(i, j) : r.range(0, kl)); if (std::round(mh.at(i, j)) != my.at(i, j)) all = false; }
		okm += all;
	}
	RM MH = mkm(mh), MY = mkm(my);
	c.label("performance_mat"); c.eq("value", ut.performance_mat(MH, MY), okm / n, 1e-6, 1e-7);
	FM fh, fy; for (int i = 0; i < n; i++) { FV a, b; for (int j = 0; j < x; j++) { a.push_back(mh.at(i, j)); b.push_back(my.at(i, j)); } fh.push_back(a); fy.push_back(b); }
	c.label("performance_std_mat"); c.eq("value", ut.performance(fh, fy), okm / n, 1e-6, 1e-7);
	samem(c, "argument_unchanged", MH, mh); samem(c, "argument_unchanged", MY, my);
	// binary
	FV bh, by; double TP = 0, FP = 0, TN = 0, FN = 0;
	for (int i = 0; i < n; i++) { int t = r.range(0, 1), p = r.chance(0.65) ? t : r.range(0, 1); bh.push_back(p); by.push_back(t); (p ? (t ? TP : FP) : (t ? FN : TN))++; }
	c.label("TF_PN"); auto q = ut.TF_PN(bh, by);
	c.check("counts", std::get<0>(q) == TP && std::get<1>(q) == FP && std::get<2>(q) == TN && std::get<3>(q) == FN, strf("got %g %g %g %g want %g %g %g %g", std::get<0>(q), std::get<1>(q), std::get<2>(q), std::get<3>(q), TP, FP, TN, FN));
	c.label("accuracy"); c.eq("value", ut.accuracy(bh, by), (TP + TN) / n, 1e-6, 1e-7);
	if (TP + FP > 0) { c.label("precision"); c.eq("value", ut.precision(bh, by), TP / (TP + FP), 1e-6, 1e-7); }
	if (TP + FN > 0) { c.label("recall"); c.eq("value", ut.recall(bh, by), TP / (TP + FN), 1e-6, 1e-7); }
	if (TP > 0) { c.label("f1_score"); c.eq("value", ut.f1_score(bh, by), 2 * TP / (2 * TP + FP + FN), 1e-5, 1e-7); c.count("f1_judged"); }
	c.obs(hsh(hsh(hs("metric"), h), y), n > 1); if (ok == n) c.count("all_correct"); if (ok == 0) c.count("none_correct");
}

struct Dist { const char *name; int id; const char *sname; int kind; double num; bool plus; }; // kind 0 default (0,1), 1 normal, 2 uniform, 3 1/sqrt(n)
static const Dist dists[] = {
	{ "default", UT::WEIGHT_DISTRIBUTION_TYPE_DEFAULT, "Default", 0, 0, false }, { "xavier_normal", UT::WEIGHT_DISTRIBUTION_TYPE_XAVIER_NORMAL, "XavierNormal", 1, 2, true }, { "xavier_uniform", UT::WEIGHT_DISTRIBUTION_TYPE_XAVIER_UNIFORM, "XavierUniform", 2, 6, true },
	{ "he_normal", UT::WEIGHT_DISTRIBUTION_TYPE_HE_NORMAL, "HeNormal", 1, 2, false }, { "he_uniform", UT::WEIGHT_DISTRIBUTION_TYPE_HE_UNIFORM, "HeUniform", 2, 6, false }, { "le_cun_normal", UT::WEIGHT_DISTRIBUTION_TYPE_LE_CUN_NORMAL, "LeCunNormal", 1, 1, false },
	{ "le_cun_uniform", UT::WEIGHT_DISTRIBUTION_TYPE_LE_CUN_UNIFORM, "LeCunUniform", 2, 3, false }, { "uniform", UT::WEIGHT_DISTRIBUTION_TYPE_UNIFORM, "Uniform", 3, 1, false }
};
// The initial values are drawn from a nondeterministic source: bounds are checked exactly, moments with margins of
// at least 7 standard errors, so a correct implementation practically never trips them.
static void judge(Ctx &c, const Dist &d, const DV &v, std::vector<int> fans, int other) {
	int n = (int)v.size();
	double mean = 0, m2 = 0, mx = 0; bool fin = true;
	for (double x : v) { if (!std::isfinite(x)) fin = false; mean += x; m2 += x * x; mx = std::max(mx, std::fabs(x)); }
	if (!c.check("finite", fin, "an element was not written with a finite value")) return;
	if (!n) return;
	mean /= n; double sd = std::sqrt(std::max(0.0, m2 / n - mean * mean));
	std::set<double> u(v.begin(), v.end());
	if (n >= 2) c.check("not_all_the_same", u.size() > 1, strf("%d elements share the value %g", n, v[0]));
	if (n >= 30) c.check("distinct_values", (int)u.size() > n * 3 / 4, strf("%zu distinct values in %d", u.size(), n));
	if (d.kind == 0) {
		c.check("bounds", *std::min_element(v.begin(), v.end()) >= 0 && *std::max_element(v.begin(), v.end()) <= 1);
		if (n >= 200) { c.check("mean", std::fabs(mean - 0.5) < 7 * 0.289 / std::sqrt(n), strf("%g", mean)); c.check("spread", std::fabs(sd - 0.2887) < 0.06, strf("%g", sd)); }
		return;
	}
	bool ok = false; std::string ex;
	for (int f : fans) {
		double den = d.plus ? f + other : f; // either fan convention is accepted
		double lim = std::sqrt(d.num / den), want = d.kind == 1 ? lim : lim / std::sqrt(3.0);
		bool o = true;
		if (d.kind != 1 && mx > lim * 1.00001) o = false;
		if (d.kind == 1 && mx > lim * 7.5) o = false;
		if (n >= 200 && (std::fabs(sd - want) > 7 * want / std::sqrt(2.0 * n) + 1e-6 || std::fabs(mean) > 7 * want / std::sqrt(n))) o = false;
		if (d.kind != 1 && n >= 60 && mx < lim * 0.5) o = false;
		ex += strf(" scale %g (sd %g)", lim, want);
		if (o) ok = true;
	}
	c.check("distribution", ok, strf("%d values: largest magnitude %g, sd %g, mean %g; requested%s", n, mx, sd, mean, ex.c_str()));
}
UNIT("U02", "weight_initialisation", 1500, 30000) {
	Rng &r = c.rng;
	UT ut;
	const Dist &d = dists[r.range(0, 7)];
	UT::WeightDistributionType t = (UT::WeightDistributionType)d.id;
	int n = r.chance(0.5) ? r.range(1, 12) : r.range(200, 800);
	RV V = newv(n); ut.weight_initializationv(V, t);
	c.label(std::string(d.name) + ".vector"); if (c.check("size", V->size() == n)) { judge(c, d, dv(V), { n }, 1); }
	c.label(std::string(d.name) + ".std_vector"); { FV s = UT::weightInitialization(n, std::string(d.sname)); if (c.check("size", (int)s.size() == n)) judge(c, d, DV(s.begin(), s.end()), { n }, 1); }
	int y = r.chance(0.5) ? r.range(1, 6) : r.range(15, 40), x = r.chance(0.5) ? r.range(1, 6) : r.range(15, 40);
	RM M = newm(y, x); ut.weight_initializationm(M, t);
	// matrices: xavier uses rows + columns; the others one of the two fans
	auto jm = [&](const DV &v) { if (d.plus) judge(c, d, v, { y }, x); else judge(c, d, v, { y, x }, 0); };
	c.label(std::string(d.name) + ".matrix"); if (c.check("size", M->size() == Size2i(x, y))) jm(dm(M).d);
	c.label(std::string(d.name) + ".std_matrix"); { FM s = UT::weightInitialization(y, x, std::string(d.sname)); DV q; bool sh = (int)s.size() == y; for (auto &w : s) { if ((int)w.size() != x) sh = false; for (real_t f : w) q.push_back(f); } if (c.check("size", sh)) jm(q); }
	c.count(d.name); c.obs(hsh(hsh(hsh(hs(d.name), n), y), x), n > 1);
}
UNIT("U02", "bias_initialisation", 800, 10000) {
	Rng &r = c.rng;
	UT ut;
	int n = r.chance(0.5) ? r.range(1, 12) : r.range(200, 600);
	const Dist &d = dists[0];
	RV V = newv(n); ut.bias_initializationv(V); c.label("bias.vector"); if (c.check("size", V->size() == n)) judge(c, d, dv(V), { n }, 1);
	FV s = UT::biasInitialization(n); c.label("bias.std_vector"); if (c.check("size", (int)s.size() == n)) judge(c, d, DV(s.begin(), s.end()), { n }, 1);
	DV q; for (int i = 0; i < 8; i++) q.push_back(ut.bias_initializationr()); c.label("bias.scalar"); judge(c, d, q, { 8 }, 1);
	q.clear(); for (int i = 0; i < 8; i++) q.push_back(UT::biasInitialization()); c.label("bias.std_scalar"); judge(c, d, q, { 8 }, 1);
	c.obs(hsh(hs("bias"), n), n > 1);
}
