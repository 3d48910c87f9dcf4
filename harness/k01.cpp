// K01: cost values and gradients, vector and matrix forms, direct and by identifier.
#include "vh.h"
#include <algorithm>
typedef MLPPCost CO;
// value and true gradient (double)
struct Cost { const char *name; int id; double (*f)(const DV &, const DV &); DV (*g)(const DV &, const DV &); int dom; };
static double fmse(const DV &a, const DV &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return s / (2.0 * a.size()); }
static DV gmse(const DV &a, const DV &b) { DV o(a.size()); for (size_t i = 0; i < a.size(); i++) o[i] = (a[i] - b[i]) / a.size(); return o; }
static double frmse(const DV &a, const DV &b) { return std::sqrt(2 * fmse(a, b)); }
static DV grmse(const DV &a, const DV &b) { double r = frmse(a, b); DV o = gmse(a, b); for (double &x : o) x /= r; return o; }
static double fmae(const DV &a, const DV &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += std::fabs(a[i] - b[i]); return s / a.size(); }
static DV gmae(const DV &a, const DV &b) { DV o(a.size()); for (size_t i = 0; i < a.size(); i++) o[i] = (a[i] > b[i] ? 1.0 : a[i] < b[i] ? -1.0 : 0) / a.size(); return o; }
static double fmbe(const DV &a, const DV &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] - b[i]; return s / a.size(); }
static DV gmbe(const DV &a, const DV &) { return DV(a.size(), 1.0 / a.size()); }
static double fll(const DV &a, const DV &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s -= b[i] * std::log(a[i]) + (1 - b[i]) * std::log(1 - a[i]); return s / a.size(); }
static DV gll(const DV &a, const DV &b) { DV o(a.size()); for (size_t i = 0; i < a.size(); i++) o[i] = (-b[i] / a[i] + (1 - b[i]) / (1 - a[i])) / a.size(); return o; }
static double fce(const DV &a, const DV &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) if (b[i] != 0) s -= b[i] * std::log(a[i]); return s; }
static DV gce(const DV &a, const DV &b) { DV o(a.size()); for (size_t i = 0; i < a.size(); i++) o[i] = -b[i] / a[i]; return o; }
static double fhi(const DV &a, const DV &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += std::max(0.0, 1 - a[i] * b[i]); return s / a.size(); }
static DV ghi(const DV &a, const DV &b) { DV o(a.size()); for (size_t i = 0; i < a.size(); i++) o[i] = (1 - a[i] * b[i] > 0 ? -b[i] : 0) / a.size(); return o; }
static double fwa(const DV &a, const DV &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return -s / a.size(); }
static DV gwa(const DV &a, const DV &b) { DV o(a.size()); for (size_t i = 0; i < a.size(); i++) o[i] = -b[i] / a.size(); return o; }
static const Cost costs[] = {
	{ "mse", CO::COST_TYPE_MSE, fmse, gmse, 0 }, { "rmse", CO::COST_TYPE_RMSE, frmse, grmse, 0 }, { "mae", CO::COST_TYPE_MAE, fmae, gmae, 0 }, { "mbe", CO::COST_TYPE_MBE, fmbe, gmbe, 0 },
	{ "logistic_loss", CO::COST_TYPE_LOGISTIC_LOSS, fll, gll, 1 }, { "cross_entropy", CO::COST_TYPE_CROSS_ENTROPY, fce, gce, 2 }, { "hinge_loss", CO::COST_TYPE_HINGE_LOSS, fhi, ghi, 3 }, { "wasserstein_loss", CO::COST_TYPE_WASSERSTEIN_LOSS, fwa, gwa, 3 }
};
static void gen(Rng &r, int dom, DV &a, DV &b, int n) {
	a.resize(n); b.resize(n);
	double s = r.chance(0.2) ? 30 : 3;
	for (int i = 0; i < n; i++) switch (dom) {
		case 0: do { a[i] = r.f(-s, s); b[i] = r.f(-s, s); } while (std::fabs(a[i] - b[i]) < 0.02); break;
		case 1: a[i] = r.f(0.02, 0.98); b[i] = r.chance(0.7) ? r.range(0, 1) : (double)r.f(0, 1); break;
		case 2: a[i] = r.f(0.02, 0.98); b[i] = r.chance(0.7) ? r.range(0, 1) : (double)r.f(0, 1); break;
		case 3: b[i] = r.chance(0.5) ? 1 : -1; do a[i] = r.f(-s, s); while (std::fabs(1 - a[i] * b[i]) < 0.01); break;
	}
}
static double mag(const DV &a, const DV &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += std::fabs(a[i]) + std::fabs(b[i]); return s / std::max<size_t>(1, a.size()); }
static double call(CO &co, int k, const RV &a, const RV &b) { switch (k) { case 0: return co.msev(a, b); case 1: return co.rmsev(a, b); case 2: return co.maev(a, b); case 3: return co.mbev(a, b); case 4: return co.log_lossv(a, b); case 5: return co.cross_entropyv(a, b); case 6: return co.hinge_lossv(a, b); default: return co.wasserstein_lossv(a, b); } }
static double call(CO &co, int k, const RM &a, const RM &b) { switch (k) { case 0: return co.msem(a, b); case 1: return co.rmsem(a, b); case 2: return co.maem(a, b); case 3: return co.mbem(a, b); case 4: return co.log_lossm(a, b); case 5: return co.cross_entropym(a, b); case 6: return co.hinge_lossm(a, b); default: return co.wasserstein_lossm(a, b); } }
static RV dcall(CO &co, int k, const RV &a, const RV &b) { switch (k) { case 0: return co.mse_derivv(a, b); case 1: return co.rmse_derivv(a, b); case 2: return co.mae_derivv(a, b); case 3: return co.mbe_derivv(a, b); case 4: return co.log_loss_derivv(a, b); case 5: return co.cross_entropy_derivv(a, b); case 6: return co.hinge_loss_derivv(a, b); default: return co.wasserstein_loss_derivv(a, b); } }
static RM dcall(CO &co, int k, const RM &a, const RM &b) { switch (k) { case 0: return co.mse_derivm(a, b); case 1: return co.rmse_derivm(a, b); case 2: return co.mae_derivm(a, b); case 3: return co.mbe_derivm(a, b); case 4: return co.log_loss_derivm(a, b); case 5: return co.cross_entropy_derivm(a, b); case 6: return co.hinge_loss_derivm(a, b); default: return co.wasserstein_loss_derivm(a, b); } }

// got = k * want with one k > 0; returns k (0 if not proportional)
static double ratio(Ctx &c, const DV &got, const DV &want, const std::string &what) {
	if (!c.check("shape", got.size() == want.size(), what)) return 0;
	double gw = 0, ww = 0, gg = 0;
	for (size_t i = 0; i < got.size(); i++) { gw += got[i] * want[i]; ww += want[i] * want[i]; gg += got[i] * got[i]; if (!std::isfinite(got[i])) { c.fail("finite", what + " " + str(got)); return 0; } }
	if (ww == 0) { c.check("zero_gradient", gg < 1e-10, what + " got " + str(got)); return 0; }
	double k = gw / ww, mxw = 0; for (double w : want) mxw = std::max(mxw, std::fabs(w));
	if (!c.check("positive_factor", k > 0, strf("%s factor %g, got %s want ~ %s", what.c_str(), k, str(got).c_str(), str(want).c_str()))) return 0;
	for (size_t i = 0; i < got.size(); i++) if (std::fabs(got[i] - k * want[i]) > 3e-4 * k * mxw + 1e-6) { c.fail("gradient", strf("%s element %zu: got %g, gradient %g times factor %g", what.c_str(), i, got[i], want[i], k)); return 0; }
	return k;
}
static void descends(Ctx &c, double (*f)(const DV &, const DV &), const DV &a, const DV &b, const DV &g, const char *name, double lo, double hi) {
	double gg = 0; for (double x : g) gg = std::max(gg, std::fabs(x));
	if (gg == 0 || g.size() != a.size()) return;
	double st = 1e-4 / gg; DV n = a; for (size_t i = 0; i < a.size(); i++) { n[i] = a[i] - st * g[i]; if (n[i] < lo || n[i] > hi) return; }
	double f0 = f(a, b), f1 = f(n, b);
	c.check("descent_step", f1 <= f0 + 1e-9 * (1 + std::fabs(f0)), strf("%s: a small step against the derivative raised the cost from %.9g to %.9g", name, f0, f1));
}

UNIT("K01", "costs", 2500, 60000) {
	Rng &r = c.rng;
	CO co;
	int k = r.range(0, 7); const Cost &t = costs[k]; CO::CostTypes id = (CO::CostTypes)t.id;
	std::string nm = t.name;
	bool vec = r.chance(0.5);
	int y = r.range(1, 5), x = r.range(1, 5), n = vec ? (r.chance(0.05) ? r.range(50, 200) : r.range(1, 14)) : y * x;
	DV a, b; gen(r, t.dom, a, b, n);
	DV a2, b2; gen(r, t.dom, a2, b2, n);
	long e0 = errors();
	double want = t.f(a, b), at = 2e-6 * (1 + (k == 3 || k == 7 ? mag(a, b) * (k == 7 ? mag(a, b) : 1) : 1));
	DV g, g2;
	if (vec) {
		RV A = mkv(a), B = mkv(b);
		c.label(nm + ".vector"); c.eq("value", call(co, k, A, B), want, 3e-5, at);
		c.label(nm + ".run_vector"); c.eq("value", co.run_cost_norm_vector(id, A, B), want, 3e-5, at);
		auto p = co.get_cost_function_ptr_normal_vector(id); auto q = co.get_cost_function_ptr_deriv_vector(id);
		c.label(nm + ".ptr_vector"); if (c.check("present", p && q)) { c.eq("value", (co.*p)(A, B), want, 3e-5, at); }
		c.label(nm + ".deriv_vector"); RV D = dcall(co, k, A, B); g = dv(D);
		g2 = dv(dcall(co, k, mkv(a2), mkv(b2)));
		c.label(nm + ".run_deriv_vector"); samev(c, "same_as_direct", co.run_cost_deriv_vector(id, A, B), g);
		c.label(nm + ".ptr_deriv_vector"); if (q) samev(c, "same_as_direct", (co.*q)(A, B), g);
		c.label(nm + ".vector"); samev(c, "argument_unchanged", A, a); samev(c, "argument_unchanged", B, b);
	} else {
		DM ma(y, x), mb(y, x); ma.d = a; mb.d = b;
		RM A = mkm(ma), B = mkm(mb);
		c.label(nm + ".matrix"); c.eq("value", call(co, k, A, B), want, 3e-5, at);
		c.label(nm + ".run_matrix"); c.eq("value", co.run_cost_norm_matrix(id, A, B), want, 3e-5, at);
		auto p = co.get_cost_function_ptr_normal_matrix(id); auto q = co.get_cost_function_ptr_deriv_matrix(id);
		c.label(nm + ".ptr_matrix"); if (c.check("present", p && q)) { c.eq("value", (co.*p)(A, B), want, 3e-5, at); }
		c.label(nm + ".deriv_matrix"); RM D = dcall(co, k, A, B);
		if (!c.check("shape", D.is_valid() && D->size() == Size2i(x, y), "the derivative must have the shape of the prediction")) return;
		DM gm_ = dm(D); g = gm_.d;
		DM m2(y, x), n2(y, x); m2.d = a2; n2.d = b2; g2 = dm(dcall(co, k, mkm(m2), mkm(n2))).d;
		c.label(nm + ".run_deriv_matrix"); samem(c, "same_as_direct", co.run_cost_deriv_matrix(id, A, B), gm_);
		c.label(nm + ".ptr_deriv_matrix"); if (q) samem(c, "same_as_direct", (co.*q)(A, B), gm_);
		c.label(nm + ".matrix"); samem(c, "argument_unchanged", A, ma); samem(c, "argument_unchanged", B, mb);
		// the vector form on the same numbers
		c.label(nm + ".matrix_vs_vector"); c.eq("value", call(co, k, mkv(a), mkv(b)), call(co, k, A, B), 3e-5, at);
		DV gv_ = dv(dcall(co, k, mkv(a), mkv(b))); bool same = gv_.size() == g.size(); for (size_t i = 0; same && i < g.size(); i++) if (!close(gv_[i], g[i], 1e-4, 1e-6)) same = false;
		c.check("derivative", same, "vector form " + str(gv_) + " matrix form " + str(g));
	}
	c.label(nm + (vec ? ".deriv_vector" : ".deriv_matrix"));
	double k1 = ratio(c, g, t.g(a, b), nm), k2 = ratio(c, g2, t.g(a2, b2), nm);
	if (k1 > 0 && k2 > 0) c.check("constant_factor", std::fabs(k1 - k2) <= 1e-3 * std::max(k1, k2), strf("factor %g for one prediction, %g for another of the same shape", k1, k2));
	double lo = t.dom == 1 || t.dom == 2 ? 1e-3 : -1e9, hi = t.dom == 1 || t.dom == 2 ? 1 - 1e-3 : 1e9;
	descends(c, t.f, a, b, g, t.name, lo, hi);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count((nm + (vec ? ".vector" : ".matrix")).c_str()); c.obs(hsh(hsh(hs(nm), a), b), n > 1);
	if (r.chance(0.02)) c.sample(strf("%s n=%d value=%g factor=%g", t.name, n, want, k1));
}

// perfect and saturated predictions stay finite
UNIT("K01", "boundary", 600, 10000) {
	Rng &r = c.rng;
	CO co;
	int n = r.range(1, 8);
	DV y(n); for (double &v : y) v = r.range(0, 1);
	RV Y = mkv(y); DM m(1, n); m.d = y; RM M = mkm(m);
	c.label("logistic_loss.perfect"); c.eq("value", co.log_lossv(Y, Y), 0, 0, 1e-5); c.eq("value", co.log_lossm(M, M), 0, 0, 1e-5);
	c.label("cross_entropy.perfect"); c.eq("value", co.cross_entropyv(Y, Y), 0, 0, 1e-5); c.eq("value", co.cross_entropym(M, M), 0, 0, 1e-5);
	DV a = gv(r, n, K_MIX); RV A = mkv(a); DM q(n, 1); q.d = a; RM Q = mkm(q);
	c.label("regression.perfect");
	c.eq("mse", co.msev(A, A), 0, 0, 0); c.eq("rmse", co.rmsem(Q, Q), 0, 0, 0); c.eq("mae", co.maev(A, A), 0, 0, 0); c.eq("mbe", co.mbem(Q, Q), 0, 0, 0);
	for (double v : dv(co.mse_derivv(A, A))) c.eq("mse_deriv", v, 0, 0, 0);
	c.label("refusal"); long e0 = errors(); RV S = newv(n + 1); S->fill(1);
	double z = co.msev(A, S) + co.rmsev(A, S) + co.maev(A, S) + co.mbev(A, S) + co.log_lossv(A, S) + co.cross_entropyv(A, S) + co.hinge_lossv(A, S) + co.wasserstein_lossv(A, S) + co.huber_lossv(A, S, 1);
	c.check("refused", errors() == e0 + 9 && z == 0, "length mismatch accepted");
	c.obs(hsh(hsh(hs("bnd"), y), a));
}

UNIT("K01", "huber", 1200, 30000) {
	Rng &r = c.rng;
	CO co;
	int y = r.range(1, 4), x = r.range(1, 4), n = y * x;
	double de = r.f(0.2, 2.5);
	DV a(n), b(n);
	for (int i = 0; i < n; i++) do { a[i] = r.f(-4, 4); b[i] = r.f(-4, 4); } while (std::fabs(std::fabs(a[i] - b[i]) - de) < 0.01);
	double w = 0; DV g(n);
	for (int i = 0; i < n; i++) { double d = a[i] - b[i]; w += std::fabs(d) <= de ? d * d : 2 * de * std::fabs(d) - de * de; g[i] = std::fabs(d) <= de ? 2 * d : 2 * de * (d > 0 ? 1 : -1); }
	RV A = mkv(a), B = mkv(b); DM ma(y, x), mb(y, x); ma.d = a; mb.d = b; RM MA = mkm(ma), MB = mkm(mb);
	c.label("huber.vector"); c.eq("value", co.huber_lossv(A, B, de), w, 3e-5, 1e-5);
	c.label("huber.matrix"); c.eq("value", co.huber_lossm(MA, MB, de), w, 3e-5, 1e-5);
	auto f = [&](const DV &p) { double s = 0; for (int i = 0; i < n; i++) { double d = p[i] - b[i]; s += std::fabs(d) <= de ? d * d : 2 * de * std::fabs(d) - de * de; } return s; };
	c.label("huber.deriv_vector"); DV gv1 = dv(co.huber_loss_derivv(A, B, de)); ratio(c, gv1, g, "huber");
	c.label("huber.deriv_matrix"); RM D = co.huber_loss_derivm(MA, MB, de); if (c.check("shape", D.is_valid() && D->size() == Size2i(x, y))) ratio(c, dm(D).d, g, "huber");
	if (gv1.size() == (size_t)n) { DV p = a; for (int i = 0; i < n; i++) p[i] -= 1e-5 * gv1[i]; c.check("descent_step", f(p) <= f(a) + 1e-9, "huber: step raised the cost"); }
	samev(c, "argument_unchanged", A, a); samem(c, "argument_unchanged", MB, mb);
	c.obs(hsh(hsh(hs("huber"), a), b), true);
}

UNIT("K01", "hinge_with_weights", 1000, 20000) {
	Rng &r = c.rng;
	CO co;
	int y = r.range(1, 4), x = r.range(1, 4), n = y * x, nw = r.range(1, 6);
	double C = r.f(0.1, 3);
	DV a, b; gen(r, 3, a, b, n); DV w = gv(r, nw, K_STD);
	DM ma(y, x), mb(y, x), mw(1, nw); ma.d = a; mb.d = b; mw.d = w;
	RV A = mkv(a), B = mkv(b), W = mkv(w); RM MA = mkm(ma), MB = mkm(mb), MW = mkm(mw);
	double s = 0; for (double q : w) s += q * q / 2;
	double want = C * fhi(a, b) + s;
	c.label("hinge_lossw.vector"); c.eq("value", co.hinge_losswv(A, B, W, C), want, 3e-5, 1e-5);
	c.label("hinge_lossw.matrix"); c.eq("value", co.hinge_losswm(MA, MB, MW, C), want, 3e-5, 1e-5);
	DV g = ghi(a, b); for (double &q : g) q *= C * n;
	c.label("hinge_lossw.deriv_vector"); cmpv(c, "value", co.hinge_loss_derivwv(A, B, C), g, 1e-5, 1e-6);
	c.label("hinge_lossw.deriv_matrix"); DM gm_(y, x); gm_.d = g; cmpm(c, "value", co.hinge_loss_derivwm(MA, MB, C), gm_, 1e-5, 1e-6);
	samev(c, "argument_unchanged", W, w); samem(c, "argument_unchanged", MA, ma);
	c.obs(hsh(hsh(hs("hw"), a), w));
}

UNIT("K01", "dual_form_svm", 800, 20000) {
	Rng &r = c.rng;
	CO co;
	int n = r.range(1, 7), k = r.range(1, 4);
	DV al = gv(r, n, K_POS), y(n); for (double &v : y) v = r.chance(0.5) ? 1 : -1;
	DM X = gm(r, n, k, K_STD);
	DM Q(n, n); double f = 0, sc = 0; DV g(n, -1.0);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double d = 0; for (int q = 0; q < k; q++) d += X.at(i, q) * X.at(j, q); Q.at(i, j) = d * y[i] * y[j]; f += 0.5 * al[i] * al[j] * Q.at(i, j); sc += std::fabs(al[i] * al[j] * Q.at(i, j)); g[i] += Q.at(i, j) * al[j]; }
	for (double v : al) { f -= v; sc += v; }
	RV A = mkv(al), Y = mkv(y); RM M = mkm(X);
	c.label("dual_form_svm"); c.eq("value", co.dual_form_svm(A, M, Y), f, 3e-5, 3e-6 * sc + 1e-6);
	c.label("dual_form_svm_deriv"); cmpv(c, "gradient", co.dual_form_svm_deriv(A, M, Y), g, 3e-5, 3e-6 * sc + 1e-5);
	samev(c, "argument_unchanged", A, al); samem(c, "argument_unchanged", M, X); samev(c, "argument_unchanged", Y, y);
	c.obs(hsh(hsh(hs("dual"), al), X.d), n > 1);
}
