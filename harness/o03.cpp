// O03: support-vector classifiers against a double-precision reference of each step.
#include "vh.h"
#include <memory>
#include "modules/dual_svc/dual_svc.h"
#include "modules/svc/svc.h"
// names of their own, so that several harness files can be linked together (Z01)
#define P P_o03
#define Fit Fit_o03
typedef std::vector<int> VI;
static DV rowof(const DM &m, int i) { DV o(m.co); for (int j = 0; j < m.co; j++) o[j] = m.at(i, j); return o; }
static double dot(const DV &a, const DV &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
static std::vector<VI> batches(int n, int bs) {
	int nb = n / bs, per = n / nb; std::vector<VI> o;
	for (int i = 0; i < nb; i++) { VI b; for (int j = per * i; j < (i == nb - 1 ? n : per * (i + 1)); j++) b.push_back(j); o.push_back(b); }
	return o;
}
struct P { DV w; double b = 0; };
static void data(Rng &r, int n, int k, DM &X, DV &y) {
	X = DM(n, k); y.resize(n); double sep = r.uni(0, 2);
	for (int i = 0; i < n; i++) { y[i] = r.range(0, 1) * 2 - 1; for (int j = 0; j < k; j++) X.at(i, j) = r.chance(0.1) ? r.range(-2, 2) : (double)r.f(-2, 2) + 0; X.at(i, 0) = (float)(X.at(i, 0) + sep * y[i]); }
}
// false when a margin is too close to the kink to be decided in float
static bool step(P &p, const DM &X, const DV &y, const VI &rows, double lr, double C) {
	DV g(X.co, 0); double gb = 0; int m = (int)rows.size();
	for (int i : rows) { DV x = rowof(X, i); double mar = 1 - y[i] * (dot(p.w, x) + p.b); if (std::fabs(mar) < 2e-4) return false; if (mar > 0) { for (int j = 0; j < X.co; j++) g[j] -= C * y[i] * x[j]; gb -= C * y[i]; } }
	for (int j = 0; j < X.co; j++) { p.w[j] -= lr * g[j] / m; p.w[j] -= lr / m * p.w[j]; }
	p.b -= lr * gb / m;
	for (double v : p.w) if (!(std::fabs(v) < 50)) return false;
	return true;
}
struct Fit {
	int n, k; DM X; DV y; double C; RM rx; RV ry; std::unique_ptr<MLPPSVC> m; P p; double tol = 3e-5;
	Fit(Ctx &c) {
		Rng &r = c.rng; n = r.range(1, 8); k = r.range(1, 4); data(r, n, k, X, y); C = r.f(0.05, 4); rx = mkm(X); ry = mkv(y);
		c.label("svc.create");
		if (r.chance(0.4)) { m.reset(new MLPPSVC()); m->set_input_set(rx); m->set_output_set(ry); m->set_c(C); c.check("needs_init", m->needs_init(), "an uninitialised model claims to be ready"); m->initialize(); }
		else m.reset(new MLPPSVC(rx, ry, C));
		c.check("ready", !m->needs_init(), "an initialised model claims not to be ready");
		if (r.chance(0.7)) { p.w.resize(k); for (double &v : p.w) v = r.f(-1.5, 1.5); p.b = r.f(-1, 1); m->data_weights_set(mkv(p.w)); m->data_bias_set(p.b); }
		else { p.w = dv(m->data_weights_get()); p.b = m->data_bias_get(); c.check("initial_shape", (int)p.w.size() == k, "wrong parameter shape"); p.w.resize(k); }
	}
	double dist(const P &q) { DV w = dv(m->data_weights_get()); if ((int)w.size() != k) return 1e300; double d = std::fabs(m->data_bias_get() - q.b) / (1 + std::fabs(q.b)); if (std::isnan(d)) return 1e300; for (int j = 0; j < k; j++) { double v = std::fabs(w[j] - q.w[j]) / (1 + std::fabs(q.w[j])); if (std::isnan(v)) return 1e300; d = std::max(d, v); } return d; }
	bool judge(Ctx &c, const P &q, const char *what) {
		if (dist(q) <= tol) return true;
		c.fail("step", strf("%s: weights %s bias %.8g, expected %s %.8g; before %s %.8g; n=%d C=%g", what, str(dv(m->data_weights_get())).c_str(), (double)m->data_bias_get(), str(q.w).c_str(), q.b, str(p.w).c_str(), p.b, n, C)); return false;
	}
	void consistent(Ctx &c, bool trained) {
		Rng &r = c.rng; DM Q(r.range(1, 5), k); for (double &v : Q.d) v = r.f(-3, 3);
		RV s = m->model_set_test(mkm(Q)); if (c.check("set_size", s.is_valid() && s->size() == Q.r, "wrong number of predictions"))
			for (int i = 0; i < Q.r; i++) { double z = dot(p.w, rowof(Q, i)) + p.b; if (std::fabs(z) < 3e-4) continue; double w = z > 0 ? 1 : -1; c.eq("model_set_test", s->element_get(i), w, 0, 0); c.eq("model_test", m->model_test(mkv(rowof(Q, i))), w, 0, 0); }
		if (trained) {
			DV z(n); bool sure = true; int ok = 0; for (int i = 0; i < n; i++) { z[i] = dot(p.w, rowof(X, i)) + p.b; if (std::fabs(z[i]) < 3e-4) sure = false; ok += (z[i] > 0 ? 1 : -1) == y[i]; }
			cmpv(c, "stored_z", m->data_z_get(), z, tol * 4, tol * 4);
			if (sure) { DV s2(n); for (int i = 0; i < n; i++) s2[i] = z[i] > 0 ? 1 : -1; samev(c, "stored_fit", m->data_y_hat_get(), s2); c.eq("score", m->score(), ok / (double)n, 1e-6, 1e-6); c.count("scores_judged"); }
		}
		samem(c, "input_set_unchanged", rx, X); samev(c, "output_set_unchanged", ry, y);
	}
};
UNIT("O03", "svc", 6000, 250000) {
	Rng &r = c.rng; long e0 = errors(); Fit f(c); c.label("svc.predict"); f.consistent(c, false);
	for (int calls = r.range(1, 4); calls > 0; calls--) {
		int kind = r.range(0, 2); double lr = r.chance(0.08) ? 0 : (double)r.f(0.01, 0.7); int ep = kind == 1 ? 1 : r.range(1, 3), bs = r.range(1, f.n);
		if (kind == 1) {
			std::vector<P> next; bool ok = true; for (int i = 0; i < f.n; i++) { P q = f.p; ok = step(q, f.X, f.y, { i }, lr, f.C) && ok; next.push_back(q); }
			if (!ok) { c.count("undetermined_step"); break; }
			c.label("svc.sgd"); f.m->train_sgd(lr, 1); size_t best = 0; for (size_t i = 0; i < next.size(); i++) if (f.dist(next[i]) < f.dist(next[best])) best = i;
			c.count("admissible_next_states", (long)next.size()); if (!f.judge(c, next[best], "closest single-sample step")) return; f.p = next[best];
		} else {
			P q = f.p; bool ok = true; auto B = kind == 0 ? batches(f.n, f.n) : batches(f.n, bs);
			for (int e = 0; e < ep; e++) for (auto &b : B) ok = ok && step(q, f.X, f.y, b, lr, f.C);
			if (!ok) { c.count("undetermined_step"); break; }
			c.label(kind ? "svc.mbgd" : "svc.gradient_descent"); if (kind) f.m->train_mbgd(lr, ep, bs); else f.m->train_gradient_descent(lr, ep);
			if (!f.judge(c, q, "epoch")) return; f.p = q;
		}
		c.count("training_calls"); f.consistent(c, true); f.tol *= 1.5; c.obs(hsh(hsh(hsh(hs(c.where), f.p.w), f.y), DV{ lr, f.p.b }), lr > 0);
	}
	c.label("svc.errors"); c.check("no_error", errors() == e0, "a valid request was refused");
	if (r.chance(0.003)) c.sample(strf("n=%d k=%d C=%g weights %s bias %g", f.n, f.k, f.C, str(f.p.w).c_str(), f.p.b));
}
// which samples the stochastic training uses
UNIT("O03", "svc.sgd_coverage", 4, 40) {
	Rng &r = c.rng; int n = r.range(2, 4); c.label("svc.sgd_coverage"); DM X(n, n); DV y(n, 1); for (int i = 0; i < n; i++) { X.at(i, i) = 1; y[i] = r.range(0, 1) * 2 - 1; }
	std::set<int> seen; for (int t = 0; t < 100; t++) { MLPPSVC m(mkm(X), mkv(y), 1); m.data_weights_set(mkv(DV(n, 0))); m.data_bias_set(0); m.train_sgd(0.1, 1); DV w = dv(m.data_weights_get()); for (int i = 0; i < n && i < (int)w.size(); i++) if (w[i] != 0) seen.insert(i); }
	c.count("draws_classified", 100); c.check("all_samples", (int)seen.size() == n, strf("only %zu of %d samples were ever used", seen.size(), n)); c.obs(hsh(n, c.case_no));
}
UNIT("O03", "dual_svc", 6000, 250000) {
	Rng &r = c.rng; long e0 = errors(); int n = r.range(1, 7), k = r.range(1, 4); DM X; DV y; data(r, n, k, X, y); double C = r.chance(0.3) ? (double)r.f(0.05, 0.9) : (double)r.f(0.9, 10);
	RM rx = mkm(X); RV ry = mkv(y); c.label("dual_svc.create"); MLPPDualSVC m(rx, ry, C); DM K = mul(X, tr(X)); double big = 0; for (double v : K.d) big = std::max(big, std::fabs(v));
	cmpm(c, "kernel_matrix", m.vp_kernel_matrix(), K, 1e-5, 1e-5);
	DM U(r.range(1, 4), k), V(r.range(1, 4), k); for (double &v : U.d) v = r.f(-2, 2); for (double &v : V.d) v = r.f(-2, 2);
	c.label("dual_svc.kernel"); cmpm(c, "matrices", m.vp_kernelm(mkm(U), mkm(V)), mul(U, tr(V)), 1e-5, 1e-5); c.eq("vectors", m.vp_kernelv(mkv(rowof(U, 0)), mkv(rowof(V, 0))), dot(rowof(U, 0), rowof(V, 0)), 1e-5, 1e-5);
	DV al = dv(m.vp_alpha()); c.label("dual_svc.create"); if (!c.check("one_multiplier_per_sample", (int)al.size() == n, strf("%zu multipliers for %d samples", al.size(), n))) return;
	if (r.chance(0.5)) { for (double &v : al) v = r.chance(0.2) ? 0 : (double)r.f(0, std::min(C, 2.0)); m.vp_set_alpha(mkv(al)); }
	double tol = 4e-5;
	auto consistent = [&](bool trained) {
		al = dv(m.vp_alpha()); double b = m.vp_bias(); DV w(k, 0); double mag = std::fabs(b); for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) { w[j] += al[i] * y[i] * X.at(i, j); mag += std::fabs(al[i] * X.at(i, j)) * 3; }
		double thr = 1e-5 * (1 + mag); DM Q(r.range(1, 5), k); for (double &v : Q.d) v = r.f(-3, 3);
		RV s = m.model_set_test(mkm(Q)); if (c.check("set_size", s.is_valid() && s->size() == Q.r, "wrong number of predictions"))
			for (int i = 0; i < Q.r; i++) { double z = dot(w, rowof(Q, i)) + b; if (std::fabs(z) < thr) continue; double e = z > 0 ? 1 : -1; c.eq("model_set_test", s->element_get(i), e, 0, 0); c.eq("model_test", m.model_test(mkv(rowof(Q, i))), e, 0, 0); }
		if (trained) { int ok = 0; bool sure = true; for (int i = 0; i < n; i++) { double z = dot(w, rowof(X, i)) + b; if (std::fabs(z) < thr) sure = false; ok += (z > 0 ? 1 : -1) == y[i]; } if (sure) { c.eq("score", m.score(), ok / (double)n, 1e-6, 1e-6); c.count("scores_judged"); } }
		samem(c, "input_set_unchanged", rx, X); samev(c, "output_set_unchanged", ry, y);
	};
	c.label("dual_svc.predict"); consistent(false);
	for (int calls = r.range(1, 3); calls > 0; calls--) {
		double lr = r.chance(0.08) ? 0 : (double)r.f(0.005, 0.9) / (1 + big * n * 0.3); int ep = r.range(1, 3); DV a = al; int clipped = 0;
		for (int e = 0; e < ep; e++) { DV d(n); for (int i = 0; i < n; i++) { d[i] = -1; for (int j = 0; j < n; j++) d[i] += y[i] * y[j] * K.at(i, j) * a[j]; } for (int i = 0; i < n; i++) { a[i] -= lr * d[i]; if (a[i] > C || a[i] < 0) clipped++; a[i] = std::min(std::max(a[i], 0.0), C); } }
		c.label("dual_svc.gradient_descent"); DV before = al; m.gradient_descent(lr, ep); DV got = dv(m.vp_alpha());
		for (double v : got) c.check("within_bounds", v >= 0 && v <= (float)C, strf("multiplier %g outside [0, %g]", v, C));
		if (!cmpv(c, "multipliers", m.vp_alpha(), a, tol, tol)) { c.sample("before " + str(before)); return; }
		al = got; consistent(true); tol *= 1.5; c.count("training_calls"); c.count("projections", clipped); c.obs(hsh(hsh(hsh(ep, a), y), DV{ lr, C }), lr > 0);
	}
	c.label("dual_svc.errors"); c.check("no_error", errors() == e0, "a valid request was refused");
}
