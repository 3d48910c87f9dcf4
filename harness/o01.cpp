// O01 / O02: training of the single-layer models against a double-precision reference of each step.
#include "vh.h"
#include <memory>
#include "modules/c_log_log_reg/c_log_log_reg.h"
#include "modules/exp_reg/exp_reg.h"
#include "modules/lin_reg/lin_reg.h"
#include "modules/log_reg/log_reg.h"
#include "modules/probit_reg/probit_reg.h"
#include "modules/softmax_reg/softmax_reg.h"
#include "modules/tanh_reg/tanh_reg.h"
#include "modules/uni_lin_reg/uni_lin_reg.h"
typedef MLPPReg::RegularizationType RT_;
static const char *REGN[] = { "none", "ridge", "lasso", "elastic_net", "clip" };

struct Reg {
	int t = 0; double la = 0, al = 0;
	// the regularised weight step; false when the result is not determined (a sign at zero)
	bool weights(DV &w) const {
		for (double &v : w) {
			if ((t == 2 || t == 3) && std::fabs(v) < 2e-4) return false;
			double s = v > 0 ? 1 : -1;
			if (t == 1) v -= la * v; else if (t == 2) v -= la * s; else if (t == 3) v -= la * (al * s + (1 - al) * v); else if (t == 4) v = std::min(std::max(v, la), al);
		}
		return true;
	}
	bool deriv(const DV &w, DV &d) const {
		d.assign(w.size(), 0);
		for (size_t i = 0; i < w.size(); i++) {
			double v = w[i], s = v > 0 ? 1 : -1;
			if ((t == 2 || t == 3) && std::fabs(v) < 2e-4) return false;
			if (t == 1) d[i] = la * v; else if (t == 2) d[i] = la * s; else if (t == 3) d[i] = la * (al * s + (1 - al) * v);
		}
		return true;
	}
};
static Reg greg(Rng &r, bool clip = true) {
	Reg g; g.t = r.chance(0.35) ? 0 : r.range(1, clip ? 4 : 3); g.la = r.f(0.01, 0.45); g.al = r.chance(0.2) ? 0.5 : r.f(0, 1);
	if (r.chance(0.15)) g.la = 0.5;
	if (g.t == 4) { g.la = r.f(-0.5, 0.3); g.al = g.la + r.f(0.1, 0.8); g.al = (float)g.al; }
	return g;
}
struct P { DV w, in; double b = 0; };
enum A { LIN, LOG, PROBIT, TANH, CLL, EXP };
static const char *AN[] = { "lin_reg", "log_reg", "probit_reg", "tanh_reg", "c_log_log_reg", "exp_reg" };
static double actf(A a, double z) { switch (a) { case LOG: return 1 / (1 + std::exp(-z)); case PROBIT: return 0.5 * std::erfc(-z / std::sqrt(2.0)); case TANH: return std::tanh(z); case CLL: return 1 - std::exp(-std::exp(z)); default: return z; } }
static double slope(A a, double z) { switch (a) { case LOG: { double s = actf(a, z); return s * (1 - s); } case PROBIT: return std::exp(-z * z / 2) / std::sqrt(2 * M_PI); case TANH: return 1 - std::tanh(z) * std::tanh(z); case CLL: return std::exp(z - std::exp(z)); default: return 1; } }
static double fac(A a, double z) { return a == LOG ? 1 : slope(a, z); } // d(cost)/dz = error * fac
static double zof(const P &p, const DV &x) { double z = p.b; for (size_t i = 0; i < x.size(); i++) z += p.w[i] * x[i]; return z; }
static double pred(A a, const P &p, const DV &x) {
	if (a != EXP) return actf(a, zof(p, x));
	double y = p.b; for (size_t i = 0; i < x.size(); i++) y += p.in[i] * std::pow(p.w[i], x[i]); return y;
}
static DV rowof(const DM &m, int i) { DV o(m.co); for (int j = 0; j < m.co; j++) o[j] = m.at(i, j); return o; }
typedef std::vector<int> VI;
// gradient of the mean cost over some rows
static void grad(A a, const P &p, const DM &X, const DV &y, const VI &rows, DV &gw, DV &gi, double &gb) {
	gw.assign(X.co, 0); gi.assign(X.co, 0); gb = 0;
	for (int i : rows) {
		DV x = rowof(X, i);
		double e = pred(a, p, x) - y[i];
		if (a == EXP) { for (int j = 0; j < X.co; j++) { gw[j] += e * p.in[j] * x[j] * std::pow(p.w[j], x[j] - 1) / rows.size(); gi[j] += e * std::pow(p.w[j], x[j]) / rows.size(); } gb += e / rows.size(); continue; }
		e *= fac(a, zof(p, x));
		for (int j = 0; j < X.co; j++) gw[j] += e * x[j] / rows.size();
		gb += e / rows.size();
	}
}
static bool step(A a, P &p, const DM &X, const DV &y, const VI &rows, double lr, const Reg &g) {
	DV gw, gi; double gb; grad(a, p, X, y, rows, gw, gi, gb);
	for (int j = 0; j < X.co; j++) { p.w[j] -= lr * gw[j]; if (a == EXP) p.in[j] -= lr * gi[j]; }
	p.b -= lr * gb;
	if (!g.weights(p.w)) return false;
	for (double v : p.w) if (!(std::fabs(v) < 20) || (a == EXP && v < 0.06)) return false;
	return std::fabs(p.b) < 20;
}
static VI allrows(int n) { VI o; for (int i = 0; i < n; i++) o.push_back(i); return o; }
static std::vector<VI> batches(int n, int bs) {
	int nb = n / bs, per = n / nb; std::vector<VI> o;
	for (int i = 0; i < nb; i++) { VI b; for (int j = per * i; j < (i == nb - 1 ? n : per * (i + 1)); j++) b.push_back(j); o.push_back(b); }
	return o;
}

struct Model {
	A a; RM X; RV Y; bool settable = false;
	std::unique_ptr<MLPPLinReg> lin; std::unique_ptr<MLPPLogReg> log; std::unique_ptr<MLPPProbitReg> pro; std::unique_ptr<MLPPTanhReg> tan; std::unique_ptr<MLPPCLogLogReg> cll; std::unique_ptr<MLPPExpReg> exp;
	Model(A aa, const RM &x, const RV &y, const Reg &g, bool setters) : a(aa), X(x), Y(y) {
		RT_ t = (RT_)g.t;
		switch (a) {
			case LIN: lin.reset(new MLPPLinReg(x, y, t, g.la, g.al)); break;
			case LOG: log.reset(new MLPPLogReg(x, y, t, g.la, g.al)); break;
			case CLL: cll.reset(new MLPPCLogLogReg(x, y, t, g.la, g.al)); break;
			case EXP: exp.reset(new MLPPExpReg(x, y, t, g.la, g.al)); break;
			case PROBIT:
				settable = true;
				if (setters) { pro.reset(new MLPPProbitReg()); pro->set_input_set(x); pro->set_output_set(y); pro->set_reg(t); pro->set_lambda(g.la); pro->set_alpha(g.al); pro->initialize(); }
				else pro.reset(new MLPPProbitReg(x, y, t, g.la, g.al));
				break;
			case TANH:
				settable = true;
				if (setters) { tan.reset(new MLPPTanhReg()); tan->set_input_set(x); tan->set_output_set(y); tan->set_reg(t); tan->set_lambda(g.la); tan->set_alpha(g.al); tan->initialize(); }
				else tan.reset(new MLPPTanhReg(x, y, t, g.la, g.al));
				break;
		}
	}
#define ALL(call) switch (a) { case LIN: return lin->call; case LOG: return log->call; case PROBIT: return pro->call; case TANH: return tan->call; case CLL: return cll->call; default: return exp->call; }
	double one(const DV &x) { RV v = mkv(x); ALL(model_test(v)) }
	RV set(const RM &m) { ALL(model_set_test(m)) }
	double score() { ALL(score()) }
	void gd(double lr, int ep) { switch (a) { case LIN: lin->gradient_descent(lr, ep); break; case LOG: log->gradient_descent(lr, ep); break; case PROBIT: pro->train_gradient_descent(lr, ep); break; case TANH: tan->train_gradient_descent(lr, ep); break; case CLL: cll->gradient_descent(lr, ep); break; case EXP: exp->gradient_descent(lr, ep); break; } }
	bool has_mle() { return a == LOG || a == PROBIT || a == CLL; }
	void mle(double lr, int ep) { if (a == LOG) log->mle(lr, ep); else if (a == PROBIT) pro->train_mle(lr, ep); else cll->mle(lr, ep); }
	void sgd(double lr, int ep) { switch (a) { case LIN: lin->sgd(lr, ep); break; case LOG: log->sgd(lr, ep); break; case PROBIT: pro->train_sgd(lr, ep); break; case TANH: tan->train_sgd(lr, ep); break; case CLL: cll->sgd(lr, ep); break; case EXP: exp->sgd(lr, ep); break; } }
	void mbgd(double lr, int ep, int bs) { switch (a) { case LIN: lin->mbgd(lr, ep, bs); break; case LOG: log->mbgd(lr, ep, bs); break; case PROBIT: pro->train_mbgd(lr, ep, bs); break; case TANH: tan->train_mbgd(lr, ep, bs); break; case CLL: cll->mbgd(lr, ep, bs); break; case EXP: exp->mbgd(lr, ep, bs); break; } }
	// initial parameters: set them, or recover them from predictions (initial weights and bias lie in [0, 1))
	bool params(Rng &r, P &p) {
		int k = X->size().x; p.w.assign(k, 0);
		if (settable) {
			for (double &v : p.w) v = r.f(-1, 1); p.b = r.f(-1, 1);
			if (a == PROBIT) { pro->data_weights_set(mkv(p.w)); pro->data_bias_set(p.b); } else { tan->data_weights_set(mkv(p.w)); tan->data_bias_set(p.b); }
			return true;
		}
		if (a == EXP) {
			p.in.assign(k, 0); double s0 = one(DV(k, 0)), tot = 0;
			for (int i = 0; i < k; i++) { DV x(k, 0); x[i] = 1; double d1 = one(x) - s0; x[i] = 2; double d2 = one(x) - s0; if (std::fabs(d1) < 0.08) return false; p.w[i] = d2 / d1 - 1; if (p.w[i] < 0.15 || p.w[i] > 0.85) return false; p.in[i] = d1 / (p.w[i] - 1); tot += p.in[i]; }
			p.b = s0 - tot; return true;
		}
		auto inv = [&](double y) { return a == LIN ? y : a == LOG ? std::log(y / (1 - y)) : std::log(-std::log1p(-y)); };
		p.b = inv(one(DV(k, 0)));
		for (int i = 0; i < k; i++) { DV x(k, 0); x[i] = -1; p.w[i] = p.b - inv(one(x)); }
		for (double v : p.w) if (!(v > -0.01 && v < 1.01)) return false;
		return true;
	}
};

struct Fit {
	A a; int n, k; DM X; DV y; Reg g; RM rx; RV ry; std::unique_ptr<Model> m; P p; DM probe; double tol; DV before;
	bool ok = false;
	Fit(Ctx &c, A aa, bool clip = true) : a(aa) {
		Rng &r = c.rng;
		n = r.range(1, 7); k = r.range(1, a == EXP ? 2 : 4);
		X = DM(n, k); y.resize(n);
		for (double &v : X.d) v = a == EXP ? (r.chance(0.5) ? r.range(0, 3) : (double)r.f(0.2, 3)) : r.chance(0.2) ? r.range(-1, 1) : (double)r.f(-1.5, 1.5);
		for (double &v : y) v = a == LIN || a == EXP ? (r.chance(0.5) ? r.range(-2, 3) : (double)r.f(-3, 3)) : a == TANH ? (r.chance(0.7) ? (double)(r.range(0, 1) * 2 - 1) : (double)r.f(-1, 1)) : r.range(0, 1);
		g = greg(r, clip); if (a == EXP && g.t == 4) { g.la = 0.15f; g.al = 0.7f; }
		rx = mkm(X); ry = mkv(y);
		c.label(std::string(AN[a]) + ".create");
		m.reset(new Model(a, rx, ry, g, r.chance(0.4)));
		tol = a == LIN ? 3e-5 : a == EXP ? 4e-4 : 6e-5;
		probe = DM(k + 3, k);
		for (int i = 0; i < probe.r; i++) for (int j = 0; j < k; j++) probe.at(i, j) = i == 0 ? 0 : i <= k ? (i - 1 == j) : a == EXP ? (double)r.f(0, 2.5) : (double)r.f(-1, 1);
		// an untrained model's score is not judged; its predictions are its parameters
		ok = m->params(r, p); if (ok) remember();
	}
	bool judge(Ctx &c, const P &q, bool report) {
		RV s = m->set(mkm(probe)); bool good = s.is_valid() && s->size() == probe.r;
		DV want(probe.r);
		for (int i = 0; i < probe.r; i++) { want[i] = pred(a, q, rowof(probe, i)); if (good && !close(s->element_get(i), want[i], tol, tol)) good = false; }
		if (!report) return good;
		if (!good) { DV p_before; for (int i = 0; i < probe.r; i++) p_before.push_back(before.size() ? before[i] : 0); c.fail("step", strf("predictions after the step %s, expected %s, before %s; reg %s %g %g, n=%d k=%d", str(dv(s)).c_str(), str(want).c_str(), str(p_before).c_str(), REGN[g.t], g.la, g.al, n, k)); }
		return good;
	}
	double dist(const P &q) { RV s = m->set(mkm(probe)); if (!s.is_valid() || s->size() != probe.r) return 1e300; double d = 0; for (int i = 0; i < probe.r; i++) { double v = std::fabs(s->element_get(i) - pred(a, q, rowof(probe, i))); d = v <= d ? d : std::isnan(v) ? 1e300 : v; } return d; }
	void remember() { before.clear(); for (int i = 0; i < probe.r; i++) before.push_back(pred(a, p, rowof(probe, i))); }
	// everything that must hold of the model whose parameters are p
	void consistent(Ctx &c, bool trained) {
		Rng &r = c.rng;
		for (int i = 0; i < 2; i++) { int q = r.range(0, probe.r - 1); DV x = rowof(probe, q); c.eq("model_test", m->one(x), pred(a, p, x), tol, tol); }
		RV s = m->set(rx); DV want(n); for (int i = 0; i < n; i++) want[i] = pred(a, p, rowof(X, i));
		double big = 0; for (double v : want) big = std::max(big, std::fabs(v)); cmpv(c, "model_set_test", s, want, tol, tol * (1 + big));
		if (trained) {
			int lo = 0, hi = 0;
			for (int i = 0; i < n; i++) { double t = 4 * tol * (1 + std::fabs(want[i])); bool l1 = std::round(want[i] - t) == y[i], h1 = std::round(want[i] + t) == y[i]; lo += l1 && h1; hi += l1 || h1; }
			double sc = m->score() * n; c.check("score", sc > lo - 0.01 && sc < hi + 0.01, strf("score*n = %g, expected %d..%d", sc, lo, hi)); c.count("scores_judged");
			DV f = a == PROBIT ? dv(m->pro->data_y_hat_get()) : a == TANH ? dv(m->tan->data_y_hat_get()) : DV();
			if (a == PROBIT || a == TANH) { cmpv(c, "stored_fit", mkv(f), want, tol, tol); DV z(n); for (int i = 0; i < n; i++) z[i] = zof(p, rowof(X, i)); cmpv(c, "stored_z", a == PROBIT ? m->pro->data_z_get() : m->tan->data_z_get(), z, 2 * tol, 2 * tol);
				cmpv(c, "weights", a == PROBIT ? m->pro->data_weights_get() : m->tan->data_weights_get(), p.w, tol, tol); c.eq("bias", a == PROBIT ? m->pro->data_bias_get() : m->tan->data_bias_get(), p.b, tol, tol); }
		}
		samem(c, "input_set_unchanged", rx, X); samev(c, "output_set_unchanged", ry, y);
	}
};

static void full_batch(Ctx &c, A a) {
	Rng &r = c.rng; long e0 = errors();
	Fit f(c, a); if (!f.ok) { c.count("unrecoverable_start"); return; }
	c.label(std::string(AN[a]) + ".predict"); f.consistent(c, false);
	int calls = r.range(1, 3); double moved = 0;
	for (int i = 0; i < calls; i++) {
		double lr = r.chance(0.1) ? 0 : (double)r.f(0.01, a == EXP ? 0.1 : 0.8); int ep = r.chance(0.5) ? 1 : r.range(2, 4);
		bool mle = f.m->has_mle() && r.chance(0.5); P q = f.p; bool ok = true;
		for (int e = 0; e < ep && ok; e++) ok = step(a, q, f.X, f.y, allrows(f.n), lr, f.g);
		if (!ok) { c.count("undetermined_step"); break; }
		c.label(std::string(AN[a]) + (mle ? ".mle" : ".gradient_descent"));
		if (mle) f.m->mle(lr, ep); else f.m->gd(lr, ep);
		c.count("training_calls"); c.count("epochs", ep);
		if (!f.judge(c, q, true)) return;
		for (size_t j = 0; j < q.w.size(); j++) moved += std::fabs(q.w[j] - f.p.w[j]);
		f.p = q; f.remember(); f.consistent(c, true); f.tol *= 1.7;
		c.obs(hsh(hsh(hsh(hs(c.where + REGN[f.g.t]), q.w), f.y), DV{ lr, (double)ep, q.b }), moved > 1e-4);
	}
	c.label(std::string(AN[a]) + ".errors"); c.check("no_error", errors() == e0, "a valid request was refused");
	if (r.chance(0.01)) c.sample(strf("%s n=%d k=%d reg=%s weights %s", AN[a], f.n, f.k, REGN[f.g.t], str(f.p.w).c_str()));
}
UNIT("O01", "fit.lin_reg", 1500, 60000) { full_batch(c, LIN); }
UNIT("O01", "fit.log_reg", 1500, 60000) { full_batch(c, LOG); }
UNIT("O01", "fit.probit_reg", 1500, 60000) { full_batch(c, PROBIT); }
UNIT("O01", "fit.tanh_reg", 1500, 60000) { full_batch(c, TANH); }
UNIT("O01", "fit.c_log_log_reg", 1500, 60000) { full_batch(c, CLL); }
UNIT("O01", "fit.exp_reg", 2500, 80000) { full_batch(c, EXP); }

// ---- softmax regression: parameters are readable ----
struct Soft {
	int n, k, m; DM X, Y, W; DV b; Reg g; RM rx, ry; std::unique_ptr<MLPPSoftmaxReg> s; double tol = 3e-5;
	static DM soft(const DM &X, const DM &W, const DV &b) {
		DM z = mul(X, W);
		for (int i = 0; i < z.r; i++) { double mx = -1e300, t = 0; for (int j = 0; j < z.co; j++) { z.at(i, j) += b[j]; mx = std::max(mx, z.at(i, j)); } for (int j = 0; j < z.co; j++) t += std::exp(z.at(i, j) - mx); for (int j = 0; j < z.co; j++) z.at(i, j) = std::exp(z.at(i, j) - mx) / t; }
		return z;
	}
	Soft(Ctx &c) {
		Rng &r = c.rng; n = r.range(1, 6); k = r.range(1, 4); m = r.range(1, 4);
		X = DM(n, k); Y = DM(n, m); for (double &v : X.d) v = r.f(-1.5, 1.5); for (int i = 0; i < n; i++) Y.at(i, r.range(0, m - 1)) = 1;
		g = greg(r); rx = mkm(X); ry = mkm(Y); c.label("softmax_reg.create");
		if (r.chance(0.4)) { s.reset(new MLPPSoftmaxReg()); s->set_input_set(rx); s->set_output_set(ry); s->set_reg((RT_)g.t); s->set_lambda(g.la); s->set_alpha(g.al); c.check("needs_init", s->needs_init(), "an uninitialised model claims to be ready"); s->initialize(); }
		else s.reset(new MLPPSoftmaxReg(rx, ry, (RT_)g.t, g.la, g.al));
		c.check("ready", !s->needs_init(), "an initialised model claims not to be ready");
		if (r.chance(0.5)) { W = DM(k, m); for (double &v : W.d) v = r.f(-1, 1); b.resize(m); for (double &v : b) v = r.f(-1, 1); s->data_weights_set(mkm(W)); s->data_bias_set(mkv(b)); }
		else { W = dm(s->data_weights_get()); b = dv(s->data_bias_get()); c.check("initial_shape", W.r == k && W.co == m && (int)b.size() == m, "wrong parameter shapes"); }
	}
	bool step(const VI &rows, double lr, DM &w, DV &bb) {
		DM gw(k, m); DV gb(m, 0);
		for (int i : rows) { DM x(1, k); x.d = rowof(X, i); DM p = soft(x, w, bb); for (int j = 0; j < m; j++) { double e = p.at(0, j) - Y.at(i, j); gb[j] += e; for (int q = 0; q < k; q++) gw.at(q, j) += e * x.d[q]; } }
		for (size_t i = 0; i < w.d.size(); i++) w.d[i] -= lr * gw.d[i];
		for (int j = 0; j < m; j++) bb[j] -= lr * gb[j];
		for (double v : w.d) if (!(std::fabs(v) < 30)) return false;
		return g.weights(w.d);
	}
	bool at(const DM &w, const DV &bb) {
		DM gw = dm(s->data_weights_get()); DV gb = dv(s->data_bias_get()); if (gw.r != k || gw.co != m || (int)gb.size() != m) return false;
		for (size_t i = 0; i < w.d.size(); i++) if (!close(gw.d[i], w.d[i], tol, tol)) return false;
		for (int j = 0; j < m; j++) if (!close(gb[j], bb[j], tol, tol)) return false;
		return true;
	}
	void consistent(Ctx &c, bool trained) {
		Rng &r = c.rng; DM want = soft(X, W, b); cmpm(c, "model_set_test", s->model_set_test(rx), want, tol, tol);
		DM Q(r.range(1, 4), k); for (double &v : Q.d) v = r.f(-2, 2); DM qw = soft(Q, W, b); cmpm(c, "model_set_test", s->model_set_test(mkm(Q)), qw, tol, tol);
		int i = r.range(0, Q.r - 1); cmpv(c, "model_test", s->model_test(mkv(rowof(Q, i))), rowof(qw, i), tol, tol);
		if (trained) {
			cmpm(c, "stored_fit", s->data_y_hat_get(), want, tol, tol);
			int lo = 0, hi = 0; for (int a = 0; a < n; a++) { bool l = true, h = true; for (int j = 0; j < m; j++) { double v = want.at(a, j); bool l1 = std::round(v - 3e-4) == Y.at(a, j), h1 = std::round(v + 3e-4) == Y.at(a, j); l = l && l1 && h1; h = h && (l1 || h1); } lo += l; hi += h; }
			double sc = s->score() * n; c.check("score", sc > lo - 0.01 && sc < hi + 0.01, strf("score*n = %g, expected %d..%d", sc, lo, hi)); c.count("scores_judged");
		}
		samem(c, "input_set_unchanged", rx, X); samem(c, "output_set_unchanged", ry, Y);
	}
	void miss(Ctx &c, const DM &w, const DV &bb) { c.fail("step", strf("weights %s bias %s, expected %s %s; before %s %s, reg %s %g %g", str(dm(s->data_weights_get())).c_str(), str(dv(s->data_bias_get())).c_str(), str(w).c_str(), str(bb).c_str(), str(W).c_str(), str(b).c_str(), REGN[g.t], g.la, g.al)); }
};
UNIT("O01", "fit.softmax_reg", 2000, 80000) {
	Rng &r = c.rng; long e0 = errors(); Soft f(c); c.label("softmax_reg.predict"); f.consistent(c, false);
	for (int i = r.range(1, 3); i > 0; i--) {
		double lr = r.chance(0.1) ? 0 : (double)r.f(0.01, 0.5); int ep = r.chance(0.5) ? 1 : r.range(2, 4); DM w = f.W; DV b = f.b; bool ok = true;
		for (int e = 0; e < ep && ok; e++) ok = f.step(allrows(f.n), lr, w, b);
		if (!ok) { c.count("undetermined_step"); break; }
		c.label("softmax_reg.gradient_descent"); f.s->train_gradient_descent(lr, ep); c.count("training_calls"); c.count("epochs", ep);
		if (!f.at(w, b)) { f.miss(c, w, b); return; }
		f.W = w; f.b = b; f.consistent(c, true); f.tol *= 1.5;
		c.obs(hsh(hsh(hs(REGN[f.g.t]), w.d), b), lr > 0 && f.m > 1);
	}
	c.label("softmax_reg.errors"); c.check("no_error", errors() == e0, "a valid request was refused");
}

// ---- closed forms ----
UNIT("O01", "closed_form.lin_reg", 2500, 80000) {
	Rng &r = c.rng; long e0 = errors(); int k = r.range(1, 3), n = r.range(k + 2, 9);
	DM X(n, k); DV y(n); for (double &v : X.d) v = r.chance(0.3) ? r.range(-3, 3) : (double)r.f(-3, 3); double off = r.chance(0.5) ? (double)r.f(-3, 3) : 0; for (int j = 0; j < k; j++) { double o = r.chance(0.5) ? 0 : (double)r.f(-2, 2); for (int i = 0; i < n; i++) X.at(i, j) = (float)(X.at(i, j) + o); }
	bool exact = r.chance(0.3); DV tw(k); for (double &v : tw) v = r.range(-2, 2);
	for (int i = 0; i < n; i++) { y[i] = exact ? off : (double)r.f(-4, 4); if (exact) for (int j = 0; j < k; j++) y[i] += tw[j] * X.at(i, j); y[i] = (float)y[i]; }
	Reg g; g.t = r.chance(0.4) ? 1 : 0; g.la = r.f(0.1, 3); g.al = 0.5; if (r.chance(0.3)) g.la = 0.5;
	// centred normal equations
	DV mx(k, 0); double my = 0; for (int i = 0; i < n; i++) { for (int j = 0; j < k; j++) mx[j] += X.at(i, j) / n; my += y[i] / n; }
	DM S(k, k), U(k, k); DV t(k, 0);
	for (int i = 0; i < n; i++) for (int a = 0; a < k; a++) { t[a] += (X.at(i, a) - mx[a]) * (y[i] - my); for (int b = 0; b < k; b++) { S.at(a, b) += (X.at(i, a) - mx[a]) * (X.at(i, b) - mx[b]); U.at(a, b) += X.at(i, a) * X.at(i, b); } }
	DV ev; DM ec; sym_eigen(S, ev, ec); if (ev[k - 1] < 0.5 || ev[0] / ev[k - 1] > 60) { c.count("ill_conditioned"); return; }
	sym_eigen(U, ev, ec); if (ev[k - 1] < 0.5) { c.count("ill_conditioned"); return; }
	if (g.t == 1) for (int a = 0; a < k; a++) S.at(a, a) += g.la;
	DV w = mulv(inv_d(S), t); double b = my; for (int j = 0; j < k; j++) b -= w[j] * mx[j];
	RM rx = mkm(X); RV ry = mkv(y); MLPPLinReg m(rx, ry, (RT_)g.t, g.la, g.al);
	c.label("lin_reg.normal_equation"); m.normal_equation();
	double b0 = m.model_test(mkv(DV(k, 0))); bool good = c.eq("bias", b0, b, 1e-3, 2e-3);
	for (int j = 0; j < k; j++) { DV x(k, 0); x[j] = 1; good = c.eq("weight", m.model_test(mkv(x)) - b0, w[j], 1e-3, 2e-3) && good; }
	DV fit(n); for (int i = 0; i < n; i++) { fit[i] = b; for (int j = 0; j < k; j++) fit[i] += w[j] * X.at(i, j); }
	cmpv(c, "fit", m.model_set_test(rx), fit, 1e-3, 6e-3);
	if (good) { int lo = 0, hi = 0; for (int i = 0; i < n; i++) { bool l1 = std::round(fit[i] - 8e-3) == y[i], h1 = std::round(fit[i] + 8e-3) == y[i]; lo += l1 && h1; hi += l1 || h1; } double sc = m.score() * n; c.check("score", sc > lo - 0.01 && sc < hi + 0.01, strf("score*n = %g, expected %d..%d", sc, lo, hi)); }
	samem(c, "input_set_unchanged", rx, X); samev(c, "output_set_unchanged", ry, y);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.obs(hsh(hsh(g.t, X.d), y)); if (r.chance(0.01)) c.sample(strf("n=%d k=%d weights %s bias %g", n, k, str(w).c_str(), b));
}
UNIT("O01", "newton.lin_reg", 1200, 40000) {
	Rng &r = c.rng; Fit f(c, LIN); if (!f.ok || f.n < f.k + 1) return;
	DM U(f.k, f.k); for (int i = 0; i < f.n; i++) for (int a = 0; a < f.k; a++) for (int b = 0; b < f.k; b++) U.at(a, b) += f.X.at(i, a) * f.X.at(i, b);
	DV ev; DM ec; sym_eigen(U, ev, ec); if (ev[f.k - 1] < 0.3 || ev[0] / ev[f.k - 1] > 30) { c.count("ill_conditioned"); return; }
	DM I = inv_d(U); double lr = r.f(0.05, 1); int ep = r.range(1, 3); f.tol = 3e-4;
	P q1 = f.p, q2 = f.p; bool ok = true;
	for (int e = 0; e < ep && ok; e++) for (P *q : { &q1, &q2 }) {
		DV gw, gi; double gb; grad(LIN, *q, f.X, f.y, allrows(f.n), gw, gi, gb); DV d = mulv(I, gw); // (X'X)^-1 X'e / n
		for (int j = 0; j < f.k; j++) q->w[j] -= lr * d[j] * (q == &q2 ? f.n : 1); q->b -= lr * gb; ok = ok && f.g.weights(q->w);
	}
	if (!ok) return;
	c.label("lin_reg.newton_raphson"); f.m->lin->newton_raphson(lr, ep); c.count("training_calls");
	if (f.judge(c, q2, false)) q1 = q2; // the step with the averaged Hessian
	if (!f.judge(c, q1, true)) return;
	f.p = q1; f.consistent(c, true); c.obs(hsh(hsh(ep, q1.w), f.y));
}
UNIT("O01", "closed_form.uni_lin_reg", 2500, 80000) {
	Rng &r = c.rng; int n = r.range(2, 12); DV x(n), y(n); double off = r.chance(0.3) ? (double)r.f(-20, 20) : 0; for (double &v : x) v = (float)(r.f(-5, 5) + off); for (double &v : y) v = r.f(-8, 8);
	if (r.chance(0.3)) { double s = r.f(-3, 3), o = r.f(-5, 5); for (int i = 0; i < n; i++) y[i] = (float)(s * x[i] + o); }
	double mx = 0, my = 0, sxx = 0, sxy = 0; for (int i = 0; i < n; i++) { mx += x[i] / n; my += y[i] / n; } for (int i = 0; i < n; i++) { sxx += (x[i] - mx) * (x[i] - mx); sxy += (x[i] - mx) * (y[i] - my); }
	if (sxx / n < 0.3) { c.count("ill_conditioned"); return; }
	double b1 = sxy / sxx, b0 = my - b1 * mx, tol = 2e-5 * (1 + mx * mx / (sxx / n)) + 1e-5;
	c.label("uni_lin_reg.train"); RV rx = mkv(x), ry = mkv(y); std::unique_ptr<MLPPUniLinReg> m;
	if (r.chance(0.5)) m.reset(new MLPPUniLinReg(rx, ry)); else { m.reset(new MLPPUniLinReg()); m->set_input_set(rx); m->set_output_set(ry); m->train(); }
	double sc = 10 * tol * (1 + std::fabs(b1)); c.eq("b1", m->get_b1(), b1, tol, sc); c.eq("b0", m->get_b0(), b0, tol, sc * (1 + std::fabs(mx)));
	int q = r.range(1, 5); DV t(q), w(q); m->set_b0(r.f(-3, 3)); m->set_b1(r.f(-3, 3)); for (int i = 0; i < q; i++) { t[i] = r.f(-4, 4); w[i] = m->get_b0() + (double)m->get_b1() * t[i]; c.eq("model_test", m->model_test(t[i]), w[i], 1e-5, 1e-5); }
	cmpv(c, "model_set_test", m->model_set_test(mkv(t)), w, 1e-5, 1e-5); samev(c, "input_set_unchanged", rx, x); samev(c, "output_set_unchanged", ry, y);
	m->train(); c.label("uni_lin_reg.retrain"); c.eq("b1", m->get_b1(), b1, tol, sc);
	c.obs(hsh(hsh(1, x), y)); if (r.chance(0.01)) c.sample(strf("n=%d b0=%g b1=%g", n, b0, b1));
}

// ================= O02 =================
static void stochastic(Ctx &c, A a) {
	Rng &r = c.rng; long e0 = errors(); Fit f(c, a); if (!f.ok) { c.count("unrecoverable_start"); return; }
	for (int calls = r.range(1, 4); calls > 0; calls--) {
		double lr = r.chance(0.08) ? 0 : (double)r.f(0.02, a == EXP ? 0.1 : 0.6); int ep = f.n <= 4 && r.chance(0.3) ? 2 : 1;
		std::vector<P> next{ f.p }; bool ok = true;
		for (int e = 0; e < ep; e++) { std::vector<P> nn; for (P &q : next) for (int i = 0; i < f.n; i++) { P t = q; ok = step(a, t, f.X, f.y, { i }, lr, f.g) && ok; nn.push_back(t); } next = nn; }
		if (!ok) { c.count("undetermined_step"); return; }
		c.label(std::string(AN[a]) + ".sgd"); f.m->sgd(lr, ep); c.count("training_calls"); c.count("admissible_next_states", (long)next.size());
		size_t best = 0; double bd = 1e301; for (size_t i = 0; i < next.size(); i++) { double d = f.dist(next[i]); if (d < bd) { bd = d; best = i; } }
		bool hit = f.judge(c, next[best], false); if (hit) { f.p = next[best]; c.obs(hsh(hsh(best, f.p.w), f.y), lr > 0); }
		if (!hit) { RV s = f.m->set(mkm(f.probe)); std::string w; for (size_t i = 0; i < next.size() && i < 8; i++) { DV o; for (int q = 0; q < f.probe.r; q++) o.push_back(pred(a, next[i], rowof(f.probe, q))); w += " " + str(o); } c.fail("step", "predictions " + str(dv(s)) + " match the step of no sample; before " + str(f.before) + " candidates" + w + strf(" reg %s %g %g lr %g", REGN[f.g.t], f.g.la, f.g.al, lr)); return; }
		f.remember(); f.consistent(c, true); f.tol *= 1.6;
	}
	c.label(std::string(AN[a]) + ".errors"); c.check("no_error", errors() == e0, "a valid request was refused");
}
// every sample of the data set is drawn sooner or later
static void covers(Ctx &c, A a) {
	Rng &r = c.rng; int n = r.range(2, 4); c.label(std::string(AN[a]) + ".sgd_coverage"); DM X(n, 1); DV y(n);
	for (int i = 0; i < n; i++) { X.at(i, 0) = 0.5; y[i] = a == LIN || a == EXP ? 4 * i + 3 : a == TANH ? -3 - 2 * i : 2 + 2 * i; } // the step tells the sample: only the targets differ
	std::set<int> seen; Reg none;
	for (int t = 0; t < 100; t++) {
		Model m(a, mkm(X), mkv(y), none, false); P p; if (!m.params(r, p)) continue;
		m.sgd(0.05, 1); double got = m.one(DV{ 0 }); int best = -1; double bd = 1e9;
		for (int i = 0; i < n; i++) { P q = p; if (!step(a, q, X, y, { i }, 0.05, none)) continue; double d = std::fabs(pred(a, q, DV{ 0 }) - got); if (d < bd) { bd = d; best = i; } }
		seen.insert(best);
	}
	c.count("draws_classified", 100); c.check("all_samples", (int)seen.size() == n, strf("only %zu of %d samples were ever used", seen.size(), n)); c.obs(hsh(n, c.case_no));
}
static void minibatch(Ctx &c, A a) {
	Rng &r = c.rng; long e0 = errors(); Fit f(c, a); if (!f.ok) { c.count("unrecoverable_start"); return; }
	for (int calls = r.range(1, 2); calls > 0; calls--) {
		double lr = r.chance(0.08) ? 0 : (double)r.f(0.02, a == EXP ? 0.1 : 0.6); int ep = r.range(1, 2), bs = r.range(1, f.n); P q = f.p; bool ok = true; auto B = batches(f.n, bs);
		for (int e = 0; e < ep && ok; e++) for (auto &b : B) ok = ok && step(a, q, f.X, f.y, b, lr, f.g);
		if (!ok) { c.count("undetermined_step"); return; }
		c.label(std::string(AN[a]) + ".mbgd"); f.m->mbgd(lr, ep, bs); c.count("training_calls"); c.count("batches", (long)B.size() * ep);
		if (!f.judge(c, q, true)) return;
		f.p = q; f.remember(); f.consistent(c, true); f.tol *= 1.7; c.obs(hsh(hsh(hsh(bs, f.p.w), f.y), ep), lr > 0 && B.size() > 1);
	}
	c.label(std::string(AN[a]) + ".errors"); c.check("no_error", errors() == e0, "a valid request was refused");
}
UNIT("O02", "sgd.lin_reg", 1000, 40000) { stochastic(c, LIN); }
UNIT("O02", "sgd.log_reg", 1000, 40000) { stochastic(c, LOG); }
UNIT("O02", "sgd.probit_reg", 1000, 40000) { stochastic(c, PROBIT); }
UNIT("O02", "sgd.tanh_reg", 1000, 40000) { stochastic(c, TANH); }
UNIT("O02", "sgd.c_log_log_reg", 1000, 40000) { stochastic(c, CLL); }
UNIT("O02", "sgd.exp_reg", 1500, 50000) { stochastic(c, EXP); }
UNIT("O02", "sgd_coverage", 12, 120) { covers(c, (A)(c.case_no % 6)); }
UNIT("O02", "mbgd.lin_reg", 1000, 40000) { minibatch(c, LIN); }
UNIT("O02", "mbgd.log_reg", 1000, 40000) { minibatch(c, LOG); }
UNIT("O02", "mbgd.probit_reg", 1000, 40000) { minibatch(c, PROBIT); }
UNIT("O02", "mbgd.tanh_reg", 1000, 40000) { minibatch(c, TANH); }
UNIT("O02", "mbgd.c_log_log_reg", 1000, 40000) { minibatch(c, CLL); }
UNIT("O02", "mbgd.exp_reg", 1500, 50000) { minibatch(c, EXP); }
UNIT("O02", "softmax_reg", 2500, 80000) {
	Rng &r = c.rng; long e0 = errors(); Soft f(c);
	for (int calls = r.range(1, 3); calls > 0; calls--) {
		double lr = r.chance(0.08) ? 0 : (double)r.f(0.02, 0.5);
		if (r.chance(0.5)) {
			std::vector<std::pair<DM, DV>> next; bool ok = true; for (int i = 0; i < f.n; i++) { DM w = f.W; DV b = f.b; ok = f.step({ i }, lr, w, b) && ok; next.push_back({ w, b }); }
			if (!ok) { c.count("undetermined_step"); break; }
			c.label("softmax_reg.sgd"); f.s->train_sgd(lr, 1); bool hit = false; double bd = 1e300;
			for (auto &q : next) if (f.at(q.first, q.second)) { DM gw = dm(f.s->data_weights_get()); DV gb = dv(f.s->data_bias_get()); double d = 0; for (size_t i = 0; i < gw.d.size(); i++) d = std::max(d, std::fabs(gw.d[i] - q.first.d[i])); for (int j = 0; j < f.m; j++) d = std::max(d, std::fabs(gb[j] - q.second[j])); if (d < bd) { bd = d; f.W = q.first; f.b = q.second; hit = true; } }
			if (!hit) { f.miss(c, next[0].first, next[0].second); return; }
		} else {
			int bs = r.range(1, f.n), ep = r.range(1, 2); DM w = f.W; DV b = f.b; bool ok = true; for (int e = 0; e < ep; e++) for (auto &q : batches(f.n, bs)) ok = ok && f.step(q, lr, w, b);
			if (!ok) { c.count("undetermined_step"); break; }
			c.label("softmax_reg.mbgd"); f.s->train_mbgd(lr, ep, bs); if (!f.at(w, b)) { f.miss(c, w, b); return; } f.W = w; f.b = b;
		}
		c.count("training_calls"); f.consistent(c, true); f.tol *= 1.5; c.obs(hsh(hsh(hs(REGN[f.g.t]), f.W.d), f.b), lr > 0 && f.m > 1);
	}
	c.label("softmax_reg.errors"); c.check("no_error", errors() == e0, "a valid request was refused");
}
// adaptive optimisers of linear regression
UNIT("O02", "optimizers.lin_reg", 5000, 200000) {
	Rng &r = c.rng; long e0 = errors(); static const char *ON[] = { "momentum", "adagrad", "adadelta", "adam", "adamax", "nag", "nadam" };
	int o = r.range(0, 6); Fit f(c, LIN, false); if (!f.ok) return;
	double lr = r.f(0.02, 0.4), b1 = r.f(0.1, 0.95), b2 = r.f(0.1, 0.99), e = r.chance(0.5) ? (double)r.f(0.01, 0.5) : 1e-6f; int ep = r.range(1, 3), bs = r.range(1, f.n);
	auto B = batches(f.n, bs); std::vector<P> cand; bool ok = true; double gsum = 0;
	for (int variant = 0; variant < (o >= 5 ? 2 : 1); variant++) {
		P q = f.p; DV v(f.k, 0), m(f.k, 0);
		for (int t = 1; t <= ep && ok; t++) for (auto &rows : B) {
			DV look = q.w; if (o == 5) for (int j = 0; j < f.k; j++) look[j] -= b1 * v[j];
			P at = q; at.w = look; DV gw, gi, rd; double gb; grad(LIN, at, f.X, f.y, rows, gw, gi, gb); ok = f.g.deriv(look, rd) && ok;
			for (int j = 0; j < f.k; j++) {
				double g = gw[j] + rd[j]; gsum += std::fabs(g); if (std::fabs(g) < 3e-3 && e < 0.01 && o) ok = false;
				switch (o) {
					case 0: v[j] = b1 * v[j] + lr * g; q.w[j] -= v[j]; break;
					case 1: v[j] += g * g; q.w[j] -= lr * g / std::sqrt(v[j] + e); break;
					case 2: v[j] = b1 * v[j] + (1 - b1) * g * g; q.w[j] -= lr * g / std::sqrt(v[j] + e); break;
					case 3: m[j] = b1 * m[j] + (1 - b1) * g; v[j] = b2 * v[j] + (1 - b2) * g * g; q.w[j] -= lr * m[j] / (1 - std::pow(b1, t)) / (std::sqrt(v[j] / (1 - std::pow(b2, t))) + e); break;
					case 4: if (std::fabs(g) < 3e-3) ok = false; m[j] = b1 * m[j] + (1 - b1) * g; v[j] = std::max(b2 * v[j], std::fabs(g)); q.w[j] -= lr * m[j] / (1 - std::pow(b1, t)) / v[j]; break;
					case 5: v[j] = b1 * v[j] + lr * g; q.w[j] = (variant ? look[j] : q.w[j]) - v[j]; break; // the look-ahead kept in the weights is accepted as well
					case 6: { double c1 = 1 - std::pow(b1, t); m[j] = b1 * m[j] + (1 - b1) * g; v[j] = b2 * v[j] + (1 - b2) * g * g; double mf = b1 * m[j] / (variant ? 1 : c1) + (1 - b1) * g / c1; q.w[j] -= lr * mf / (std::sqrt(v[j] / (1 - std::pow(b2, t))) + e); break; }
				}
				if (!(std::fabs(q.w[j]) < 20)) ok = false;
			}
			q.b -= lr * gb; if (!(std::fabs(q.b) < 20)) ok = false;
		}
		cand.push_back(q);
	}
	if (!ok) { c.count("undetermined_step"); return; }
	c.label(std::string("lin_reg.") + ON[o]); MLPPLinReg &l = *f.m->lin; f.tol = 4e-4;
	switch (o) { case 0: l.momentum(lr, ep, bs, b1); break; case 1: l.adagrad(lr, ep, bs, e); break; case 2: l.adadelta(lr, ep, bs, b1, e); break; case 3: l.adam(lr, ep, bs, b1, b2, e); break; case 4: l.adamax(lr, ep, bs, b1, b2, e); break; case 5: l.nag(lr, ep, bs, b1); break; case 6: l.nadam(lr, ep, bs, b1, b2, e); break; }
	c.count("training_calls"); c.count("batches", (long)B.size() * ep); c.count(ON[o]);
	if (cand.size() > 1 && f.judge(c, cand[1], false)) cand[0] = cand[1];
	if (!f.judge(c, cand[0], true)) return;
	f.p = cand[0]; f.consistent(c, true); c.check("no_error", errors() == e0, "a valid request was refused");
	c.obs(hsh(hsh(hsh(o * 10 + ep, f.p.w), f.y), bs), gsum > 1e-2); if (r.chance(0.005)) c.sample(strf("%s n=%d k=%d batch=%d epochs=%d weights %s", ON[o], f.n, f.k, bs, ep, str(f.p.w).c_str()));
}
