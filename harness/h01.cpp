// H01 / H02: layers and networks against a double-precision network: forward passes and back-propagated steps.
#include "vh.h"
#include <memory>
#include "modules/ann/ann.h"
#include "modules/auto_encoder/auto_encoder.h"
#include "modules/gan/gan.h"
#include "modules/hidden_layer/hidden_layer.h"
#include "modules/mann/mann.h"
#include "modules/mlp/mlp.h"
#include "modules/multi_output_layer/multi_output_layer.h"
#include "modules/output_layer/output_layer.h"
#include "modules/softmax_net/softmax_net.h"
#include "modules/wgan/wgan.h"
// names of their own, so that several harness files can be linked together (Z01)
#define Reg Reg_h01
typedef MLPPActivation AC;
typedef AC::ActivationFunction AF;
typedef MLPPCost CO;
typedef MLPPReg::RegularizationType RT_;
typedef MLPPUtilities::WeightDistributionType WD;
typedef std::vector<int> VI;
static const char *REGN[] = { "none", "ridge", "lasso", "elastic_net", "clip" };
static const double PI = 3.14159265358979323846;
static double sgm(double z) { return 1 / (1 + std::exp(-z)); }
static double spl(double z) { return z > 0 ? z + std::log1p(std::exp(-z)) : std::log1p(std::exp(z)); }
static double sq(double x) { return x * x; }
static double sech(double z) { return 1 / std::cosh(z); }
static bool is_softmax(int a) { return a == AC::ACTIVATION_FUNCTION_SOFTMAX || a == AC::ACTIVATION_FUNCTION_ADJ_SOFTMAX; }
#define F_(x) case AC::ACTIVATION_FUNCTION_##x: return
static double actf(int a, double z) {
	switch (a) {
		F_(LINEAR) z; F_(SIGMOID) sgm(z); F_(SWISH) z * sgm(z); F_(MISH) z * std::tanh(spl(z)); F_(SOFTPLUS) spl(z); F_(SOFTSIGN) z / (1 + std::fabs(z));
		F_(C_LOG_LOG) -std::expm1(-std::exp(z)); F_(GAUSSIAN_CDF) 0.5 * std::erfc(-z / std::sqrt(2.0)); F_(RELU) z > 0 ? z : 0;
		F_(GELU) 0.5 * z * (1 + std::tanh(std::sqrt(2 / PI) * (z + 0.044715 * z * z * z))); F_(SIGN) z > 0 ? 1 : z < 0 ? -1 : 0; F_(UNIT_STEP) z < 0 ? 0 : 1;
		F_(SINH) std::sinh(z); F_(COSH) std::cosh(z); F_(TANH) std::tanh(z); F_(SECH) sech(z); F_(ARSINH) std::asinh(z);
	}
	abort();
}
static double actg(int a, double z) {
	switch (a) {
		F_(LINEAR) 1; F_(SIGMOID) sgm(z) * sgm(-z); F_(SWISH) sgm(z) + z * sgm(z) * sgm(-z); F_(MISH) std::tanh(spl(z)) + z * sq(sech(spl(z))) * sgm(z); F_(SOFTPLUS) sgm(z); F_(SOFTSIGN) 1 / sq(1 + std::fabs(z));
		F_(C_LOG_LOG) std::exp(z - std::exp(z)); F_(GAUSSIAN_CDF) std::exp(-z * z / 2) / std::sqrt(2 * PI); F_(RELU) z > 0 ? 1 : 0;
		F_(GELU) 0.5 * (1 + std::tanh(std::sqrt(2 / PI) * (z + 0.044715 * z * z * z))) + 0.5 * z * sq(sech(std::sqrt(2 / PI) * (z + 0.044715 * z * z * z))) * std::sqrt(2 / PI) * (1 + 3 * 0.044715 * z * z);
		F_(SINH) std::cosh(z); F_(COSH) std::sinh(z); F_(TANH) sq(sech(z)); F_(SECH) -sech(z) * std::tanh(z); F_(ARSINH) 1 / std::sqrt(z * z + 1);
	}
	abort();
}
static const std::vector<int> TRAIN = { AC::ACTIVATION_FUNCTION_LINEAR, AC::ACTIVATION_FUNCTION_SIGMOID, AC::ACTIVATION_FUNCTION_SWISH, AC::ACTIVATION_FUNCTION_MISH, AC::ACTIVATION_FUNCTION_SOFTPLUS, AC::ACTIVATION_FUNCTION_SOFTSIGN, AC::ACTIVATION_FUNCTION_C_LOG_LOG, AC::ACTIVATION_FUNCTION_GAUSSIAN_CDF, AC::ACTIVATION_FUNCTION_RELU, AC::ACTIVATION_FUNCTION_GELU, AC::ACTIVATION_FUNCTION_SINH, AC::ACTIVATION_FUNCTION_COSH, AC::ACTIVATION_FUNCTION_TANH, AC::ACTIVATION_FUNCTION_SECH, AC::ACTIVATION_FUNCTION_ARSINH };
static bool kink(int a, double z) { return (a == AC::ACTIVATION_FUNCTION_RELU || a == AC::ACTIVATION_FUNCTION_SIGN || a == AC::ACTIVATION_FUNCTION_UNIT_STEP) && std::fabs(z) < 2e-3; }

struct Reg {
	int t = 0; double la = 0, al = 0;
	bool weights(DV &w) const {
		for (double &v : w) {
			if ((t == 2 || t == 3) && std::fabs(v) < 3e-4) return false;
			double s = v > 0 ? 1 : -1;
			if (t == 1) v -= la * v; else if (t == 2) v -= la * s; else if (t == 3) v -= la * (al * s + (1 - al) * v); else if (t == 4) v = std::min(std::max(v, la), al);
		}
		return true;
	}
	bool deriv(const DV &w, DV &d) const {
		d.assign(w.size(), 0);
		for (size_t i = 0; i < w.size(); i++) {
			double v = w[i], s = v > 0 ? 1 : -1;
			if ((t == 2 || t == 3) && std::fabs(v) < 3e-4) return false;
			if (t == 1) d[i] = la * v; else if (t == 2) d[i] = la * s; else if (t == 3) d[i] = la * (al * s + (1 - al) * v);
		}
		return true;
	}
};
static Reg greg(Rng &r, bool clip) {
	Reg g; g.t = r.chance(0.45) ? 0 : r.range(1, clip ? 4 : 3); g.la = r.f(0.01, 0.4); g.al = r.chance(0.2) ? 0.5 : r.f(0, 1);
	if (g.t == 4) { g.la = r.f(-0.6, 0.2); g.al = g.la + r.f(0.2, 0.9); g.al = (float)g.al; }
	return g;
}
static DV rowof(const DM &m, int i) { DV o(m.co); for (int j = 0; j < m.co; j++) o[j] = m.at(i, j); return o; }
static DM rowsof(const DM &m, const VI &rows) { DM o((int)rows.size(), m.co); for (size_t i = 0; i < rows.size(); i++) for (int j = 0; j < m.co; j++) o.at(i, j) = m.at(rows[i], j); return o; }
static VI allrows(int n) { VI o; for (int i = 0; i < n; i++) o.push_back(i); return o; }
static std::vector<VI> batches(int n, int bs) {
	int nb = n / bs, per = n / nb; std::vector<VI> o;
	for (int i = 0; i < nb; i++) { VI b; for (int j = per * i; j < (i == nb - 1 ? n : per * (i + 1)); j++) b.push_back(j); o.push_back(b); }
	return o;
}

struct Ly { int act = 0; DM W; DV b; Reg g; };
struct Nt { std::vector<Ly> l; int cost = 0; bool direct = true; /* the error of the output is y_hat - y */ };
struct Fw { std::vector<DM> in, z; DM out; };
static DM layer_out(int act, const DM &z) {
	DM a = z;
	if (is_softmax(act)) { for (int i = 0; i < z.r; i++) { double mx = -1e300, t = 0; for (int j = 0; j < z.co; j++) mx = std::max(mx, z.at(i, j)); for (int j = 0; j < z.co; j++) t += std::exp(z.at(i, j) - mx); for (int j = 0; j < z.co; j++) a.at(i, j) = std::exp(z.at(i, j) - mx) / t; } }
	else for (double &v : a.d) v = actf(act, v);
	return a;
}
static DM zmat(const DM &x, const Ly &l) { DM z = mul(x, l.W); for (int i = 0; i < z.r; i++) for (int j = 0; j < z.co; j++) z.at(i, j) += l.b[j]; return z; }
// layers [from, to); false where a value is beyond the explored range or next to a jump
static bool forward(const Nt &n, DM x, Fw &f, size_t from = 0, size_t to = (size_t)-1) {
	f = Fw();
	for (size_t i = from; i < std::min(to, n.l.size()); i++) {
		f.in.push_back(x); DM z = zmat(x, n.l[i]); f.z.push_back(z);
		for (double v : z.d) if (!(std::fabs(v) < 6) || kink(n.l[i].act, v)) return false;
		x = layer_out(n.l[i].act, z);
	}
	f.out = x; return true;
}
static bool cost_deriv(int cost, double h, double y, double &d) {
	switch (cost) {
		case CO::COST_TYPE_MSE: d = h - y; return true;
		case CO::COST_TYPE_MAE: d = h > y ? 1 : -1; return std::fabs(h - y) > 2e-3;
		case CO::COST_TYPE_MBE: d = 1; return true;
		case CO::COST_TYPE_LOGISTIC_LOSS: d = -y / h + (1 - y) / (1 - h); return h > 0.03 && h < 0.97;
		case CO::COST_TYPE_CROSS_ENTROPY: d = -y / h; return h > 0.05;
		case CO::COST_TYPE_HINGE_LOSS: d = 1 - y * h > 0 ? -y : 0; return std::fabs(1 - y * h) > 2e-3;
		case CO::COST_TYPE_WASSERSTEIN_LOSS: d = -y; return true;
	}
	abort();
}
struct Gr { std::vector<DM> W; std::vector<DV> b; };
// gradients of the summed cost for every layer in [from, ...); f must come from layers [from, ...)
static bool backward(const Nt &n, const Fw &f, const DM &Y, Gr &g, size_t from = 0) {
	size_t L = n.l.size(); g.W.assign(L, DM()); g.b.assign(L, DV()); DM delta = f.out;
	for (size_t i = 0; i < delta.d.size(); i++) {
		if (n.direct) delta.d[i] = f.out.d[i] - Y.d[i];
		else { double d; if (!cost_deriv(n.cost, f.out.d[i], Y.d[i], d)) return false; delta.d[i] = d * actg(n.l[L - 1].act, f.z[L - 1 - from].d[i]); }
	}
	for (size_t i = L; i-- > from;) {
		g.W[i] = mul(tr(f.in[i - from]), delta); g.b[i].assign(delta.co, 0);
		for (int r = 0; r < delta.r; r++) for (int j = 0; j < delta.co; j++) g.b[i][j] += delta.at(r, j);
		if (i > from) { DM d = mul(delta, tr(n.l[i].W)); for (size_t q = 0; q < d.d.size(); q++) d.d[q] *= actg(n.l[i - 1].act, f.z[i - 1 - from].d[q]); delta = d; }
	}
	for (size_t i = from; i < L; i++) for (double v : g.W[i].d) if (!(std::fabs(v) < 60)) return false;
	return true;
}
static bool sane(const Nt &n) { for (auto &l : n.l) { for (double v : l.W.d) if (!(std::fabs(v) < 15)) return false; for (double v : l.b) if (!(std::fabs(v) < 15)) return false; } return true; }
// one plain step: weights by lr * scale * gradient, then the penalty step
static bool plain_step(Nt &n, const DM &X, const DM &Y, double lr, bool mean) {
	Fw f; Gr g; if (!forward(n, X, f) || !backward(n, f, Y, g)) return false;
	double s = mean ? lr / X.r : lr;
	for (size_t i = 0; i < n.l.size(); i++) {
		for (size_t q = 0; q < n.l[i].W.d.size(); q++) n.l[i].W.d[q] -= s * g.W[i].d[q];
		for (size_t q = 0; q < n.l[i].b.size(); q++) n.l[i].b[q] -= s * g.b[i][q];
		if (!n.l[i].g.weights(n.l[i].W.d)) return false;
	}
	return sane(n);
}

// ---- access to the parameters of the real models ----
struct XMlp : MLPPMLP { using MLPPMLP::MLPPMLP; RM &w1() { return _weights1; } RV &w2() { return _weights2; } RV &b1() { return _bias1; } real_t &b2() { return _bias2; } };
struct XAe : MLPPAutoEncoder { using MLPPAutoEncoder::MLPPAutoEncoder; RM &w1() { return _weights1; } RM &w2() { return _weights2; } RV &b1() { return _bias1; } RV &b2() { return _bias2; } };
struct XAnn : MLPPANN { using MLPPANN::MLPPANN; Ref<MLPPHiddenLayer> h(int i) { return _network[i]; } int nh() { return _network.size(); } Ref<MLPPOutputLayer> o() { return _output_layer; } };
struct XGan : MLPPGAN { using MLPPGAN::MLPPGAN; Ref<MLPPHiddenLayer> h(int i) { return _network[i]; } int nh() { return _network.size(); } Ref<MLPPOutputLayer> o() { return _output_layer; } };
struct XWgan : MLPPWGAN { using MLPPWGAN::MLPPWGAN; Ref<MLPPHiddenLayer> h(int i) { return _network[i]; } int nh() { return _network.size(); } Ref<MLPPOutputLayer> o() { return _output_layer; } };
static DM colm(const DV &v) { DM m((int)v.size(), 1); m.d = v; return m; }
static Reg regof(int t, double la, double al) { Reg g; g.t = t; g.la = la; g.al = al; return g; }
static Ly hidden_of(Ref<MLPPHiddenLayer> h) { Ly l; l.act = h->get_activation(); l.W = dm(h->get_weights()); l.b = dv(h->get_bias()); l.g = regof(h->get_reg(), h->get_lambda(), h->get_alpha()); return l; }
static Ly output_of(Ref<MLPPOutputLayer> o) { Ly l; l.act = o->get_activation(); l.W = colm(dv(o->get_weights())); l.b = DV{ o->get_bias() }; l.g = regof(o->get_reg(), o->get_lambda(), o->get_alpha()); return l; }
static DV rnd(Rng &r, size_t n, double s) { DV o(n); for (double &v : o) v = r.f(-s, s); return o; }

enum K { MLP, SOFT, AE, ANN, MANN };
static const char *KN[] = { "mlp", "softmax_net", "auto_encoder", "ann", "mann" };
struct Sched { int type = 0; double d = 0, drop = 1; };
struct Any {
	Sched sched;
	K k; int n, in, out; DM X, Y; RM rx, ry; RV rv; Reg g; double tol = 3e-5;
	std::unique_ptr<XMlp> mlp; std::unique_ptr<MLPPSoftmaxNet> soft; std::unique_ptr<XAe> ae; std::unique_ptr<XAnn> ann; std::unique_ptr<MLPPMANN> mann;
	std::vector<Reg> regs; std::vector<int> acts; int cost = CO::COST_TYPE_MSE;
	bool scalar() const { return k == MLP || k == ANN; }
	Any(Ctx &c, K kk, bool training) : k(kk) {
		Rng &r = c.rng; n = r.range(1, 6); in = r.range(1, 4); out = k == AE ? in : scalar() ? 1 : r.range(1, 3); int hid = r.range(1, 4);
		c.label(std::string(KN[k]) + ".create");
		X = DM(n, in); X.d = rnd(r, X.d.size(), 1.3); Y = DM(n, out); g = greg(r, k != ANN);
		bool sum1 = k == SOFT;
		if (k == ANN || k == MANN) {
			int L = r.chance(0.1) ? 0 : r.range(1, 3);
			for (int i = 0; i <= L; i++) {
				int a = r.pick(TRAIN);
				if (i < L && !training && r.chance(0.1)) a = r.chance(0.5) ? AC::ACTIVATION_FUNCTION_SOFTMAX : AC::ACTIVATION_FUNCTION_ADJ_SOFTMAX;
				if (!training && r.chance(0.1)) a = r.chance(0.5) ? AC::ACTIVATION_FUNCTION_SIGN : AC::ACTIVATION_FUNCTION_UNIT_STEP;
				if (i == L) {
					static const std::vector<int> CS = { CO::COST_TYPE_MSE, CO::COST_TYPE_MSE, CO::COST_TYPE_MAE, CO::COST_TYPE_MBE, CO::COST_TYPE_LOGISTIC_LOSS, CO::COST_TYPE_CROSS_ENTROPY, CO::COST_TYPE_HINGE_LOSS, CO::COST_TYPE_WASSERSTEIN_LOSS };
					cost = r.pick(CS);
					static const std::vector<int> P01 = { AC::ACTIVATION_FUNCTION_SIGMOID, AC::ACTIVATION_FUNCTION_GAUSSIAN_CDF, AC::ACTIVATION_FUNCTION_C_LOG_LOG };
					if (cost == CO::COST_TYPE_LOGISTIC_LOSS) a = r.pick(P01); else if (cost == CO::COST_TYPE_CROSS_ENTROPY) a = r.chance(0.3) ? (int)AC::ACTIVATION_FUNCTION_SOFTPLUS : r.pick(P01);
					if (k == MANN && r.chance(0.25)) { cost = CO::COST_TYPE_CROSS_ENTROPY; a = AC::ACTIVATION_FUNCTION_SOFTMAX; sum1 = true; }
				}
				acts.push_back(a); regs.push_back(greg(r, false));
			}
		}
		bool unit = cost == CO::COST_TYPE_LOGISTIC_LOSS || cost == CO::COST_TYPE_CROSS_ENTROPY || k == MLP;
		for (double &v : Y.d) v = unit ? r.range(0, 1) : cost == CO::COST_TYPE_HINGE_LOSS || cost == CO::COST_TYPE_WASSERSTEIN_LOSS ? r.range(0, 1) * 2 - 1 : r.chance(0.5) ? r.range(-1, 2) : (double)r.f(-1.5, 1.5);
		if (sum1) { std::fill(Y.d.begin(), Y.d.end(), 0.0); for (int i = 0; i < n; i++) Y.at(i, r.range(0, out - 1)) = 1; }
		if (k == AE) Y = X;
		rx = mkm(X); if (scalar()) rv = mkv(Y.d); else ry = mkm(Y);
		RT_ t = (RT_)g.t;
		switch (k) {
			case MLP:
				if (r.chance(0.3)) { mlp.reset(new XMlp()); mlp->set_input_set(rx); mlp->set_output_set(rv); mlp->set_n_hidden(hid); mlp->set_reg(t); mlp->set_lambda(g.la); mlp->set_alpha(g.al); c.check("not_ready", !mlp->is_initialized(), "claims to be initialised"); mlp->initialize(); c.check("ready", mlp->is_initialized(), "not initialised"); }
				else mlp.reset(new XMlp(rx, rv, hid, t, g.la, g.al));
				break;
			case SOFT:
				if (r.chance(0.3)) { soft.reset(new MLPPSoftmaxNet()); soft->set_input_set(rx); soft->set_output_set(ry); soft->set_n_hidden(hid); soft->set_reg(t); soft->set_lambda(g.la); soft->set_alpha(g.al); c.check("needs_init", soft->needs_init(), "claims to be initialised"); soft->initialize(); c.check("ready", !soft->needs_init(), "not initialised"); }
				else soft.reset(new MLPPSoftmaxNet(rx, ry, hid, t, g.la, g.al));
				break;
			case AE: g = Reg(); ae.reset(new XAe(rx, hid)); break;
			case ANN:
				ann.reset(new XAnn(rx, rv));
				for (size_t i = 0; i + 1 < acts.size(); i++) ann->add_layer(r.range(1, 4), (AF)acts[i], (WD)r.range(0, 7), (RT_)regs[i].t, regs[i].la, regs[i].al);
				ann->add_output_layer((AF)acts.back(), (CO::CostTypes)cost, (WD)r.range(0, 7), (RT_)regs.back().t, regs.back().la, regs.back().al);
				break;
			case MANN:
				mann.reset(new MLPPMANN(rx, ry));
				for (size_t i = 0; i + 1 < acts.size(); i++) mann->add_layer(r.range(1, 4), (AF)acts[i], (WD)r.range(0, 7), (RT_)regs[i].t, regs[i].la, regs[i].al);
				mann->add_output_layer((AF)acts.back(), (CO::CostTypes)cost, (WD)r.range(0, 7), (RT_)regs.back().t, regs.back().la, regs.back().al);
				break;
		}
		if (r.chance(0.75)) place(r);
	}
	void place(Rng &r) {
		auto pm = [&](RM w) { w->set_from_mlpp_matrix(mkm([&] { DM m(w->size().y, w->size().x); m.d = rnd(r, m.d.size(), 0.9); return m; }())); };
		auto pv = [&](RV w) { w->set_from_mlpp_vector(mkv(rnd(r, w->size(), 0.9))); };
		switch (k) {
			case MLP: pm(mlp->w1()); pv(mlp->w2()); pv(mlp->b1()); mlp->b2() = r.f(-1, 1); break;
			case SOFT: pm(soft->data_weights1_get()); pm(soft->data_weights2_get()); pv(soft->data_bias1_get()); pv(soft->data_bias2_get()); break;
			case AE: pm(ae->w1()); pm(ae->w2()); pv(ae->b1()); pv(ae->b2()); break;
			case ANN: for (int i = 0; i < ann->nh(); i++) { pm(ann->h(i)->get_weights()); pv(ann->h(i)->get_bias()); } pv(ann->o()->get_weights()); ann->o()->set_bias(r.f(-1, 1)); break;
			case MANN: { auto h = mann->vp_network(); for (int i = 0; i < h.size(); i++) { Ref<MLPPHiddenLayer> x = h[i]; pm(x->get_weights()); pv(x->get_bias()); } Ref<MLPPMultiOutputLayer> o = mann->vp_output_layer(); pm(o->get_weights()); pv(o->get_bias()); } break;
		}
	}
	Nt read() {
		Nt q; q.l.resize(2);
		switch (k) {
			case MLP: q.l[0] = { (int)AC::ACTIVATION_FUNCTION_SIGMOID, dm(mlp->w1()), dv(mlp->b1()), g }; q.l[1] = { (int)AC::ACTIVATION_FUNCTION_SIGMOID, colm(dv(mlp->w2())), DV{ mlp->b2() }, g }; break;
			case SOFT: q.l[0] = { (int)AC::ACTIVATION_FUNCTION_SIGMOID, dm(soft->data_weights1_get()), dv(soft->data_bias1_get()), g }; q.l[1] = { (int)AC::ACTIVATION_FUNCTION_SOFTMAX, dm(soft->data_weights2_get()), dv(soft->data_bias2_get()), g }; break;
			case AE: q.l[0] = { (int)AC::ACTIVATION_FUNCTION_SIGMOID, dm(ae->w1()), dv(ae->b1()), Reg() }; q.l[1] = { (int)AC::ACTIVATION_FUNCTION_LINEAR, dm(ae->w2()), dv(ae->b2()), Reg() }; break;
			case ANN: q.l.clear(); for (int i = 0; i < ann->nh(); i++) q.l.push_back(hidden_of(ann->h(i))); q.l.push_back(output_of(ann->o())); q.cost = cost; q.direct = false; break;
			case MANN: { q.l.clear(); auto h = mann->vp_network(); for (int i = 0; i < h.size(); i++) q.l.push_back(hidden_of(h[i])); Ref<MLPPMultiOutputLayer> o = mann->vp_output_layer(); Ly l; l.act = o->get_activation(); l.W = dm(o->get_weights()); l.b = dv(o->get_bias()); l.g = regof(o->get_reg(), o->get_lambda(), o->get_alpha()); q.l.push_back(l); q.cost = cost; q.direct = is_softmax(l.act); } break;
		}
		return q;
	}
	DM set(RM x, RM *keepm = nullptr, RV *keepv = nullptr) {
		if (scalar()) { RV v = k == MLP ? mlp->model_set_test(x) : ann->model_set_test(x); if (keepv) *keepv = v; return v.is_valid() ? colm(dv(v)) : DM(); }
		RM m = k == SOFT ? soft->model_set_test(x) : k == AE ? ae->model_set_test(x) : mann->model_set_test(x); if (keepm) *keepm = m; return m.is_valid() ? dm(m) : DM();
	}
	DV one(const DV &x) {
		RV v = mkv(x);
		switch (k) { case MLP: return DV{ mlp->model_test(v) }; case ANN: return DV{ ann->model_test(v) }; case SOFT: v = soft->model_test(v); break; case AE: v = ae->model_test(v); break; default: v = mann->model_test(v); }
		return v.is_valid() ? dv(v) : DV();
	}
	double score() { switch (k) { case MLP: return mlp->score(); case SOFT: return soft->score(); case AE: return ae->score(); case ANN: return ann->score(); default: return mann->score(); } }
	bool shape_ok(const Nt &q) { int w = in; for (auto &l : q.l) { if (l.W.r != w || l.W.co != (int)l.b.size()) return false; w = l.W.co; } return w == out; }
	// predictions and score of the current parameters q
	bool predicts(Ctx &c, const Nt &q, bool reread) {
		Rng &r = c.rng; bool any = false;
		auto cmp = [&](const char *what, const DM &got, const DM &want, double t) {
			bool good = got.r == want.r && got.co == want.co; for (size_t i = 0; good && i < want.d.size(); i++) good = close(got.d[i], want.d[i], t, t);
			return c.check(what, good, strf("got %s expected %s", str(got).c_str(), str(want).c_str()));
		};
		double t = 1.5 * tol;
		for (int rep = 0; rep < 2; rep++) {
			DM Q(r.range(1, 5), in); Q.d = rnd(r, Q.d.size(), 1.6); Fw f; if (!forward(q, Q, f)) { c.count("out_of_range_inputs"); continue; }
			RM rq = mkm(Q), km; RV kv; c.label(std::string(KN[k]) + ".model_set_test"); DM first = set(rq, &km, &kv); if (!cmp("prediction", first, f.out, t)) return false;
			samem(c, "query_unchanged", rq, Q);
			int i = r.range(0, Q.r - 1); DM o(1, out); c.label(std::string(KN[k]) + ".model_test"); DV ov = one(rowof(Q, i)); if (!c.check("shape", (int)ov.size() == out, "wrong output width")) return false;
			o.d = ov; DM w(1, out); w.d = rowof(f.out, i); if (!cmp("prediction", o, w, t)) return false;
			c.label(std::string(KN[k]) + ".repeat"); DM again = set(rq); if (!cmp("repeatable", again, first, 0)) return false;
			DM kept = scalar() ? colm(dv(kv)) : dm(km); if (!cmp("earlier_result_kept", kept, first, 0)) return false;
			any = true; c.count("predictions_judged", 2 + Q.r);
		}
		Fw f;
		if (forward(q, X, f) && r.chance(0.7)) {
			c.label(std::string(KN[k]) + ".score"); int lo = 0, hi = 0; for (int a = 0; a < n; a++) { bool l = true, h = true; for (int j = 0; j < out; j++) { double v = f.out.at(a, j), e = 4 * t * (1 + std::fabs(v)); bool l1 = std::fabs(std::round(v - e) - Y.at(a, j)) < 1e-6, h1 = std::fabs(std::round(v + e) - Y.at(a, j)) < 1e-6, d = std::fabs(std::round(v - e) - Y.at(a, j)) < 1e-3 || std::fabs(std::round(v + e) - Y.at(a, j)) < 1e-3; l = l && l1 && h1; h = h && (l1 || h1 || d); } lo += l; hi += h; }
			double sc = score() * n; if (!c.check("score", sc > lo - 0.01 && sc < hi + 0.01, strf("score*n = %g, expected %d..%d", sc, lo, hi))) return false; c.count("scores_judged");
		}
		if (reread) { c.label(std::string(KN[k]) + ".predict"); Nt a = read(); bool same = a.l.size() == q.l.size(); for (size_t i = 0; same && i < q.l.size(); i++) same = a.l[i].W.d == q.l[i].W.d && a.l[i].b == q.l[i].b; if (!c.check("parameters_unchanged", same, "a prediction changed the parameters")) return false; }
		samem(c, "input_set_unchanged", rx, X); if (scalar()) samev(c, "output_set_unchanged", rv, Y.d); else samem(c, "output_set_unchanged", ry, Y);
		return any;
	}
	std::string diff(const Nt &q, const Nt &want, const Nt &before, double tol_) {
		if (q.l.size() != want.l.size()) return "layer count changed";
		for (size_t i = 0; i < q.l.size(); i++) {
			if (q.l[i].W.d.size() != want.l[i].W.d.size() || q.l[i].b.size() != want.l[i].b.size()) return strf("layer %zu changed shape", i);
			for (size_t j = 0; j < q.l[i].W.d.size(); j++) if (!close(q.l[i].W.d[j], want.l[i].W.d[j], tol_, tol_)) return strf("layer %zu weight %zu is %.8g, expected %.8g, before %.8g", i, j, q.l[i].W.d[j], want.l[i].W.d[j], before.l[i].W.d[j]);
			for (size_t j = 0; j < q.l[i].b.size(); j++) if (!close(q.l[i].b[j], want.l[i].b[j], tol_, tol_)) return strf("layer %zu bias %zu is %.8g, expected %.8g, before %.8g", i, j, q.l[i].b[j], want.l[i].b[j], before.l[i].b[j]);
		}
		return "";
	}
	std::string desc() { std::string s = strf("n=%d in=%d out=%d cost=%d acts", n, in, out, cost); Nt q = read(); for (auto &l : q.l) s += strf(" %d(%dx%d %s %g %g)", l.act, l.W.r, l.W.co, REGN[l.g.t], l.g.la, l.g.al); return s; }
};
static double dist(const Nt &a, const Nt &b) { double d = 0; for (size_t i = 0; i < a.l.size(); i++) { for (size_t j = 0; j < a.l[i].W.d.size(); j++) d = std::max(d, std::fabs(a.l[i].W.d[j] - b.l[i].W.d[j])); for (size_t j = 0; j < a.l[i].b.size(); j++) d = std::max(d, std::fabs(a.l[i].b[j] - b.l[i].b[j])); } return d; }
static uint64_t hn(const Nt &q) { uint64_t h = 7; for (auto &l : q.l) { h = hsh(hsh(h, l.W.d), l.b); h = hsh(h, (uint64_t)l.act * 8 + l.g.t); } return h; }

static void predict_history(Ctx &c, K k) {
	Rng &r = c.rng; long e0 = errors(); Any m(c, k, false); Nt q = m.read();
	if (!c.check("shapes", m.shape_ok(q), "parameter shapes do not chain: " + m.desc())) return;
	bool any = false;
	for (int i = r.range(1, 3); i > 0; i--) {
		if (i > 1 && r.chance(0.5)) { m.place(r); q = m.read(); }
		any = m.predicts(c, q, true) || any;
	}
	c.label(std::string(KN[k]) + ".errors"); c.check("no_error", errors() == e0, "a valid request was refused");
	c.obs(hn(q), any); if (r.chance(0.01)) c.sample(m.desc());
}
UNIT("H01", "net.mlp", 2500, 100000) { predict_history(c, MLP); }
UNIT("H01", "net.softmax_net", 2500, 100000) { predict_history(c, SOFT); }
UNIT("H01", "net.auto_encoder", 2500, 100000) { predict_history(c, AE); }
UNIT("H01", "net.ann", 4000, 160000) { predict_history(c, ANN); }
UNIT("H01", "net.mann", 4000, 160000) { predict_history(c, MANN); }

// ---- single layers: histories of reads, replacements and passes ----
UNIT("H01", "layer.hidden", 5000, 200000) {
	Rng &r = c.rng; long e0 = errors(); int in = r.range(1, 4), h = r.range(1, 4), act = r.pick(TRAIN); Reg g = greg(r, true);
	auto mk = [&] { DM m(r.range(1, 5), in); m.d = rnd(r, m.d.size(), 1.4); return m; };
	DM X = mk(); RM rx = mkm(X); Ref<MLPPHiddenLayer> l; c.label("hidden_layer.create");
	if (r.chance(0.5)) l = Ref<MLPPHiddenLayer>(memnew(MLPPHiddenLayer(h, (AF)act, rx, (WD)r.range(0, 7), (RT_)g.t, g.la, g.al)));
	else { l.instance(); l->set_n_hidden(h); l->set_activation((AF)act); l->set_input(rx); l->set_weight_init((WD)r.range(0, 7)); c.check("not_ready", !l->is_initialized(), "claims to be initialised"); l->initialize(); }
	c.check("ready", l->is_initialized(), "not initialised after initialize()");
	DM W = dm(l->get_weights()); DV b = dv(l->get_bias()); bool judged = false;
	auto shaped = [&] { return c.check("shapes", W.r == in && W.co == h && (int)b.size() == h, strf("weights %dx%d bias %zu for %d inputs %d units", W.r, W.co, b.size(), in, h)); };
	if (!shaped()) return;
	for (int step = r.range(3, 12); step > 0; step--) {
		Ly q; q.act = act; q.W = W; q.b = b; int op = r.range(0, 13); bool redraw = false;
		switch (op) {
			case 0: case 1: { X = mk(); rx = mkm(X); c.label("hidden_layer.set_input"); l->set_input(rx); } break;
			case 2: case 3: {
				Nt n; n.l = { q }; Fw f; if (!forward(n, X, f)) break; c.label("hidden_layer.forward_pass"); l->forward_pass();
				cmpm(c, "z", l->get_z(), f.z[0]); cmpm(c, "a", l->get_a(), f.out, 4e-5, 4e-5); judged = true; c.count("passes_judged");
			} break;
			case 4: case 5: {
				DM x(1, in); x.d = rnd(r, in, 1.4); Nt n; n.l = { q }; Fw f; if (!forward(n, x, f)) break; RV v = mkv(x.d); c.label("hidden_layer.test"); l->test(v);
				cmpv(c, "z_test", l->get_z_test(), f.z[0].d); cmpv(c, "a_test", l->get_a_test(), f.out.d, 4e-5, 4e-5); samev(c, "argument_unchanged", v, x.d); judged = true; c.count("passes_judged");
			} break;
			case 6: c.label("hidden_layer.get_input"); c.check("same_input", l->get_input() == rx, "get_input is not what was set"); samem(c, "input_unchanged", rx, X); break;
			case 7: W.d = rnd(r, W.d.size(), 1); c.label("hidden_layer.set_weights"); l->set_weights(mkm(W)); break;
			case 8: b = rnd(r, b.size(), 1); c.label("hidden_layer.set_bias"); l->set_bias(mkv(b)); break;
			case 9: act = r.pick(TRAIN); if (r.chance(0.15)) act = r.chance(0.5) ? AC::ACTIVATION_FUNCTION_SOFTMAX : AC::ACTIVATION_FUNCTION_ADJ_SOFTMAX; c.label("hidden_layer.set_activation"); l->set_activation((AF)act); c.check("activation", l->get_activation() == act, "get_activation"); break;
			case 10: g = greg(r, true); c.label("hidden_layer.set_reg"); l->set_reg((RT_)g.t); l->set_lambda(g.la); l->set_alpha(g.al); c.check("reg", l->get_reg() == g.t && l->get_lambda() == (real_t)g.la && l->get_alpha() == (real_t)g.al, "regularisation settings read back differently"); break;
			case 11: c.label("hidden_layer.initialize"); l->initialize(); break;
			case 12: if (r.chance(0.4)) { h = r.range(1, 4); c.label("hidden_layer.set_n_hidden"); l->set_n_hidden(h); c.check("n_hidden", l->get_n_hidden() == h, "get_n_hidden"); redraw = true; } break;
			case 13: if (r.chance(0.4)) { int before = in; in = r.range(1, 4); X = mk(); rx = mkm(X); c.label("hidden_layer.set_wider_input"); l->set_input(rx); redraw = in != before; } break;
		}
		if (redraw) { if (r.chance(0.5)) l->initialize(); else l->forward_pass(); W = dm(l->get_weights()); b = dv(l->get_bias()); if (!shaped()) return; for (double v : W.d) c.check("drawn", std::isfinite(v), "a weight was left unset"); }
		else { samem(c, "weights_unchanged", l->get_weights(), W); samev(c, "bias_unchanged", l->get_bias(), b); }
	}
	c.label("hidden_layer.errors"); c.check("no_error", errors() == e0, "a valid request was refused"); c.obs(hsh(hsh(hs("hl"), W.d), X.d), judged);
}
UNIT("H01", "layer.output", 4000, 160000) {
	Rng &r = c.rng; long e0 = errors(); int h = r.range(1, 5), act = r.pick(TRAIN); Reg g = greg(r, true);
	auto mk = [&] { DM m(r.range(1, 5), h); m.d = rnd(r, m.d.size(), 1.4); return m; };
	DM X = mk(); RM rx = mkm(X); Ref<MLPPOutputLayer> l; c.label("output_layer.create");
	if (r.chance(0.5)) l = Ref<MLPPOutputLayer>(memnew(MLPPOutputLayer(h, (AF)act, CO::COST_TYPE_MSE, rx, (WD)r.range(0, 7), (RT_)g.t, g.la, g.al)));
	else { l.instance(); l->set_n_hidden(h); l->set_activation((AF)act); l->set_input(rx); c.check("not_ready", !l->is_initialized(), "claims to be initialised"); l->initialize(); }
	c.check("ready", l->is_initialized(), "not initialised"); DV w = dv(l->get_weights()); double b = l->get_bias(); bool judged = false;
	if (!c.check("shapes", (int)w.size() == h, strf("%zu weights for %d inputs", w.size(), h))) return;
	for (int step = r.range(3, 12); step > 0; step--) {
		Nt n; Ly q; q.act = act; q.W = colm(w); q.b = DV{ b }; n.l = { q }; Fw f; bool redraw = false;
		switch (r.range(0, 10)) {
			case 0: case 1: X = mk(); rx = mkm(X); c.label("output_layer.set_input"); l->set_input(rx); break;
			case 2: case 3: if (!forward(n, X, f)) break; c.label("output_layer.forward_pass"); l->forward_pass(); cmpv(c, "z", l->get_z(), f.z[0].d); cmpv(c, "a", l->get_a(), f.out.d, 4e-5, 4e-5); judged = true; c.count("passes_judged"); break;
			case 4: case 5: { DM x(1, h); x.d = rnd(r, h, 1.4); if (!forward(n, x, f)) break; c.label("output_layer.test"); l->test(mkv(x.d)); c.eq("z_test", l->get_z_test(), f.z[0].d[0]); c.eq("a_test", l->get_a_test(), f.out.d[0], 4e-5, 4e-5); judged = true; c.count("passes_judged"); } break;
			case 6: c.label("output_layer.get_input"); c.check("same_input", l->get_input() == rx, "get_input is not what was set"); samem(c, "input_unchanged", rx, X); break;
			case 7: w = rnd(r, w.size(), 1); b = r.f(-1, 1); c.label("output_layer.set_weights"); l->set_weights(mkv(w)); l->set_bias(b); break;
			case 8: act = r.pick(TRAIN); c.label("output_layer.set_activation"); l->set_activation((AF)act); c.check("activation", l->get_activation() == act, "get_activation"); break;
			case 9: { g = greg(r, true); int co = r.range(0, 7); c.label("output_layer.set_reg"); l->set_reg((RT_)g.t); l->set_lambda(g.la); l->set_alpha(g.al); l->set_cost((CO::CostTypes)co); c.check("reg", l->get_reg() == g.t && l->get_lambda() == (real_t)g.la && l->get_alpha() == (real_t)g.al && l->get_cost() == co, "settings read back differently"); } break;
			case 10: if (r.chance(0.4)) { h = r.range(1, 5); X = mk(); rx = mkm(X); c.label("output_layer.set_n_hidden"); l->set_n_hidden(h); l->set_input(rx); redraw = true; } break;
		}
		if (redraw) { if (r.chance(0.5)) l->initialize(); else l->forward_pass(); w = dv(l->get_weights()); b = l->get_bias(); if (!c.check("shapes", (int)w.size() == h, strf("%zu weights for %d inputs", w.size(), h))) return; }
		else { samev(c, "weights_unchanged", l->get_weights(), w); c.check("bias_unchanged", l->get_bias() == (real_t)b, "the bias changed"); }
	}
	c.label("output_layer.errors"); c.check("no_error", errors() == e0, "a valid request was refused"); c.obs(hsh(hsh(hs("ol"), w), X.d), judged);
}
UNIT("H01", "layer.multi_output", 4000, 160000) {
	Rng &r = c.rng; long e0 = errors(); int h = r.range(1, 4), o = r.range(1, 4), act = r.chance(0.25) ? (int)(r.chance(0.5) ? AC::ACTIVATION_FUNCTION_SOFTMAX : AC::ACTIVATION_FUNCTION_ADJ_SOFTMAX) : r.pick(TRAIN); Reg g = greg(r, true);
	auto mk = [&] { DM m(r.range(1, 5), h); m.d = rnd(r, m.d.size(), 1.4); return m; };
	DM X = mk(); RM rx = mkm(X); c.label("multi_output_layer.create");
	Ref<MLPPMultiOutputLayer> l = Ref<MLPPMultiOutputLayer>(memnew(MLPPMultiOutputLayer(o, h, (AF)act, CO::COST_TYPE_MSE, rx, (WD)r.range(0, 7), (RT_)g.t, g.la, g.al)));
	DM W = dm(l->get_weights()); DV b = dv(l->get_bias()); bool judged = false;
	if (!c.check("shapes", W.r == h && W.co == o && (int)b.size() == o && l->get_n_output() == o && l->get_n_hidden() == h, strf("weights %dx%d bias %zu for %d inputs %d outputs", W.r, W.co, b.size(), h, o))) return;
	for (int step = r.range(3, 10); step > 0; step--) {
		Nt n; Ly q; q.act = act; q.W = W; q.b = b; n.l = { q }; Fw f;
		switch (r.range(0, 8)) {
			case 0: case 1: X = mk(); rx = mkm(X); c.label("multi_output_layer.set_input"); l->set_input(rx); break;
			case 2: case 3: if (!forward(n, X, f)) break; c.label("multi_output_layer.forward_pass"); l->forward_pass(); cmpm(c, "z", l->get_z(), f.z[0]); cmpm(c, "a", l->get_a(), f.out, 4e-5, 4e-5); judged = true; c.count("passes_judged"); break;
			case 4: case 5: { DM x(1, h); x.d = rnd(r, h, 1.4); if (!forward(n, x, f)) break; c.label("multi_output_layer.test"); l->test(mkv(x.d)); cmpv(c, "z_test", l->get_z_test(), f.z[0].d); cmpv(c, "a_test", l->get_a_test(), f.out.d, 4e-5, 4e-5); judged = true; c.count("passes_judged"); } break;
			case 6: c.label("multi_output_layer.get_input"); c.check("same_input", l->get_input() == rx, "get_input is not what was set"); samem(c, "input_unchanged", rx, X); break;
			case 7: W.d = rnd(r, W.d.size(), 1); b = rnd(r, b.size(), 1); c.label("multi_output_layer.set_weights"); l->set_weights(mkm(W)); l->set_bias(mkv(b)); break;
			case 8: act = r.pick(TRAIN); g = greg(r, true); c.label("multi_output_layer.settings"); l->set_activation((AF)act); l->set_reg((RT_)g.t); l->set_lambda(g.la); l->set_alpha(g.al); c.check("settings", l->get_activation() == act && l->get_reg() == g.t && l->get_lambda() == (real_t)g.la && l->get_alpha() == (real_t)g.al, "settings read back differently"); break;
		}
		samem(c, "weights_unchanged", l->get_weights(), W); samev(c, "bias_unchanged", l->get_bias(), b);
	}
	c.label("multi_output_layer.errors"); c.check("no_error", errors() == e0, "a valid request was refused"); c.obs(hsh(hsh(hs("mol"), W.d), X.d), judged);
}

// ---- adversarial networks ----
struct Adv {
	bool w; int n, kk, s, width; DM R; RM rr; std::unique_ptr<XGan> gan; std::unique_ptr<XWgan> wgan; std::string nm; double tol = 4e-5; int cost;
	Adv(Ctx &c, bool ww) : w(ww) {
		Rng &r = c.rng; nm = w ? "wgan" : "gan"; n = r.range(1, 4); kk = r.range(1, 3); s = r.range(3, 5); width = r.range(1, 3); R = DM(n, width); R.d = rnd(r, R.d.size(), 1.2); rr = mkm(R); c.label(nm + ".create");
		if (w) wgan.reset(new XWgan(kk, rr)); else gan.reset(new XGan(kk, rr));
		for (int i = 0; i < s; i++) { int h = i == s / 2 ? width : r.range(1, 3); AF a = (AF)r.pick(TRAIN); Reg g = greg(r, false); WD d = (WD)r.range(0, 7); if (w) wgan->create_layer(h, a, d, (RT_)g.t, g.la, g.al); else gan->add_layer(h, a, d, (RT_)g.t, g.la, g.al); }
		Reg g = greg(r, false); WD d = (WD)r.range(0, 7); if (w) wgan->add_output_layer(d, (RT_)g.t, g.la, g.al); else gan->add_output_layer(d, (RT_)g.t, g.la, g.al);
		cost = w ? CO::COST_TYPE_WASSERSTEIN_LOSS : CO::COST_TYPE_LOGISTIC_LOSS;
		if (w) score(); // its output layer draws its weights at the first pass
	}
	Ref<MLPPHiddenLayer> h(int i) { return w ? wgan->h(i) : gan->h(i); }
	Ref<MLPPOutputLayer> o() { return w ? wgan->o() : gan->o(); }
	int nh() { return w ? wgan->nh() : gan->nh(); }
	RM gen(int q) { return w ? wgan->generate_example(q) : gan->generate_example(q); }
	double score() { return w ? wgan->score() : gan->score(); }
	void train(double lr, int ep) { if (w) wgan->gradient_descent(lr, ep); else gan->gradient_descent(lr, ep); }
	Nt read() { Nt q; for (int i = 0; i < nh(); i++) q.l.push_back(hidden_of(h(i))); q.l.push_back(output_of(o())); q.direct = false; q.cost = cost; return q; }
	void place(Rng &r) { for (int i = 0; i < nh(); i++) { RM m = h(i)->get_weights(); DM d(m->size().y, m->size().x); d.d = rnd(r, d.d.size(), 0.8); m->set_from_mlpp_matrix(mkm(d)); h(i)->get_bias()->set_from_mlpp_vector(mkv(rnd(r, h(i)->get_bias()->size(), 0.8))); } o()->get_weights()->set_from_mlpp_vector(mkv(rnd(r, o()->get_weights()->size(), 0.8))); o()->set_bias(r.f(-0.8, 0.8)); }
	bool update(Nt &q, const Gr &g, size_t from, size_t to, double lr) {
		for (size_t i = from; i < to; i++) {
			DV rd; if (!q.l[i].g.deriv(q.l[i].W.d, rd)) return false;
			for (size_t j = 0; j < rd.size(); j++) q.l[i].W.d[j] -= lr / n * (g.W[i].d[j] + rd[j]);
			for (size_t j = 0; j < q.l[i].b.size(); j++) q.l[i].b[j] -= lr / n * g.b[i][j];
		}
		return sane(q);
	}
	bool epoch(Nt &q, const DM &N, double lr) {
		size_t half = s / 2 + 1; Fw f; Gr g;
		for (int it = 0; it < (w ? 5 : 1); it++) {
			if (!forward(q, N, f, 0, half)) return false;
			DM D(2 * n, width), T(2 * n, 1); for (int i = 0; i < n; i++) { for (int j = 0; j < width; j++) { D.at(i, j) = f.out.at(i, j); D.at(n + i, j) = R.at(i, j); } T.at(i, 0) = w ? -1 : 0; T.at(n + i, 0) = 1; }
			if (!forward(q, D, f, half) || !backward(q, f, T, g, half) || !update(q, g, half, s + 1, lr)) return false;
		}
		DM T(n, 1, 1.0); if (!forward(q, N, f) || !backward(q, f, T, g)) return false;
		return update(q, g, 0, half, lr);
	}
};
static bool same_noise(int n, int k) { return dm(MLPPMatrix::create_gaussian_noise(n, k)).d == dm(MLPPMatrix::create_gaussian_noise(n, k)).d; }
static void adv_predict(Ctx &c, bool w) {
	Rng &r = c.rng; long e0 = errors(); Adv a(c, w); if (r.chance(0.7)) a.place(r); Nt q = a.read(); bool any = false;
	int wd = a.kk; bool chain = true; for (auto &l : q.l) { chain = chain && l.W.r == wd && (int)l.b.size() == l.W.co; wd = l.W.co; } if (!c.check("shapes", chain && wd == 1, "parameter shapes do not chain")) return;
	Pin pin(r.next()); if (!same_noise(2, 2)) { c.count("noise_not_repeatable"); return; }
	for (int i = 0; i < 3; i++) {
		g_pin = r.next() | 1;
		int m = r.range(1, 5); DM N = dm(MLPPMatrix::create_gaussian_noise(m, a.kk)); Fw f; if (!forward(q, N, f, 0, a.s / 2 + 1)) { c.count("out_of_range_inputs"); continue; }
		c.label(a.nm + ".generate_example"); RM got = a.gen(m); cmpm(c, "generated", got, f.out, 5e-5, 5e-5); any = true; c.count("examples_judged", m);
		DM first = dm(got); g_pin = r.next() | 1; a.gen(r.range(1, 5)); c.label(a.nm + ".earlier_result_kept"); samem(c, "earlier_result_kept", got, first);
	}
	DM N = dm(MLPPMatrix::create_gaussian_noise(a.n, a.kk)); Fw f;
	if (forward(q, N, f)) { int lo = 0, hi = 0; for (int i = 0; i < a.n; i++) { double v = f.out.d[i], e = 2e-4 * (1 + std::fabs(v)); bool l1 = std::round(v - e) == 1, h1 = std::round(v + e) == 1; lo += l1 && h1; hi += l1 || h1; } c.label(a.nm + ".score"); double sc = a.score() * a.n; c.check("score", sc > lo - 0.01 && sc < hi + 0.01, strf("score*n = %g, expected %d..%d", sc, lo, hi)); c.count("scores_judged"); }
	Nt b = a.read(); c.label(a.nm + ".predict"); c.check("parameters_unchanged", dist(q, b) == 0, "a prediction changed the parameters"); samem(c, "output_set_unchanged", a.rr, a.R);
	if (w) {
		c.label("wgan.layers"); XWgan &x = *a.wgan; c.check("count", x.get_layer_count() == a.s, "layer count"); for (int i = 0; i < a.s; i++) c.check("get_layer", x.get_layer(i) == x.h(i), "get_layer");
		c.check("no_error", errors() == e0, "a valid request was refused"); c.check("bad_index", x.get_layer(a.s).is_null() && x.get_layer(-1).is_null() && errors() > e0, "a layer outside the network was returned"); e0 = errors();
		if (r.chance(0.3)) { int at = r.range(0, a.s - 1); std::vector<Object *> left; for (int i = 0; i < a.s; i++) if (i != at) left.push_back(x.h(i).ptr()); x.remove_layer(at); bool good = x.get_layer_count() == a.s - 1; for (int i = 0; good && i < a.s - 1; i++) good = x.get_layer(i).ptr() == left[i]; c.check("remove_layer", good, "the wrong layers are left"); }
	}
	c.label(a.nm + ".errors"); c.check("no_error", errors() == e0, "a valid request was refused"); c.obs(hn(q), any);
}
UNIT("H01", "gan", 2500, 100000) { adv_predict(c, false); }
UNIT("H01", "wgan", 2500, 100000) { adv_predict(c, true); }
static void adv_train(Ctx &c, bool w) {
	Rng &r = c.rng; long e0 = errors(); Adv a(c, w); if (r.chance(0.8)) a.place(r); Nt q = a.read(); c.label(a.nm + ".gradient_descent");
	Pin pin(r.next()); if (!same_noise(2, 2)) { c.count("noise_not_repeatable"); return; }
	DM N = dm(MLPPMatrix::create_gaussian_noise(a.n, a.kk));
	for (int calls = r.range(1, 2); calls > 0; calls--) {
		double lr = r.chance(0.08) ? 0 : (double)r.f(0.02, w ? 0.2 : 0.5); int ep = r.chance(0.6) ? 1 : 2; Nt t = q; bool ok = true; for (int e = 0; e < ep && ok; e++) ok = a.epoch(t, N, lr);
		if (!ok) { c.count("undetermined_step"); return; }
		a.train(lr, ep); c.count("training_calls"); Nt got = a.read(); bool good = true; std::string why;
		for (size_t i = 0; good && i < t.l.size(); i++) { if (got.l[i].W.d.size() != t.l[i].W.d.size()) { good = false; why = "shape"; break; } for (size_t j = 0; good && j < t.l[i].W.d.size(); j++) if (!close(got.l[i].W.d[j], t.l[i].W.d[j], a.tol * 3, a.tol * 3)) { good = false; why = strf("layer %zu weight %zu is %.8g, expected %.8g, before %.8g", i, j, got.l[i].W.d[j], t.l[i].W.d[j], q.l[i].W.d[j]); } for (size_t j = 0; good && j < t.l[i].b.size(); j++) if (!close(got.l[i].b[j], t.l[i].b[j], a.tol * 3, a.tol * 3)) { good = false; why = strf("layer %zu bias %zu is %.8g, expected %.8g, before %.8g", i, j, got.l[i].b[j], t.l[i].b[j], q.l[i].b[j]); } }
		if (!c.check("step", good, strf("%s (%d layers, lr %g, %d epochs)", why.c_str(), a.s, lr, ep))) return;
		samem(c, "output_set_unchanged", a.rr, a.R); c.obs(hsh(hn(got), hsh(ep, DV{ lr })), lr > 0); q = got;
	}
	c.label(a.nm + ".errors"); c.check("no_error", errors() == e0, "a valid request was refused");
}
UNIT("H02", "train.gan", 3000, 120000) { adv_train(c, false); }
UNIT("H02", "train.wgan", 3000, 120000) { adv_train(c, true); }

// ---- H02: two-layer models and MANN ----
static void gd(Any &m, double lr, int ep) { switch (m.k) { case MLP: m.mlp->gradient_descent(lr, ep); break; case SOFT: m.soft->train_gradient_descent(lr, ep); break; case AE: m.ae->gradient_descent(lr, ep); break; case ANN: m.ann->gradient_descent(lr, ep); break; case MANN: m.mann->gradient_descent(lr, ep); break; } }
static void sgd(Any &m, double lr, int ep) { switch (m.k) { case MLP: m.mlp->sgd(lr, ep); break; case SOFT: m.soft->train_sgd(lr, ep); break; case AE: m.ae->sgd(lr, ep); break; case ANN: m.ann->sgd(lr, ep); break; default: abort(); } }
static void mbgd(Any &m, double lr, int ep, int bs) { switch (m.k) { case MLP: m.mlp->mbgd(lr, ep, bs); break; case SOFT: m.soft->train_mbgd(lr, ep, bs); break; case AE: m.ae->mbgd(lr, ep, bs); break; case ANN: m.ann->mbgd(lr, ep, bs); break; default: abort(); } }
enum Opt { PLAIN, MOM, NAG, ADAGRAD, ADADELTA, ADAM, ADAMAX, NADAM, AMSGRAD };
static const char *ON[] = { "mbgd", "momentum", "nag", "adagrad", "adadelta", "adam", "adamax", "nadam", "amsgrad" };
struct Hyper { double b1 = 0, b2 = 0, e = 0; };
struct State { std::vector<DV> m, v, x; };
static bool ann_step(Nt &q, State &s, Opt o, const Hyper &h, const DM &X, const DM &Y, double lr, int t) {
	size_t L = q.l.size(); if (s.v.empty()) { for (auto &l : q.l) s.v.push_back(DV(l.W.d.size(), 0)); s.m = s.x = s.v; }
	Nt at = q; if (o == NAG) for (size_t i = 0; i < L; i++) for (size_t j = 0; j < s.v[i].size(); j++) at.l[i].W.d[j] -= h.b1 * s.v[i][j];
	Fw f; Gr g; if (!forward(at, X, f) || !backward(at, f, Y, g)) return false;
	double c1 = 1 - std::pow(h.b1, t), c2 = 1 - std::pow(h.b2, t);
	for (size_t i = 0; i < L; i++) {
		DV rd; if (!at.l[i].g.deriv(at.l[i].W.d, rd)) return false;
		for (size_t j = 0; j < rd.size(); j++) {
			double G = g.W[i].d[j] / X.r + rd[j], &m = s.m[i][j], &v = s.v[i][j], &x = s.x[i][j], u = 0;
			switch (o) {
				case PLAIN: u = lr * G; break;
				case MOM: case NAG: v = h.b1 * v + lr * G; u = v; break;
				case ADAGRAD: v += G * G; u = lr * G / (std::sqrt(v) + h.e); break;
				case ADADELTA: v = h.b1 * v + (1 - h.b1) * G * G; u = lr * G / (std::sqrt(v) + h.e); break;
				case ADAM: m = h.b1 * m + (1 - h.b1) * G; v = h.b2 * v + (1 - h.b2) * G * G; u = lr * (m / c1) / (std::sqrt(v / c2) + h.e); break;
				case ADAMAX: m = h.b1 * m + (1 - h.b1) * G; v = std::max(h.b2 * v, std::fabs(G)); u = lr * (m / c1) / (v + h.e); break;
				case NADAM: m = h.b1 * m + (1 - h.b1) * G; v = h.b2 * v + (1 - h.b2) * G * G; u = lr * (h.b1 * m / c1 + (1 - h.b1) * G / c1) / (std::sqrt(v / c2) + h.e); break;
				case AMSGRAD: m = h.b1 * m + (1 - h.b1) * G; v = h.b2 * v + (1 - h.b2) * G * G; x = std::max(x, v); u = lr * m / (std::sqrt(x) + h.e); break;
			}
			q.l[i].W.d[j] -= u;
		}
		for (size_t j = 0; j < q.l[i].b.size(); j++) q.l[i].b[j] -= lr * g.b[i][j] / X.r;
	}
	return sane(q);
}
static double schedule(int type, double lr, double d, double drop, int epoch) {
	switch (type) { case 1: return lr / (1 + d * epoch); case 2: return lr * d / std::sqrt((double)epoch); case 3: return lr * std::pow(d, (double)(int)((1 + epoch) / drop)); case 4: return lr * std::exp(-d * epoch); default: return lr; }
}
static bool step_of(Any &m, Nt &q, const VI &rows, double lr, State &s, Opt o, const Hyper &h, int t) {
	DM x = rowsof(m.X, rows), y = rowsof(m.Y, rows);
	return m.k == ANN ? ann_step(q, s, o, h, x, y, lr, t) : plain_step(q, x, y, lr, m.k != SOFT);
}
static Sched gsched(Rng &r, Any &m) {
	Sched &s = m.sched; if (m.k != ANN || r.chance(0.5)) return s; // a schedule stays until it is replaced
	s.type = r.range(0, 4); s.d = s.type == 3 ? (double)r.f(0.3, 1.1) : (double)r.f(0.1, 1.5); bool drop = s.type == 3 || r.chance(0.2); if (drop) s.drop = r.range(1, 4);
	if (drop) m.ann->set_learning_rate_scheduler_drop((MLPPANN::SchedulerType)s.type, s.d, s.drop); else m.ann->set_learning_rate_scheduler((MLPPANN::SchedulerType)s.type, s.d);
	return s;
}
static void full_batch(Ctx &c, K k) {
	Rng &r = c.rng; long e0 = errors(); Any m(c, k, true); Nt q = m.read(); if (!m.shape_ok(q)) { c.check("shapes", false, m.desc()); return; }
	for (int calls = r.range(1, 3); calls > 0; calls--) {
		Sched sc = gsched(r, m); double lr = r.chance(0.08) ? 0 : (double)r.f(0.02, 0.8); int ep = r.chance(0.5) ? 1 : r.range(2, 4); Nt t = q; State s; bool ok = true;
		for (int e = 1; e <= ep && ok; e++) ok = step_of(m, t, allrows(m.n), schedule(sc.type, lr, sc.d, sc.drop, e), s, PLAIN, Hyper(), e);
		if (!ok) { c.count("undetermined_step"); return; }
		c.label(std::string(KN[k]) + ".gradient_descent"); gd(m, lr, ep); c.count("training_calls"); c.count("epochs", ep); Nt got = m.read();
		std::string d = m.diff(got, t, q, m.tol * (1 + ep)); if (!c.check("step", d.empty(), d + strf(" (lr %g, %d epochs, schedule %d) ", lr, ep, sc.type) + m.desc())) return;
		bool moved = dist(got, q) > 1e-4; q = got; m.predicts(c, q, false); c.obs(hsh(hn(q), DV{ lr, (double)ep }), moved);
	}
	c.label(std::string(KN[k]) + ".errors"); c.check("no_error", errors() == e0, "a valid request was refused"); if (r.chance(0.01)) c.sample(m.desc());
}
UNIT("H02", "gd.mlp", 2500, 100000) { full_batch(c, MLP); }
UNIT("H02", "gd.softmax_net", 2500, 100000) { full_batch(c, SOFT); }
UNIT("H02", "gd.auto_encoder", 2500, 100000) { full_batch(c, AE); }
UNIT("H02", "gd.ann", 5000, 200000) { full_batch(c, ANN); }
UNIT("H02", "gd.mann", 5000, 200000) { full_batch(c, MANN); }
static void stochastic(Ctx &c, K k) {
	Rng &r = c.rng; long e0 = errors(); Any m(c, k, true); Nt q = m.read();
	for (int calls = r.range(1, 2); calls > 0; calls--) {
		Sched sc = gsched(r, m); double lr = r.chance(0.08) ? 0 : (double)r.f(0.02, 0.6); int ep = m.n <= 4 && r.chance(0.4) ? 2 : 1; std::vector<Nt> next; bool ok = true;
		for (int a = 0; a < m.n && ok; a++) { Nt t = q; State s; ok = step_of(m, t, { a }, schedule(sc.type, lr, sc.d, sc.drop, 1), s, PLAIN, Hyper(), 1); if (ep == 1) next.push_back(t); else for (int b = 0; b < m.n && ok; b++) { Nt u = t; ok = step_of(m, u, { b }, schedule(sc.type, lr, sc.d, sc.drop, 2), s, PLAIN, Hyper(), 2); next.push_back(u); } }
		if (!ok) { c.count("undetermined_step"); return; }
		c.label(std::string(KN[k]) + ".sgd"); sgd(m, lr, ep); c.count("training_calls"); Nt got = m.read(); size_t best = 0; double bd = 1e300; for (size_t i = 0; i < next.size(); i++) { double d = got.l.size() == next[i].l.size() ? dist(got, next[i]) : 1e300; if (d < bd) { bd = d; best = i; } }
		std::string d = m.diff(got, next[best], q, m.tol * (1 + ep)); if (!c.check("step", d.empty(), "no sample explains the step; nearest: " + d + strf(" (lr %g) ", lr) + m.desc())) return;
		bool moved = dist(got, q) > 1e-4; q = got; m.predicts(c, q, false); c.obs(hsh(hn(q), DV{ lr, (double)ep }), moved && m.n > 1);
	}
	c.label(std::string(KN[k]) + ".errors"); c.check("no_error", errors() == e0, "a valid request was refused");
}
UNIT("H02", "sgd.mlp", 2000, 80000) { stochastic(c, MLP); }
UNIT("H02", "sgd.softmax_net", 2000, 80000) { stochastic(c, SOFT); }
UNIT("H02", "sgd.auto_encoder", 2000, 80000) { stochastic(c, AE); }
UNIT("H02", "sgd.ann", 4000, 160000) { stochastic(c, ANN); }
UNIT("H02", "sgd_coverage", 12, 160) {
	Rng &r = c.rng; K k = (K)(c.case_no % 4); std::unique_ptr<Any> m; do { m.reset(new Any(c, k, true)); } while (m->n < 2 || m->n > 4 || (k == ANN && m->cost != CO::COST_TYPE_MSE));
	std::set<int> seen; bool ok = true;
	for (int d = 0; d < 90 && ok; d++) {
		m->place(r); Nt q = m->read(); std::vector<Nt> next; double lr = r.f(0.1, 0.4);
		bool fine = true; for (int a = 0; a < m->n && fine; a++) { Nt t = q; State s; fine = step_of(*m, t, { a }, lr, s, PLAIN, Hyper(), 1); next.push_back(t); }
		if (!fine) continue;
		c.label(std::string(KN[k]) + ".sgd"); sgd(*m, lr, 1); Nt got = m->read(); for (int a = 0; a < m->n; a++) if (m->diff(got, next[a], q, m->tol * 2).empty()) seen.insert(a); c.count("draws_classified");
	}
	c.check("all_samples", (int)seen.size() == m->n || seen.empty(), strf("only %zu of %d samples were ever used", seen.size(), m->n)); c.obs(hsh(m->n, c.case_no), !seen.empty());
}
static void minibatch(Ctx &c, K k) {
	Rng &r = c.rng; long e0 = errors(); Any m(c, k, true); Nt q = m.read();
	for (int calls = r.range(1, 2); calls > 0; calls--) {
		Sched sc = gsched(r, m); double lr = r.chance(0.08) ? 0 : (double)r.f(0.02, 0.6); int ep = r.range(1, 3), bs = r.range(1, m.n); auto B = batches(m.n, bs); Opt o = k == ANN && r.chance(0.8) ? (Opt)r.range(1, 8) : PLAIN; Hyper h; h.b1 = r.f(0.1, 0.95); h.b2 = r.f(0.1, 0.99); h.e = r.f(0.02, 0.5); if (o >= ADAGRAD) lr = std::min(lr, 0.3); lr = (float)lr;
		Nt t = q; State s; bool ok = true; for (int e = 1; e <= ep && ok; e++) for (auto &b : B) ok = ok && step_of(m, t, b, schedule(sc.type, lr, sc.d, sc.drop, e), s, o, h, e);
		if (!ok) { c.count("undetermined_step"); return; }
		c.label(std::string(KN[k]) + "." + ON[o]);
		switch (o) {
			case PLAIN: mbgd(m, lr, ep, bs); break;
			case MOM: case NAG: m.ann->momentum(lr, ep, bs, h.b1, o == NAG); break;
			case ADAGRAD: m.ann->adagrad(lr, ep, bs, h.e); break;
			case ADADELTA: m.ann->adadelta(lr, ep, bs, h.b1, h.e); break;
			case ADAM: m.ann->adam(lr, ep, bs, h.b1, h.b2, h.e); break;
			case ADAMAX: m.ann->adamax(lr, ep, bs, h.b1, h.b2, h.e); break;
			case NADAM: m.ann->nadam(lr, ep, bs, h.b1, h.b2, h.e); break;
			case AMSGRAD: m.ann->amsgrad(lr, ep, bs, h.b1, h.b2, h.e); break;
		}
		c.count("training_calls"); c.count("batches", (long)B.size() * ep); Nt got = m.read(); std::string d = m.diff(got, t, q, m.tol * (1 + 0.5 * ep * B.size()) * (o >= ADAGRAD ? 3 : 1));
		if (!c.check("step", d.empty(), d + strf(" (lr %g, %d epochs of %zu batches, b1 %g b2 %g e %g, schedule %d) ", lr, ep, B.size(), h.b1, h.b2, h.e, sc.type) + m.desc())) return;
		bool moved = dist(got, q) > 1e-4; q = got; m.predicts(c, q, false); c.obs(hsh(hn(q), DV{ lr, (double)ep, (double)bs, (double)o }), moved && B.size() > 1);
	}
	c.label(std::string(KN[k]) + ".errors"); c.check("no_error", errors() == e0, "a valid request was refused");
}
UNIT("H02", "mbgd.mlp", 2000, 80000) { minibatch(c, MLP); }
UNIT("H02", "mbgd.softmax_net", 2000, 80000) { minibatch(c, SOFT); }
UNIT("H02", "mbgd.auto_encoder", 2000, 80000) { minibatch(c, AE); }
UNIT("H02", "mbgd.ann", 10000, 400000) { minibatch(c, ANN); }

// A layer with weight clipping keeps its weights between its two thresholds after every update.
template <class L> static bool inside(const DV &w, L l) { for (double v : w) if (!(v >= l->get_lambda() - 1e-6 && v <= l->get_alpha() + 1e-6)) return false; return true; }
static const std::vector<int> BOUNDED = { AC::ACTIVATION_FUNCTION_SIGMOID, AC::ACTIVATION_FUNCTION_TANH, AC::ACTIVATION_FUNCTION_SOFTSIGN, AC::ACTIVATION_FUNCTION_GAUSSIAN_CDF };
UNIT("H02", "clip", 900, 20000) {
	Rng &r = c.rng; const int kind = r.range(0, 3); const char *nm[] = { "ann", "gan", "wgan", "mann" }; c.label(std::string(nm[kind]) + ".weight_clipping");
	const double lo = r.f(-0.1, -0.001), hi = r.f(0.001, 0.1); const int n = r.range(1, 4), k = r.range(1, 3); DM X(n, k); X.d = rnd(r, X.d.size(), 1.2); const auto CL = MLPPReg::REGULARIZATION_TYPE_WEIGHT_CLIPPING; const double lr = r.f(0.001, 0.3); const int ep = r.range(1, 3); bool ok = true;
	if (kind == 0 || kind == 3) {
		DV y = rnd(r, n, 1); DM Y(n, 2); Y.d = rnd(r, Y.d.size(), 1); RM x = mkm(X), my = mkm(Y); RV vy = mkv(y);
		if (kind == 0) { XAnn a(x, vy); a.add_layer(r.range(1, 3), (AF)r.pick(BOUNDED), (WD)r.range(0, 7), CL, lo, hi); a.add_output_layer((AF)r.pick(BOUNDED), CO::COST_TYPE_MSE, (WD)r.range(0, 7), CL, lo, hi); a.gradient_descent(lr, ep); for (int i = 0; i < a.nh(); i++) ok = ok && inside(dm(a.h(i)->get_weights()).d, a.h(i)); ok = ok && inside(dv(a.o()->get_weights()), a.o()); }
		else { MLPPMANN m(x, my); m.add_layer(r.range(1, 3), (AF)r.pick(BOUNDED), (WD)r.range(0, 7), CL, lo, hi); m.add_output_layer((AF)r.pick(BOUNDED), CO::COST_TYPE_MSE, (WD)r.range(0, 7), CL, lo, hi); m.gradient_descent(lr, ep); Ref<MLPPMultiOutputLayer> o = m.vp_output_layer(); ok = inside(dm(o->get_weights()).d, o); for (int i = 0; i < m.vp_network().size(); i++) { Ref<MLPPHiddenLayer> h = m.vp_network()[i]; ok = ok && inside(dm(h->get_weights()).d, h); } }
	} else {
		const bool w = kind == 2; RM x = mkm(X); std::unique_ptr<XGan> g; std::unique_ptr<XWgan> q; if (w) q.reset(new XWgan(2, x)); else g.reset(new XGan(2, x));
		for (int i = 0; i < 3; i++) { int h = i == 1 ? k : r.range(1, 3); AF a = (AF)r.pick(BOUNDED); if (w) q->create_layer(h, a, (WD)r.range(0, 7), CL, lo, hi); else g->add_layer(h, a, (WD)r.range(0, 7), CL, lo, hi); }
		if (w) { q->add_output_layer((WD)r.range(0, 7), CL, lo, hi); q->gradient_descent(lr, ep); } else { g->add_output_layer((WD)r.range(0, 7), CL, lo, hi); g->gradient_descent(lr, ep); }
		for (int i = 0; i < 3; i++) { auto h = w ? q->h(i) : g->h(i); ok = ok && inside(dm(h->get_weights()).d, h); }
		auto o = w ? q->o() : g->o(); ok = ok && inside(dv(o->get_weights()), o);
	}
	c.check("outside_thresholds", ok, "a layer with weight clipping holds weights outside its thresholds after gradient descent"); c.obs(hsh(hsh(3, X.d), (uint64_t)kind), true);
}
