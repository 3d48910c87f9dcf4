// M04: progress reports of training; M05: models assembled property by property.
#include "vh.h"
#include "modules/ann/ann.h"
#include "modules/auto_encoder/auto_encoder.h"
#include "modules/c_log_log_reg/c_log_log_reg.h"
#include "modules/dual_svc/dual_svc.h"
#include "modules/exp_reg/exp_reg.h"
#include "modules/gan/gan.h"
#include "modules/kmeans/kmeans.h"
#include "modules/lin_reg/lin_reg.h"
#include "modules/log_reg/log_reg.h"
#include "modules/mann/mann.h"
#include "modules/mlp/mlp.h"
#include "modules/probit_reg/probit_reg.h"
#include "modules/softmax_net/softmax_net.h"
#include "modules/softmax_reg/softmax_reg.h"
#include "modules/svc/svc.h"
#include "modules/tanh_reg/tanh_reg.h"
#include "modules/wgan/wgan.h"
#include <algorithm>
typedef MLPPActivation AC;
typedef MLPPCost CO;
typedef MLPPReg RG;
typedef MLPPReg::RegularizationType RT_;
typedef MLPPUtilities::WeightDistributionType WD;
typedef std::vector<int> Rows;

// ---- what was reported ----
struct Rep { int epoch = 0; double dec = 0, cost = 0; DV nums; std::vector<int> layers; };
static DV numbers(const std::string &s) {
	DV o; const char *p = s.c_str();
	while (*p) { if (isdigit(*p) || (*p == '-' && isdigit(p[1]))) { char *e; o.push_back(strtod(p, &e)); p = e; } else if (!strncmp(p, "nan", 3) || !strncmp(p, "inf", 3)) { o.push_back(NAN); p += 3; } else p++; }
	return o;
}
static bool parse(const std::vector<std::string> &log, std::vector<Rep> &out, std::string &why) {
	for (const std::string &m : log) {
		size_t e = m.find("epoch: "), a = m.find("minimized by "), b = m.find("Current Cost:");
		if (e != std::string::npos && a != std::string::npos && b != std::string::npos) { Rep r; r.epoch = atoi(m.c_str() + e + 7); r.dec = strtod(m.c_str() + a + 13, nullptr); r.cost = strtod(m.c_str() + b + 13, nullptr); out.push_back(r); continue; }
		if (out.empty()) { why = "a message before the first report: " + m; return false; }
		if (m.compare(0, 6, "Layer ") == 0) { out.back().layers.push_back(atoi(m.c_str() + 6)); continue; }
		DV n = numbers(m); out.back().nums.insert(out.back().nums.end(), n.begin(), n.end());
	}
	return true;
}
static void put(DV &o, const RV &v) { DV a = dv(v); o.insert(o.end(), a.begin(), a.end()); }
static void put(DV &o, const RM &m) { DV a = dm(m).d; o.insert(o.end(), a.begin(), a.end()); }
static bool fin(double v) { return std::isfinite(v) && std::fabs(v) < 1e5; }

template <class T> struct Run {
	std::string name; char kind = 'F'; int n = 1, batch = 0; bool before = true, fixed = true; std::vector<int> layers;
	std::function<T *()> make; std::function<void(T &, int, bool)> train; std::function<double(T &, const Rows &)> cost; std::function<DV(T &)> shown, all;
	struct Got { std::unique_ptr<T> m; std::vector<std::string> log; };
	Got go(uint64_t seed, int epochs, bool ui) { Got g; thread_entropy(seed); Math::seed(seed); g.m.reset(make()); g_log = &g.log; if (epochs) train(*g.m, epochs, ui); g_log = nullptr; thread_entropy(0); return g; }
	void operator()(Ctx &c) {
		Rng &r = c.rng; c.label(name); const long e0 = errors(); const uint64_t seed = r.next() | 1; const int ep = r.range(1, 4);
		Got a = go(seed, ep, true), b = go(seed, ep, false), p = go(seed, ep - 1, true);
		auto ok = [&](const DV &x, const DV &y) { if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) if (x[i] != y[i] && !(std::isnan(x[i]) && std::isnan(y[i]))) return false; return true; };
		DV pa = all(*a.m); if (fixed) c.check("reports_influence_training", ok(pa, all(*b.m)), "training with reports " + str(pa) + ", without " + str(all(*b.m)));
		c.check("unasked_report", b.log.empty(), strf("%d messages although no reports were asked for", (int)b.log.size()));
		std::vector<Rep> R; std::string why; if (!c.check("format", parse(a.log, R, why), why)) return;
		const int per = kind == 'B' ? n / batch : 1;
		if (!c.check("count", (int)R.size() == ep * per, strf("%d reports for %d epochs of %d batches", (int)R.size(), ep, per)) || R.empty()) return;
		for (size_t i = 0; i < R.size(); i++) c.check("epoch", R[i].epoch == 1 + (int)i / per, strf("report %d claims epoch %d", (int)i, R[i].epoch));
		for (auto &q : R) c.check("layers", q.layers == layers, "the layers named in the report");
		if (fixed) c.check("history", a.log.size() >= p.log.size() && std::equal(p.log.begin(), p.log.end(), a.log.begin()), strf("the reports of the first %d epochs depend on how many follow", ep - 1));
		Rep &q = R.back(); bool usable = true; for (double v : pa) usable = usable && fin(v); if (!usable || !fin(q.cost)) { c.count("diverged"); return; }
		if (shown) { DV w = shown(*a.m); bool good = w.size() == q.nums.size(); for (size_t i = 0; good && i < w.size(); i++) good = std::fabs(w[i] - q.nums[i]) <= 2e-6 + 2e-6 * std::fabs(w[i]); c.check("parameters", good, "reported " + str(q.nums) + ", the model has " + str(w)); }
		if (per == 1 && kind != 'S' && before) for (size_t i = 1; i < R.size(); i++) { double w = R[i - 1].cost - R[i].cost; if (fin(w) && fin(R[i].cost)) c.check("decrease", std::fabs(R[i].dec - w) <= 1e-5 + 1e-5 * (std::fabs(R[i].cost) + std::fabs(w)), strf("reported decrease %.7g, from cost %.7g to %.7g", R[i].dec, R[i - 1].cost, R[i].cost)); }
		if (before) {
			// Steps that leave the model as it is (a learning rate of zero) lower nothing, in every batch.
			Got z = go(seed, 0, true); bool still = fixed && ok(pa, all(*z.m)); for (auto &x : R) still = still && x.nums == R[0].nums;
			if (still) { c.count("steps_without_effect", (int)R.size()); for (auto &x : R) c.check("decrease_without_step", std::fabs(x.dec) <= 2e-6 + 1e-6 * std::fabs(x.cost), strf("reported decrease %.7g of cost %.7g by a step that changed nothing", x.dec, x.cost)); }
		}
		if (cost) {
			const bool bef = fixed && before && per == 1;
			std::vector<Rows> cand; Rows every; for (int i = 0; i < n; i++) every.push_back(i);
			if (kind == 'S') for (int i = 0; i < n; i++) cand.push_back(Rows{ i }); else if (kind == 'B') cand.push_back(Rows(every.begin() + (per - 1) * (n / per), every.end())); else cand.push_back(every);
			bool hit = false, skip = false; std::string seen;
			for (auto &rows : cand) {
				double now = cost(*a.m, rows), was = bef ? cost(*p.m, rows) : 0; if (!fin(now) || !fin(was)) { skip = true; continue; }
				double t = 2e-5 + 1e-4 * (std::fabs(now) + std::fabs(was)); seen += strf(" cost %.7g decrease %.7g;", now, bef ? was - now : NAN);
				hit = hit || (std::fabs(q.cost - now) <= t && (!bef || std::fabs(q.dec - (was - now)) <= t));
				if (bef && std::fabs(was - now) > 4 * t) c.count("cost_moved");
			}
			if (!skip) c.check("cost", hit, strf("reported cost %.7g decrease %.7g, the model has", q.cost, q.dec) + seen);
		}
		c.check("errors", errors() == e0, "an error was logged"); c.count(name.c_str()); c.obs(hsh(hsh(hs(name), pa), (uint64_t)ep), true);
		if (r.chance(0.004)) c.sample(name + ": " + a.log[0]);
	}
};

struct Data { int n, k, o; DM X, Y; RM rx, ry; RV rv; RT_ g; double la, al; double lr; };
static const int REGS[] = { RG::REGULARIZATION_TYPE_NONE, RG::REGULARIZATION_TYPE_RIDGE, RG::REGULARIZATION_TYPE_LASSO, RG::REGULARIZATION_TYPE_ELASTIC_NET };
enum YK { Y_ANY, Y_01, Y_PM, Y_HOT };
static Data data(Rng &r, YK k, bool reg) {
	Data d; d.n = r.range(1, 8); d.k = r.range(1, 4); d.o = k == Y_HOT ? r.range(2, 4) : 1; d.X = DM(d.n, d.k); d.Y = DM(d.n, d.o); for (double &v : d.X.d) v = r.f(-1.5, 1.5);
	for (int i = 0; i < d.n; i++) if (k == Y_HOT) d.Y.at(i, r.range(0, d.o - 1)) = 1; else d.Y.at(i, 0) = k == Y_01 ? r.range(0, 1) : k == Y_PM ? 2 * r.range(0, 1) - 1 : r.f(-1.5, 1.5);
	d.rx = mkm(d.X); d.ry = mkm(d.Y); d.rv = mkv(d.Y.d); d.g = (RT_)(reg ? REGS[r.range(0, 3)] : 0); d.la = r.f(0.01, 0.2); d.al = r.f(0.1, 0.9); d.lr = r.chance(0.15) ? 0 : r.f(0.05, 0.3); return d;
}
static RM rowsm(const DM &m, const Rows &R) { DM o((int)R.size(), m.co); for (size_t i = 0; i < R.size(); i++) for (int j = 0; j < m.co; j++) o.at(i, j) = m.at(R[i], j); return mkm(o); }
static RV rowsv(const DM &m, const Rows &R) { DV o; for (int i : R) o.push_back(m.at(i, 0)); return mkv(o); }
static int batch_of(Rng &r, int n) { return r.chance(0.5) ? n : r.range(1, n); }

#define XREG(N) struct X##N : MLPP##N { using MLPP##N::MLPP##N; DV all() { DV o; put(o, _weights); o.push_back(_bias); return o; } }
XREG(LinReg); XREG(LogReg); XREG(ProbitReg); XREG(TanhReg); XREG(SVC);
struct XCLogLogReg : MLPPCLogLogReg { using MLPPCLogLogReg::MLPPCLogLogReg; DV all() { DV o; put(o, _weights); o.push_back(bias); return o; } };
struct XExpReg : MLPPExpReg { using MLPPExpReg::MLPPExpReg; DV all() { DV o; put(o, _weights); o.push_back(_bias); return o; } DV more() { DV o = all(); put(o, _initial); return o; } };
struct XSoftmaxReg : MLPPSoftmaxReg { using MLPPSoftmaxReg::MLPPSoftmaxReg; DV all() { DV o; put(o, _weights); put(o, _bias); return o; } RM w() { return _weights; } };
struct XSoftmaxNet : MLPPSoftmaxNet { using MLPPSoftmaxNet::MLPPSoftmaxNet; DV all() { DV o; put(o, _weights1); put(o, _bias1); put(o, _weights2); put(o, _bias2); return o; } };
struct XMlp : MLPPMLP { using MLPPMLP::MLPPMLP; DV all() { DV o; put(o, _weights1); put(o, _bias1); put(o, _weights2); o.push_back(_bias2); return o; } RM w1() { return _weights1; } RV w2() { return _weights2; } };
struct XAe : MLPPAutoEncoder { using MLPPAutoEncoder::MLPPAutoEncoder; DV all() { DV o; put(o, _weights1); put(o, _bias1); put(o, _weights2); put(o, _bias2); return o; } };
#define XNET(N) struct X##N : MLPP##N { using MLPP##N::MLPP##N; int nh() { return _network.size(); } Ref<MLPPHiddenLayer> h(int i) { return _network[i]; } Ref<MLPPOutputLayer> o() { return _output_layer; } \
	DV all() { DV q; put(q, _output_layer->get_weights()); q.push_back(_output_layer->get_bias()); for (int i = nh() - 1; i >= 0; i--) { Ref<MLPPHiddenLayer> l = _network[i]; put(q, l->get_weights()); put(q, l->get_bias()); } return q; } \
	double penalty() { MLPPReg g; Ref<MLPPOutputLayer> l = _output_layer; double s = g.reg_termv(l->get_weights(), l->get_lambda(), l->get_alpha(), l->get_reg()); for (int i = 0; i < nh(); i++) { Ref<MLPPHiddenLayer> q = _network[i]; s += g.reg_termm(q->get_weights(), q->get_lambda(), q->get_alpha(), q->get_reg()); } return s; } }
XNET(ANN);
struct XGAN : MLPPGAN { using MLPPGAN::MLPPGAN; int nh() { return _network.size(); } RV last() { return _y_hat; } DV all() { DV q; put(q, _output_layer->get_weights()); q.push_back(_output_layer->get_bias()); for (int i = nh() - 1; i >= 0; i--) { Ref<MLPPHiddenLayer> l = _network[i]; put(q, l->get_weights()); put(q, l->get_bias()); } return q; } double penalty() { MLPPReg g; Ref<MLPPOutputLayer> l = _output_layer; double s = g.reg_termv(l->get_weights(), l->get_lambda(), l->get_alpha(), l->get_reg()); for (int i = 0; i < nh(); i++) { Ref<MLPPHiddenLayer> q = _network[i]; s += g.reg_termm(q->get_weights(), q->get_lambda(), q->get_alpha(), q->get_reg()); } return s; } CO::CostTypes ct() { return _output_layer->get_cost(); } };
struct XWGAN : MLPPWGAN { using MLPPWGAN::MLPPWGAN; int nh() { return _network.size(); } RV last() { return _y_hat; } DV all() { DV q; put(q, _output_layer->get_weights()); q.push_back(_output_layer->get_bias()); for (int i = nh() - 1; i >= 0; i--) { Ref<MLPPHiddenLayer> l = _network[i]; put(q, l->get_weights()); put(q, l->get_bias()); } return q; } double penalty() { MLPPReg g; Ref<MLPPOutputLayer> l = _output_layer; double s = g.reg_termv(l->get_weights(), l->get_lambda(), l->get_alpha(), l->get_reg()); for (int i = 0; i < nh(); i++) { Ref<MLPPHiddenLayer> q = _network[i]; s += g.reg_termm(q->get_weights(), q->get_lambda(), q->get_alpha(), q->get_reg()); } return s; } CO::CostTypes ct() { return _output_layer->get_cost(); } };

template <class T> static void linear(Ctx &c, const std::string &nm, char kind, Data d, int batch, bool log, std::function<void(T &, int, bool)> tr, bool before = true) {
	Run<T> u; u.name = nm; u.kind = kind; u.n = d.n; u.batch = batch; u.before = before; u.make = [=] { return new T(d.rx, d.rv, d.g, d.la, d.al); }; u.train = tr; u.shown = [](T &m) { return m.all(); }; u.all = [](T &m) { return m.all(); };
	u.cost = [=](T &m, const Rows &R) { MLPPCost q; MLPPReg g; DV a = m.all(); a.pop_back(); RV p = m.model_set_test(rowsm(d.X, R)), y = rowsv(d.Y, R), w = mkv(DV(a.begin(), a.begin() + d.k)); return (log ? q.log_lossv(p, y) : q.msev(p, y)) + g.reg_termv(w, d.la, d.al, d.g); };
	u(c);
}
UNIT("M04", "reports.regression", 6000, 300000) {
	Rng &r = c.rng;
	switch (r.range(0, 5)) {
		case 0: {
			Data d = data(r, Y_ANY, true); int b = batch_of(r, d.n); real_t lr = d.lr, g = r.f(0.1, 0.9), b1 = r.f(0.1, 0.9), b2 = r.f(0.5, 0.99), e = 1e-2;
			switch (r.range(0, 10)) {
				case 0: linear<XLinReg>(c, "lin_reg.gradient_descent", 'F', d, 0, false, [=](XLinReg &m, int n, bool ui) { m.gradient_descent(lr, n, ui); }); break;
				case 1: linear<XLinReg>(c, "lin_reg.sgd", 'S', d, 0, false, [=](XLinReg &m, int n, bool ui) { m.sgd(lr, n, ui); }); break;
				case 2: linear<XLinReg>(c, "lin_reg.mbgd", 'B', d, b, false, [=](XLinReg &m, int n, bool ui) { m.mbgd(lr, n, b, ui); }); break;
				case 3: linear<XLinReg>(c, "lin_reg.momentum", 'B', d, b, false, [=](XLinReg &m, int n, bool ui) { m.momentum(lr, n, b, g, ui); }); break;
				case 4: linear<XLinReg>(c, "lin_reg.nag", 'B', d, b, false, [=](XLinReg &m, int n, bool ui) { m.nag(lr, n, b, g, ui); }, false); break;
				case 5: linear<XLinReg>(c, "lin_reg.adagrad", 'B', d, b, false, [=](XLinReg &m, int n, bool ui) { m.adagrad(lr, n, b, e, ui); }); break;
				case 6: linear<XLinReg>(c, "lin_reg.adadelta", 'B', d, b, false, [=](XLinReg &m, int n, bool ui) { m.adadelta(lr, n, b, b1, e, ui); }); break;
				case 7: linear<XLinReg>(c, "lin_reg.adam", 'B', d, b, false, [=](XLinReg &m, int n, bool ui) { m.adam(lr, n, b, b1, b2, e, ui); }); break;
				case 8: linear<XLinReg>(c, "lin_reg.adamax", 'B', d, b, false, [=](XLinReg &m, int n, bool ui) { m.adamax(lr, n, b, b1, b2, e, ui); }); break;
				case 9: linear<XLinReg>(c, "lin_reg.nadam", 'B', d, b, false, [=](XLinReg &m, int n, bool ui) { m.nadam(lr, n, b, b1, b2, e, ui); }); break;
				case 10: { for (int i = 0; i < d.n && i < d.k; i++) d.X.at(i, i) += d.X.at(i, i) < 0 ? -1.5 : 1.5; d.rx = mkm(d.X); DM G = mul(tr(d.X), d.X); if (d.n < d.k || std::fabs(det_d(G)) < 0.5) return; linear<XLinReg>(c, "lin_reg.newton_raphson", 'F', d, 0, false, [=](XLinReg &m, int n, bool ui) { m.newton_raphson(lr, n, ui); }); } break;
			}
		} break;
		case 1: {
			Data d = data(r, Y_01, true); int b = batch_of(r, d.n); real_t lr = d.lr;
			switch (r.range(0, 3)) {
				case 0: linear<XLogReg>(c, "log_reg.gradient_descent", 'F', d, 0, true, [=](XLogReg &m, int n, bool ui) { m.gradient_descent(lr, n, ui); }); break;
				case 1: linear<XLogReg>(c, "log_reg.mle", 'F', d, 0, true, [=](XLogReg &m, int n, bool ui) { m.mle(lr, n, ui); }); break;
				case 2: linear<XLogReg>(c, "log_reg.sgd", 'S', d, 0, true, [=](XLogReg &m, int n, bool ui) { m.sgd(lr, n, ui); }); break;
				case 3: linear<XLogReg>(c, "log_reg.mbgd", 'B', d, b, true, [=](XLogReg &m, int n, bool ui) { m.mbgd(lr, n, b, ui); }); break;
			}
		} break;
		case 2: {
			Data d = data(r, Y_01, true); int b = batch_of(r, d.n); real_t lr = d.lr;
			switch (r.range(0, 3)) {
				case 0: linear<XProbitReg>(c, "probit_reg.gradient_descent", 'F', d, 0, false, [=](XProbitReg &m, int n, bool ui) { m.train_gradient_descent(lr, n, ui); }); break;
				case 1: linear<XProbitReg>(c, "probit_reg.mle", 'F', d, 0, false, [=](XProbitReg &m, int n, bool ui) { m.train_mle(lr, n, ui); }); break;
				case 2: linear<XProbitReg>(c, "probit_reg.sgd", 'S', d, 0, false, [=](XProbitReg &m, int n, bool ui) { m.train_sgd(lr, n, ui); }); break;
				case 3: linear<XProbitReg>(c, "probit_reg.mbgd", 'B', d, b, false, [=](XProbitReg &m, int n, bool ui) { m.train_mbgd(lr, n, b, ui); }); break;
			}
		} break;
		case 3: {
			Data d = data(r, Y_ANY, true); int b = batch_of(r, d.n); real_t lr = d.lr;
			switch (r.range(0, 2)) {
				case 0: linear<XTanhReg>(c, "tanh_reg.gradient_descent", 'F', d, 0, false, [=](XTanhReg &m, int n, bool ui) { m.train_gradient_descent(lr, n, ui); }); break;
				case 1: linear<XTanhReg>(c, "tanh_reg.sgd", 'S', d, 0, false, [=](XTanhReg &m, int n, bool ui) { m.train_sgd(lr, n, ui); }); break;
				case 2: linear<XTanhReg>(c, "tanh_reg.mbgd", 'B', d, b, false, [=](XTanhReg &m, int n, bool ui) { m.train_mbgd(lr, n, b, ui); }); break;
			}
		} break;
		case 4: {
			Data d = data(r, Y_01, true); int b = batch_of(r, d.n); real_t lr = d.lr;
			switch (r.range(0, 3)) {
				case 0: linear<XCLogLogReg>(c, "c_log_log_reg.gradient_descent", 'F', d, 0, false, [=](XCLogLogReg &m, int n, bool ui) { m.gradient_descent(lr, n, ui); }); break;
				case 1: linear<XCLogLogReg>(c, "c_log_log_reg.mle", 'F', d, 0, false, [=](XCLogLogReg &m, int n, bool ui) { m.mle(lr, n, ui); }); break;
				case 2: linear<XCLogLogReg>(c, "c_log_log_reg.sgd", 'S', d, 0, false, [=](XCLogLogReg &m, int n, bool ui) { m.sgd(lr, n, ui); }); break;
				case 3: linear<XCLogLogReg>(c, "c_log_log_reg.mbgd", 'B', d, b, false, [=](XCLogLogReg &m, int n, bool ui) { m.mbgd(lr, n, b, ui); }); break;
			}
		} break;
		case 5: {
			Data d = data(r, Y_ANY, true); for (double &v : d.X.d) v = r.range(0, 2); d.rx = mkm(d.X); int b = batch_of(r, d.n); real_t lr = d.lr * 0.3;
			switch (r.range(0, 2)) {
				case 0: linear<XExpReg>(c, "exp_reg.gradient_descent", 'F', d, 0, false, [=](XExpReg &m, int n, bool ui) { m.gradient_descent(lr, n, ui); }); break;
				case 1: linear<XExpReg>(c, "exp_reg.sgd", 'S', d, 0, false, [=](XExpReg &m, int n, bool ui) { m.sgd(lr, n, ui); }); break;
				case 2: linear<XExpReg>(c, "exp_reg.mbgd", 'B', d, b, false, [=](XExpReg &m, int n, bool ui) { m.mbgd(lr, n, b, ui); }); break;
			}
		} break;
	}
}
UNIT("M04", "reports.classifier", 4000, 200000) {
	Rng &r = c.rng;
	switch (r.range(0, 3)) {
		case 0: {
			Data d = data(r, Y_PM, false); int w = r.range(0, 2); real_t lr = d.lr, C = r.f(0.2, 2); Run<XSVC> u; u.n = d.n; u.batch = batch_of(r, d.n); int b = u.batch; u.kind = "FSB"[w]; u.name = std::string("svc.") + (w == 0 ? "gradient_descent" : w == 1 ? "sgd" : "mbgd");
			u.make = [=] { return new XSVC(d.rx, d.rv, C); }; u.train = [=](XSVC &m, int n, bool ui) { if (w == 0) m.train_gradient_descent(lr, n, ui); else if (w == 1) m.train_sgd(lr, n, ui); else m.train_mbgd(lr, n, b, ui); }; u.shown = u.all = [](XSVC &m) { return m.all(); };
			u.cost = [=](XSVC &m, const Rows &R) { MLPPCost q; DV a = m.all(), z; for (int i : R) { double s = a[d.k]; for (int j = 0; j < d.k; j++) s += a[j] * d.X.at(i, j); z.push_back(s); } return (double)q.hinge_losswv(mkv(z), rowsv(d.Y, R), mkv(DV(a.begin(), a.begin() + d.k)), C); };
			u(c);
		} break;
		case 1: {
			Data d = data(r, Y_HOT, true); int w = r.range(0, 2); real_t lr = d.lr; Run<XSoftmaxReg> u; u.n = d.n; u.batch = batch_of(r, d.n); int b = u.batch; u.kind = "FSB"[w]; u.name = std::string("softmax_reg.") + (w == 0 ? "gradient_descent" : w == 1 ? "sgd" : "mbgd");
			u.make = [=] { return new XSoftmaxReg(d.rx, d.ry, d.g, d.la, d.al); }; u.train = [=](XSoftmaxReg &m, int n, bool ui) { if (w == 0) m.train_gradient_descent(lr, n, ui); else if (w == 1) m.train_sgd(lr, n, ui); else m.train_mbgd(lr, n, b, ui); }; u.shown = u.all = [](XSoftmaxReg &m) { return m.all(); };
			u.cost = [=](XSoftmaxReg &m, const Rows &R) { MLPPCost q; MLPPReg g; return (double)q.cross_entropym(m.model_set_test(rowsm(d.X, R)), rowsm(d.Y, R)) + g.reg_termm(m.w(), d.la, d.al, d.g); };
			u(c);
		} break;
		case 2: {
			Data d = data(r, Y_PM, false); real_t lr = d.lr, C = r.f(0.3, 2); Run<MLPPDualSVC> u; u.n = d.n; u.name = "dual_svc.gradient_descent"; u.make = [=] { return new MLPPDualSVC(d.rx, d.rv, C); }; u.train = [=](MLPPDualSVC &m, int n, bool ui) { m.gradient_descent(lr, n, ui); };
			u.shown = u.all = [](MLPPDualSVC &m) { DV o; put(o, m.vp_alpha()); o.push_back(m.vp_bias()); return o; };
			u.cost = [=](MLPPDualSVC &m, const Rows &) { MLPPCost q; return (double)q.dual_form_svm(m.vp_alpha(), d.rx, d.rv); };
			u(c);
		} break;
		case 3: {
			int n = r.range(2, 8), k = r.range(1, std::min(3, n)); Data d = data(r, Y_ANY, false); d.n = n; d.X = DM(n, d.k); for (double &v : d.X.d) v = r.f(-3, 3); d.rx = mkm(d.X); MLPPKMeans::MeanType t = r.chance(0.5) ? MLPPKMeans::MEAN_TYPE_CENTROID : MLPPKMeans::MEAN_TYPE_KMEANSPP;
			Run<MLPPKMeans> u; u.n = n; u.fixed = false; u.name = "kmeans.train"; u.make = [=] { auto *m = new MLPPKMeans(); m->set_input_set(d.rx); m->set_k(k); m->set_mean_type(t); return m; }; u.train = [=](MLPPKMeans &m, int e, bool ui) { m.train(e, ui); };
			u.all = [=](MLPPKMeans &m) { DV o; put(o, m.model_set_test(d.rx)); o.push_back(m.score()); return o; };
			// the score is judged by K02: the sum of squared distances to the centre each sample is assigned to
			u.cost = [](MLPPKMeans &m, const Rows &) { return (double)m.score(); };
			u(c);
		} break;
	}
}
static const std::vector<int> ACTS = { AC::ACTIVATION_FUNCTION_LINEAR, AC::ACTIVATION_FUNCTION_SIGMOID, AC::ACTIVATION_FUNCTION_TANH, AC::ACTIVATION_FUNCTION_SOFTPLUS, AC::ACTIVATION_FUNCTION_SWISH, AC::ACTIVATION_FUNCTION_ARSINH };
UNIT("M04", "reports.network", 5000, 250000) {
	Rng &r = c.rng; int hid = r.range(1, 3);
	switch (r.range(0, 6)) {
		case 0: {
			Data d = data(r, Y_01, true); int w = r.range(0, 2); real_t lr = d.lr; Run<XMlp> u; u.n = d.n; u.batch = batch_of(r, d.n); int b = u.batch; u.kind = "FSB"[w]; u.name = std::string("mlp.") + (w == 0 ? "gradient_descent" : w == 1 ? "sgd" : "mbgd"); u.layers = { 1, 2 };
			u.make = [=] { return new XMlp(d.rx, d.rv, hid, d.g, d.la, d.al); }; u.train = [=](XMlp &m, int n, bool ui) { if (w == 0) m.gradient_descent(lr, n, ui); else if (w == 1) m.sgd(lr, n, ui); else m.mbgd(lr, n, b, ui); }; u.shown = u.all = [](XMlp &m) { return m.all(); };
			u.cost = [=](XMlp &m, const Rows &R) { MLPPCost q; MLPPReg g; return (double)q.log_lossv(m.model_set_test(rowsm(d.X, R)), rowsv(d.Y, R)) + g.reg_termm(m.w1(), d.la, d.al, d.g) + g.reg_termv(m.w2(), d.la, d.al, d.g); };
			u(c);
		} break;
		case 1: {
			Data d = data(r, Y_HOT, true); int w = r.range(0, 2); real_t lr = d.lr; Run<XSoftmaxNet> u; u.n = d.n; u.batch = batch_of(r, d.n); int b = u.batch; u.kind = "FSB"[w]; u.name = std::string("softmax_net.") + (w == 0 ? "gradient_descent" : w == 1 ? "sgd" : "mbgd"); u.layers = { 1, 2 };
			u.make = [=] { return new XSoftmaxNet(d.rx, d.ry, hid, d.g, d.la, d.al); }; u.train = [=](XSoftmaxNet &m, int n, bool ui) { if (w == 0) m.train_gradient_descent(lr, n, ui); else if (w == 1) m.train_sgd(lr, n, ui); else m.train_mbgd(lr, n, b, ui); }; u.shown = u.all = [](XSoftmaxNet &m) { return m.all(); };
			u.cost = [=](XSoftmaxNet &m, const Rows &R) { MLPPCost q; MLPPReg g; return (double)q.cross_entropym(m.model_set_test(rowsm(d.X, R)), rowsm(d.Y, R)) + g.reg_termm(m.data_weights1_get(), d.la, d.al, d.g) + g.reg_termm(m.data_weights2_get(), d.la, d.al, d.g); };
			u(c);
		} break;
		case 2: {
			Data d = data(r, Y_ANY, false); int w = r.range(0, 2); real_t lr = d.lr; Run<XAe> u; u.n = d.n; u.batch = batch_of(r, d.n); int b = u.batch; u.kind = "FSB"[w]; u.name = std::string("auto_encoder.") + (w == 0 ? "gradient_descent" : w == 1 ? "sgd" : "mbgd"); u.layers = { 1, 2 };
			u.make = [=] { return new XAe(d.rx, hid); }; u.train = [=](XAe &m, int n, bool ui) { if (w == 0) m.gradient_descent(lr, n, ui); else if (w == 1) m.sgd(lr, n, ui); else m.mbgd(lr, n, b, ui); }; u.shown = u.all = [](XAe &m) { return m.all(); };
			u.cost = [=](XAe &m, const Rows &R) { MLPPCost q; RM x = rowsm(d.X, R); return (double)q.msem(m.model_set_test(x), x); };
			u(c);
		} break;
		case 3: case 4: {
			bool log = r.chance(0.4); Data d = data(r, log ? Y_01 : Y_ANY, true); int L = r.range(0, 2), w = r.range(0, 9); std::vector<int> ac, hs_, rg; for (int i = 0; i <= L; i++) { ac.push_back(i == L && log ? (int)AC::ACTIVATION_FUNCTION_SIGMOID : r.pick(ACTS)); hs_.push_back(r.range(1, 3)); rg.push_back(REGS[r.range(0, 3)]); }
			CO::CostTypes ct = log ? CO::COST_TYPE_LOGISTIC_LOSS : CO::COST_TYPE_MSE; int sch = r.chance(0.5) ? 0 : r.range(1, 4); real_t lr = d.lr, g = r.f(0.1, 0.8), b1 = r.f(0.1, 0.9), b2 = r.f(0.5, 0.99), e = 1e-2, dk = r.f(0.3, 0.9); bool nag = r.chance(0.5);
			Run<XANN> u; u.n = d.n; u.batch = batch_of(r, d.n); int b = u.batch; u.kind = w == 0 ? 'F' : w == 1 ? 'S' : 'B'; static const char *NM[] = { "gradient_descent", "sgd", "mbgd", "momentum", "adagrad", "adadelta", "adam", "adamax", "nadam", "amsgrad" }; u.name = std::string("ann.") + NM[w]; u.before = !(w == 3 && nag); for (int i = L + 1; i >= 1; i--) u.layers.push_back(i);
			u.make = [=] { auto *m = new XANN(d.rx, d.rv); for (int i = 0; i < L; i++) m->add_layer(hs_[i], (AC::ActivationFunction)ac[i], MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT, (RT_)rg[i], d.la, d.al); m->add_output_layer((AC::ActivationFunction)ac[L], ct, MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT, (RT_)rg[L], d.la, d.al); if (sch) m->set_learning_rate_scheduler_drop((MLPPANN::SchedulerType)sch, dk, 2); return m; };
			u.train = [=](XANN &m, int n, bool ui) { switch (w) { case 0: m.gradient_descent(lr, n, ui); break; case 1: m.sgd(lr, n, ui); break; case 2: m.mbgd(lr, n, b, ui); break; case 3: m.momentum(lr, n, b, g, nag, ui); break; case 4: m.adagrad(lr, n, b, e, ui); break; case 5: m.adadelta(lr, n, b, b1, e, ui); break; case 6: m.adam(lr, n, b, b1, b2, e, ui); break; case 7: m.adamax(lr, n, b, b1, b2, e, ui); break; case 8: m.nadam(lr, n, b, b1, b2, e, ui); break; default: m.amsgrad(lr, n, b, b1, b2, e, ui); } };
			u.shown = u.all = [](XANN &m) { return m.all(); }; u.cost = [=](XANN &m, const Rows &R) { MLPPCost q; return (double)q.run_cost_norm_vector(ct, m.model_set_test(rowsm(d.X, R)), rowsv(d.Y, R)) + m.penalty(); };
			u(c);
		} break;
		case 5: {
			bool hot = r.chance(0.5); Data d = data(r, Y_HOT, true); int L = r.range(0, 2); std::vector<int> ac, hs_, rg; for (int i = 0; i <= L; i++) { ac.push_back(i == L && hot ? (int)AC::ACTIVATION_FUNCTION_SOFTMAX : r.pick(ACTS)); hs_.push_back(r.range(1, 3)); rg.push_back(REGS[r.range(0, 3)]); }
			CO::CostTypes ct = hot ? CO::COST_TYPE_CROSS_ENTROPY : CO::COST_TYPE_MSE; real_t lr = d.lr; Run<MLPPMANN> u; u.n = d.n; u.name = "mann.gradient_descent"; for (int i = L + 1; i >= 1; i--) u.layers.push_back(i);
			u.make = [=] { auto *m = new MLPPMANN(d.rx, d.ry); for (int i = 0; i < L; i++) m->add_layer(hs_[i], (AC::ActivationFunction)ac[i], MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT, (RT_)rg[i], d.la, d.al); m->add_output_layer((AC::ActivationFunction)ac[L], ct, MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT, (RT_)rg[L], d.la, d.al); return m; };
			u.train = [=](MLPPMANN &m, int n, bool ui) { m.gradient_descent(lr, n, ui); };
			u.shown = u.all = [](MLPPMANN &m) { DV q; Ref<MLPPMultiOutputLayer> o = m.vp_output_layer(); put(q, o->get_weights()); put(q, o->get_bias()); auto h = m.vp_network(); for (int i = h.size() - 1; i >= 0; i--) { Ref<MLPPHiddenLayer> l = h[i]; put(q, l->get_weights()); put(q, l->get_bias()); } return q; };
			u.cost = [=](MLPPMANN &m, const Rows &R) { MLPPCost q; MLPPReg g; Ref<MLPPMultiOutputLayer> o = m.vp_output_layer(); double s = q.run_cost_norm_matrix(ct, m.model_set_test(rowsm(d.X, R)), rowsm(d.Y, R)) + g.reg_termm(o->get_weights(), o->get_lambda(), o->get_alpha(), o->get_reg()); auto h = m.vp_network(); for (int i = 0; i < h.size(); i++) { Ref<MLPPHiddenLayer> l = h[i]; s += g.reg_termm(l->get_weights(), l->get_lambda(), l->get_alpha(), l->get_reg()); } return s; };
			u(c);
		} break;
		case 6: {
			bool wg = r.chance(0.5); int n = r.range(2, 5), k = r.range(1, 3), wd = r.range(1, 3), L = 3; DM X(n, wd); for (double &v : X.d) v = r.f(-1, 1); RM rx = mkm(X); real_t lr = r.f(0.01, 0.1), la = r.f(0.01, 0.2), al = r.f(0.1, 0.9); std::vector<int> ac, rg; for (int i = 0; i <= L; i++) { ac.push_back(r.chance(0.5) ? AC::ACTIVATION_FUNCTION_TANH : AC::ACTIVATION_FUNCTION_SIGMOID); rg.push_back(REGS[r.range(0, 3)]); }
			const WD W0 = MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT; std::vector<int> ly; for (int i = L + 1; i >= 1; i--) ly.push_back(i); const int h0 = r.range(1, 3), h2 = r.range(1, 3);
			// three hidden layers: two of the generator (the second as wide as the samples), one of the discriminator
			if (wg) { Run<XWGAN> u; u.n = n; u.name = "wgan.gradient_descent"; u.layers = ly; u.before = false; u.make = [=] { auto *m = new XWGAN(k, rx); m->create_layer(h0, (AC::ActivationFunction)ac[0], W0, (RT_)rg[0], la, al); m->create_layer(wd, (AC::ActivationFunction)ac[1], W0, (RT_)rg[1], la, al); m->create_layer(h2, (AC::ActivationFunction)ac[2], W0, (RT_)rg[2], la, al); m->add_output_layer(W0, (RT_)rg[3], la, al); return m; }; u.train = [=](XWGAN &m, int e, bool ui) { m.gradient_descent(lr, e, ui); }; u.shown = u.all = [](XWGAN &m) { return m.all(); }; u.cost = [=](XWGAN &m, const Rows &) { MLPPCost q; return (double)q.run_cost_norm_vector(m.ct(), m.last(), MLPPVector::create_vec_one(n)) + m.penalty(); }; u(c); }
			else { Run<XGAN> u; u.n = n; u.name = "gan.gradient_descent"; u.layers = ly; u.before = false; u.make = [=] { auto *m = new XGAN(k, rx); m->add_layer(h0, (AC::ActivationFunction)ac[0], W0, (RT_)rg[0], la, al); m->add_layer(wd, (AC::ActivationFunction)ac[1], W0, (RT_)rg[1], la, al); m->add_layer(h2, (AC::ActivationFunction)ac[2], W0, (RT_)rg[2], la, al); m->add_output_layer(W0, (RT_)rg[3], la, al); return m; }; u.train = [=](XGAN &m, int e, bool ui) { m.gradient_descent(lr, e, ui); }; u.shown = u.all = [](XGAN &m) { return m.all(); }; u.cost = [=](XGAN &m, const Rows &) { MLPPCost q; return (double)q.run_cost_norm_vector(m.ct(), m.last(), MLPPVector::create_vec_one(n)) + m.penalty(); }; u(c); }
		} break;
	}
}
