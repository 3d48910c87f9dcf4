// M05: a model put together property by property is the model its one-step constructor would have built.
#include "vh.h"
#include "modules/c_log_log_reg/c_log_log_reg.h"
#include "modules/dual_svc/dual_svc.h"
#include "modules/exp_reg/exp_reg.h"
#include "modules/gaussian_nb/gaussian_nb.h"
#include "modules/hidden_layer/hidden_layer.h"
#include "modules/lin_reg/lin_reg.h"
#include "modules/log_reg/log_reg.h"
#include "modules/mann/mann.h"
#include "modules/mlp/mlp.h"
#include "modules/multi_output_layer/multi_output_layer.h"
#include "modules/multinomial_nb/multinomial_nb.h"
#include "modules/output_layer/output_layer.h"
#include "modules/pca/pca.h"
#include "modules/probit_reg/probit_reg.h"
#include "modules/softmax_net/softmax_net.h"
#include "modules/softmax_reg/softmax_reg.h"
#include "modules/svc/svc.h"
#include "modules/tanh_reg/tanh_reg.h"
#include "modules/uni_lin_reg/uni_lin_reg.h"
#include "modules/wgan/wgan.h"
#include <algorithm>
typedef MLPPActivation AC;
typedef MLPPCost CO;
typedef MLPPReg::RegularizationType RT_;
typedef MLPPUtilities::WeightDistributionType WD;
typedef std::function<void()> Fn;

static DV flat(const RV &v) { return v.is_valid() ? dv(v) : DV{ -12345 }; }
static DV flat(const RM &m) { if (!m.is_valid()) return DV{ -12345 }; DV o = dm(m).d; o.push_back(m->size().x); o.push_back(m->size().y); return o; }
static DV flat(double d) { return DV{ d }; }
static void cat(DV &) {}
template <class A, class... R> static void cat(DV &o, const A &a, const R &...r) { DV x = flat(a); o.insert(o.end(), x.begin(), x.end()); cat(o, r...); }
template <class... R> static DV all(const R &...r) { DV o; cat(o, r...); return o; }
static bool same(const DV &a, const DV &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i] && !(std::isnan(a[i]) && std::isnan(b[i]))) return false; return true; }
static void sameck(Ctx &c, const char *k, const DV &got, const DV &want, const std::string &what) { c.check(k, same(got, want), what + ": assembled " + str(got) + ", built at once " + str(want)); }
static void shuffle(Rng &r, std::vector<Fn> &v) { for (int i = (int)v.size() - 1; i > 0; i--) std::swap(v[i], v[r.range(0, i)]); }
static RM rmat(Rng &r, int n, int k, double s = 2) { DM m(n, k); for (auto &v : m.d) v = r.f(-s, s); return mkm(m); }
static RV rvec(Rng &r, int n, double s = 2) { DV v(n); for (auto &x : v) x = r.f(-s, s); return mkv(v); }
static RV labels(Rng &r, int n, double lo, double hi) { DV v(n); for (auto &x : v) x = r.chance(0.5) ? lo : hi; return mkv(v); }
static RM onehot(Rng &r, int n, int k) { DM m(n, k); for (int i = 0; i < n; i++) m.at(i, r.range(0, k - 1)) = 1; return mkm(m); }
static RT_ rreg(Rng &r) { return (RT_)r.range(0, 4); }
static double acc(const DV &p, const DV &y) { double k = 0; for (size_t i = 0; i < y.size(); i++) k += std::round(p[i]) == y[i]; return k / y.size(); }
static double accm(const DM &p, const DM &y) { double k = 0; for (int i = 0; i < y.r; i++) { bool q = true; for (int j = 0; j < y.co; j++) q = q && std::round(p.at(i, j)) == y.at(i, j); k += q; } return k / y.r; }
template <class F> static void seeded(uint64_t s, F f) { thread_entropy(s); Math::seed(s); f(); thread_entropy(0); }
// Runs f, which has to be refused: an error is reported and the model's state stays as it was.
static void refused(Ctx &c, const char *what, Fn f, std::function<DV()> state) {
	DV was = state(); long e = errors(); f();
	c.check("unfinished_model_used", errors() > e, std::string(what) + " of a model that is not complete was not refused");
	c.check("refusal_changed_model", same(state(), was), std::string(what) + " was refused but changed the model"); c.count("refused");
}

// What the five regression/classification models that can be completed later have in common.
template <class T> struct Late {
	std::string name; std::function<T *()> full; std::vector<std::function<void(T &, bool)>> sets; std::function<bool(T &)> getters_ok;
	std::function<DV(T &)> params; std::function<void(T &)> train, predict_one; std::function<DV(T &)> predict; std::function<double(T &, const DV &)> score; std::function<void(T &)> score_only; int needed = 2; bool other_shape = false;
	void operator()(Ctx &c) {
		Rng &r = c.rng; c.label(name); const uint64_t seed = r.next() | 1; std::unique_ptr<T> a, b(new T());
		seeded(seed, [&] { a.reset(full()); });
		std::vector<Fn> todo; int done = 0;
		for (int i = 0; i < (int)sets.size(); i++) todo.push_back([&, i] { if (r.chance(0.2)) sets[i](*b, false); sets[i](*b, true); done += i < needed; });
		shuffle(r, todo);
		auto st = [&] { return params(*b); };
		for (auto &f : todo) {
			c.check("ready_too_early", b->needs_init(), "claims to be complete before it was completed");
			if (r.chance(0.3)) { if (done < needed) refused(c, "initialize", [&] { b->initialize(); }, st); switch (r.range(0, 2)) { case 0: refused(c, "training", [&] { train(*b); }, st); break; case 1: refused(c, "predicting", [&] { predict_one(*b); }, st); break; default: refused(c, "scoring", [&] { score_only(*b); }, st); } }
			f();
		}
		c.check("getters", getters_ok(*b), "a property does not hold the value it was given");
		c.check("ready_too_early", b->needs_init(), "claims to be complete before it was completed");
		const long e0 = errors(); seeded(seed, [&] { b->initialize(); });
		c.check("completed", !b->needs_init() && !a->needs_init(), "not complete after it was completed");
		sameck(c, "start", params(*b), params(*a), "initial parameters");
		if (r.chance(0.5)) { DV p = predict(*b); c.eq("untrained_score", score(*b, p), score(*a, p), 0, 0); }
		const uint64_t s2 = r.next() | 1; int rounds = r.range(1, 2);
		for (int i = 0; i < rounds; i++) {
			seeded(s2 + i, [&] { train(*a); }); seeded(s2 + i, [&] { train(*b); });
			sameck(c, "trained", params(*b), params(*a), "parameters after training"); sameck(c, "predictions", predict(*b), predict(*a), "predictions");
		}
		c.check("errors", errors() == e0, "an error was reported for a complete model");
		// another data set later: a model whose parameters no longer fit it is not ready, and can be completed again
		if (other_shape && r.chance(0.5)) {
			c.label(name + ".new_data"); sets[0](*b, false); c.check("ready_with_other_data", b->needs_init(), "claims to be complete although its parameters do not fit the data it was given");
			if (r.chance(0.5)) refused(c, "training", [&] { train(*b); }, st);
			if (r.chance(0.5)) { b->initialize(); sets[0](*b, true); c.check("ready_with_other_data", b->needs_init(), "claims to be complete although its parameters do not fit the data it was given"); }
			sets[0](*b, true); const long e1 = errors(); std::unique_ptr<T> d; seeded(seed, [&] { d.reset(full()); }); seeded(seed, [&] { b->initialize(); }); c.check("completed", !b->needs_init(), "not complete after it was completed again");
			sameck(c, "start_again", params(*b), params(*d), "parameters after completing it again"); seeded(s2, [&] { train(*d); }); seeded(s2, [&] { train(*b); }); sameck(c, "trained_again", params(*b), params(*d), "parameters after training again"); c.check("errors", errors() == e1, "an error was reported for a complete model"); c.count("new_data");
		}
		DV p = params(*b); uint64_t h = hs(name); for (double v : p) h = hsh(h, v); c.obs(h, true);
	}
};
#define SETS(T, ...) { [=](T &m, bool ok) __VA_ARGS__ }

template <class T> static void linear(Ctx &c, const char *name, double lo, double hi, std::function<void(T &, int)> tr, std::function<double(double)> act) {
	Rng &r = c.rng; const int n = r.range(1, 6), k = r.range(1, 4); RM X = rmat(r, n, k), X2 = rmat(r, r.range(1, 5), r.range(1, 4)); RV y = labels(r, n, lo, hi), y2 = labels(r, r.range(1, 5), lo, hi), one = rvec(r, k);
	RT_ g = rreg(r); double lam = r.f(0, 0.5), al = r.f(0, 1); const int how = r.range(0, 9);
	Late<T> L; L.name = name; L.full = [=] { return new T(X, y, g, lam, al); };
	L.other_shape = X->size() != X2->size(); L.sets = { [=](T &m, bool ok) { m.set_input_set(ok ? X : X2); }, [=](T &m, bool ok) { m.set_output_set(ok ? y : y2); }, [=](T &m, bool ok) { m.set_reg(ok ? g : MLPPReg::REGULARIZATION_TYPE_LASSO); }, [=](T &m, bool ok) { m.set_lambda(ok ? lam : 7); }, [=](T &m, bool ok) { m.set_alpha(ok ? al : 7); } };
	L.getters_ok = [=](T &m) { return m.get_input_set().ptr() == X.ptr() && m.get_output_set().ptr() == y.ptr() && m.get_reg() == g && m.get_lambda() == lam && m.get_alpha() == al; };
	L.params = [](T &m) { return all(m.data_weights_get(), m.data_bias_get()); };
	L.train = [=](T &m) { tr(m, how); };
	L.predict = [=](T &m) { DV p = flat(m.model_set_test(X)); p.push_back(m.model_test(one)); return p; };
	L.predict_one = [=](T &m) { m.model_test(one); };
	L.score_only = [](T &m) { m.score(); };
	L.score = [](T &m, const DV &) { return m.score(); };
	L(c);
	// parameters handed in replace the trained ones
	std::unique_ptr<T> m; seeded(r.next() | 1, [&] { m.reset(new T(X, y, g, lam, al)); }); RV w = rvec(r, k, 1), o = rvec(r, k, 1); double b = r.f(-1, 1); m->data_weights_set(w); m->data_bias_set(b);
	c.check("getters", m->data_weights_get().ptr() == w.ptr() && m->data_bias_get() == b, "the parameters handed in");
	DV want, got = flat(m->model_set_test(X)); for (int i = 0; i < n; i++) { double z = b; for (int j = 0; j < k; j++) z += X->element_get(i, j) * w->element_get(j); want.push_back(act(z)); }
	for (int i = 0; i < n; i++) c.eq("handed_in_parameters", got[i], want[i], 1e-6, 1e-6);
	double z = b; for (int j = 0; j < k; j++) z += o->element_get(j) * w->element_get(j); c.eq("handed_in_parameters", m->model_test(o), act(z), 1e-6, 1e-6);
	c.eq("score_of_parameters", m->score(), acc(got, dv(y)), 1e-6, 1e-6);
	RV none; RV zz = rvec(r, n), yy = rvec(r, n); m->data_z_set(zz); m->data_y_hat_set(yy); c.check("getters", m->data_z_get().ptr() == zz.ptr() && m->data_y_hat_get().ptr() == yy.ptr(), "z and y_hat");
}
UNIT("M05", "late.linear", 2500, 120000) {
	switch (c.rng.range(0, 1)) {
		case 0: linear<MLPPProbitReg>(c, "probit", 0, 1, [](MLPPProbitReg &m, int h) { h % 4 == 0 ? m.train_gradient_descent(0.05, 3) : h % 4 == 1 ? m.train_mle(0.05, 3) : h % 4 == 2 ? m.train_sgd(0.05, 5) : m.train_mbgd(0.05, 3, 1); }, [](double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }); break;
		default: linear<MLPPTanhReg>(c, "tanh", -1, 1, [](MLPPTanhReg &m, int h) { h % 3 == 0 ? m.train_gradient_descent(0.05, 3) : h % 3 == 1 ? m.train_sgd(0.05, 5) : m.train_mbgd(0.05, 3, 1); }, [](double z) { return std::tanh(z); });
	}
}
UNIT("M05", "late.svc", 1200, 60000) {
	typedef MLPPSVC T; Rng &r = c.rng; const int n = r.range(1, 6), k = r.range(1, 4); RM X = rmat(r, n, k), X2 = rmat(r, r.range(1, 5), r.range(1, 4)); RV y = labels(r, n, -1, 1), y2 = labels(r, 3, -1, 1), one = rvec(r, k); double C = r.f(0.1, 2); const int how = r.range(0, 2);
	Late<T> L; L.name = "svc"; L.full = [=] { return new T(X, y, C); };
	L.other_shape = X->size() != X2->size(); L.sets = { [=](T &m, bool ok) { m.set_input_set(ok ? X : X2); }, [=](T &m, bool ok) { m.set_output_set(ok ? y : y2); }, [=](T &m, bool ok) { m.set_c(ok ? C : 9); } };
	L.getters_ok = [=](T &m) { return m.get_input_set().ptr() == X.ptr() && m.get_output_set().ptr() == y.ptr() && m.get_c() == C; };
	L.params = [](T &m) { return all(m.data_weights_get(), m.data_bias_get()); };
	L.train = [=](T &m) { how == 0 ? m.train_gradient_descent(0.05, 3) : how == 1 ? m.train_sgd(0.05, 5) : m.train_mbgd(0.05, 3, 1); };
	L.predict = [=](T &m) { DV p = flat(m.model_set_test(X)); p.push_back(m.model_test(one)); return p; };
	L.predict_one = [=](T &m) { m.model_test(one); };
	L.score_only = [](T &m) { m.score(); };
	L.score = [](T &m, const DV &) { return m.score(); };
	L(c);
	std::unique_ptr<T> m; seeded(r.next() | 1, [&] { m.reset(new T(X, y, C)); }); RV w = rvec(r, k, 1); double b = r.f(-1, 1); m->data_weights_set(w); m->data_bias_set(b);
	DV got = flat(m->model_set_test(X)); for (int i = 0; i < n; i++) { double z = b; for (int j = 0; j < k; j++) z += X->element_get(i, j) * w->element_get(j); if (std::fabs(z) > 1e-9) c.eq("handed_in_parameters", got[i], z > 0 ? 1 : -1, 0, 0); }
	c.eq("score_of_parameters", m->score(), acc(got, dv(y)), 1e-6, 1e-6);
}
UNIT("M05", "late.softmax", 1500, 80000) {
	Rng &r = c.rng; const int n = r.range(1, 6), k = r.range(1, 4), q = r.range(2, 4), h = r.range(1, 4), how = r.range(0, 2); RM X = rmat(r, n, k), X2 = rmat(r, r.range(1, 5), r.range(1, 4)); RM Y = onehot(r, n, q), Y2 = onehot(r, 3, 2); RV one = rvec(r, k); RT_ g = rreg(r); double lam = r.f(0, 0.5), al = r.f(0, 1);
	if (r.chance(0.5)) {
		typedef MLPPSoftmaxReg T; Late<T> L; L.name = "softmax_reg"; L.full = [=] { return new T(X, Y, g, lam, al); };
		L.other_shape = X->size() != X2->size(); L.sets = { [=](T &m, bool ok) { m.set_input_set(ok ? X : X2); }, [=](T &m, bool ok) { m.set_output_set(ok ? Y : Y2); }, [=](T &m, bool ok) { m.set_reg(ok ? g : MLPPReg::REGULARIZATION_TYPE_LASSO); }, [=](T &m, bool ok) { m.set_lambda(ok ? lam : 7); }, [=](T &m, bool ok) { m.set_alpha(ok ? al : 7); } };
		L.getters_ok = [=](T &m) { return m.get_input_set().ptr() == X.ptr() && m.get_output_set().ptr() == Y.ptr() && m.get_reg() == g && m.get_lambda() == lam && m.get_alpha() == al; };
		L.params = [](T &m) { return all(m.data_weights_get(), m.data_bias_get()); };
		L.train = [=](T &m) { how == 0 ? m.train_gradient_descent(0.05, 3) : how == 1 ? m.train_sgd(0.05, 5) : m.train_mbgd(0.05, 3, 1); };
		L.predict = [=](T &m) { DV p = flat(m.model_set_test(X)); DV s = flat(m.model_test(one)); p.insert(p.end(), s.begin(), s.end()); return p; };
		L.predict_one = [=](T &m) { m.model_test(one); };
		L.score_only = [](T &m) { m.score(); };
		L.score = [](T &m, const DV &) { return m.score(); };
		L(c);
		std::unique_ptr<T> m; seeded(r.next() | 1, [&] { m.reset(new T(X, Y, g, lam, al)); }); RM w = rmat(r, k, q, 1); RV b = rvec(r, q, 1); m->data_weights_set(w); m->data_bias_set(b);
		DM got = dm(m->model_set_test(X)); for (int i = 0; i < n; i++) { DV z(q); double s = 0; for (int j = 0; j < q; j++) { z[j] = b->element_get(j); for (int t = 0; t < k; t++) z[j] += X->element_get(i, t) * w->element_get(t, j); s += std::exp(z[j]); } for (int j = 0; j < q; j++) c.eq("handed_in_parameters", got.at(i, j), std::exp(z[j]) / s, 1e-6, 1e-6); }
		c.eq("score_of_parameters", m->score(), accm(got, dm(Y)), 1e-6, 1e-6);
	} else {
		typedef MLPPSoftmaxNet T; Late<T> L; L.name = "softmax_net"; L.full = [=] { return new T(X, Y, h, g, lam, al); }; L.needed = 2;
		L.other_shape = X->size() != X2->size(); L.sets = { [=](T &m, bool ok) { m.set_input_set(ok ? X : X2); }, [=](T &m, bool ok) { m.set_output_set(ok ? Y : Y2); }, [=](T &m, bool ok) { m.set_n_hidden(ok ? h : h + 1); }, [=](T &m, bool ok) { m.set_reg(ok ? g : MLPPReg::REGULARIZATION_TYPE_LASSO); }, [=](T &m, bool ok) { m.set_lambda(ok ? lam : 7); }, [=](T &m, bool ok) { m.set_alpha(ok ? al : 7); } };
		L.getters_ok = [=](T &m) { return m.get_input_set().ptr() == X.ptr() && m.get_output_set().ptr() == Y.ptr() && m.get_n_hidden() == h && m.get_reg() == g && m.get_lambda() == lam && m.get_alpha() == al; };
		L.params = [](T &m) { return all(m.data_weights1_get(), m.data_bias1_get(), m.data_weights2_get(), m.data_bias2_get()); };
		L.train = [=](T &m) { how == 0 ? m.train_gradient_descent(0.05, 3) : how == 1 ? m.train_sgd(0.05, 5) : m.train_mbgd(0.05, 3, 1); };
		L.predict = [=](T &m) { DV p = flat(m.model_set_test(X)); DV s = flat(m.model_test(one)); p.insert(p.end(), s.begin(), s.end()); return p; };
		L.predict_one = [=](T &m) { m.model_test(one); };
		L.score_only = [](T &m) { m.score(); };
		L.score = [](T &m, const DV &) { return m.score(); };
		L(c);
		std::unique_ptr<T> m; seeded(r.next() | 1, [&] { m.reset(new T(X, Y, h, g, lam, al)); }); RM w1 = rmat(r, k, h, 1), w2 = rmat(r, h, q, 1); RV b1 = rvec(r, h, 1), b2 = rvec(r, q, 1); m->data_weights1_set(w1); m->data_bias1_set(b1); m->data_weights2_set(w2); m->data_bias2_set(b2);
		DM got = dm(m->model_set_test(X)); for (int i = 0; i < n; i++) { DV a(h), z(q); double s = 0; for (int j = 0; j < h; j++) { a[j] = b1->element_get(j); for (int t = 0; t < k; t++) a[j] += X->element_get(i, t) * w1->element_get(t, j); a[j] = 1 / (1 + std::exp(-a[j])); } for (int j = 0; j < q; j++) { z[j] = b2->element_get(j); for (int t = 0; t < h; t++) z[j] += a[t] * w2->element_get(t, j); s += std::exp(z[j]); } for (int j = 0; j < q; j++) c.eq("handed_in_parameters", got.at(i, j), std::exp(z[j]) / s, 1e-6, 1e-6); }
		c.eq("score_of_parameters", m->score(), accm(got, dm(Y)), 1e-6, 1e-6); sameck(c, "embeddings", flat(m->get_embeddings()), flat(w1), "embeddings");
	}
}
UNIT("M05", "late.mlp", 1200, 60000) {
	typedef MLPPMLP T; Rng &r = c.rng; c.label("mlp"); const int n = r.range(1, 6), k = r.range(1, 4), h = r.range(1, 4), how = r.range(0, 2); RM X = rmat(r, n, k), X2 = rmat(r, 3, k + 1); RV y = labels(r, n, 0, 1), y2 = labels(r, 3, 0, 1), one = rvec(r, k); RT_ g = rreg(r); double lam = r.f(0, 0.5), al = r.f(0, 1); const uint64_t seed = r.next() | 1;
	std::unique_ptr<T> a, b(new T()); seeded(seed, [&] { a.reset(new T(X, y, h, g, lam, al)); }); int need = 0;
	auto train = [&](T &m) { how == 0 ? m.gradient_descent(0.05, 3) : how == 1 ? m.sgd(0.05, 5) : m.mbgd(0.05, 3, 1); };
	auto predict = [&](T &m) { DV p = flat(m.model_set_test(X)); p.push_back(m.model_test(one)); return p; };
	auto st = [&] { return DV{ (double)b->is_initialized(), (double)b->get_n_hidden(), b->get_lambda(), b->get_alpha() }; };
	std::vector<Fn> todo = { [&] { if (r.chance(0.2)) b->set_input_set(X2); b->set_input_set(X); need++; }, [&] { if (r.chance(0.2)) b->set_output_set(y2); b->set_output_set(y); need++; }, [&] { if (r.chance(0.2)) b->set_n_hidden(h + 2); b->set_n_hidden(h); need++; }, [&] { b->set_reg(g); }, [&] { b->set_lambda(lam); }, [&] { b->set_alpha(al); } };
	shuffle(r, todo);
	for (auto &f : todo) {
		c.check("ready_too_early", !b->is_initialized(), "claims to be complete before it was completed");
		if (r.chance(0.3)) { if (need < 3) refused(c, "initialize", [&] { b->initialize(); }, st); switch (r.range(0, 3)) { case 0: refused(c, "training", [&] { train(*b); }, st); break; case 1: refused(c, "predicting one", [&] { b->model_test(one); }, st); break; case 2: refused(c, "predicting", [&] { b->model_set_test(X); }, st); break; default: refused(c, "scoring", [&] { b->score(); }, st); } }
		f();
	}
	c.check("getters", b->get_input_set().ptr() == X.ptr() && b->get_output_set().ptr() == y.ptr() && b->get_n_hidden() == h && b->get_reg() == g && b->get_lambda() == lam && b->get_alpha() == al, "a property does not hold the value it was given");
	const long e0 = errors(); seeded(seed, [&] { b->initialize(); }); c.check("completed", b->is_initialized() && a->is_initialized(), "not complete after it was completed");
	sameck(c, "start", predict(*b), predict(*a), "predictions before training"); DV p0 = predict(*b); c.eq("untrained_score", b->score(), acc(p0, dv(y)), 1e-6, 1e-6);
	seeded(seed + 2, [&] { train(*a); }); seeded(seed + 2, [&] { train(*b); }); DV p = predict(*b); sameck(c, "predictions", p, predict(*a), "predictions"); c.eq("score", b->score(), acc(p, dv(y)), 1e-6, 1e-6);
	b->initialize(); sameck(c, "second_completion", predict(*b), p, "completing a complete model again"); c.check("errors", errors() == e0, "an error was reported for a complete model");
	// any property set again means that the model has to be completed again
	switch (r.range(0, 5)) { case 0: b->set_input_set(X); break; case 1: b->set_output_set(y); break; case 2: b->set_n_hidden(h); break; case 3: b->set_reg(g); break; case 4: b->set_lambda(lam); break; default: b->set_alpha(al); }
	c.check("ready_too_early", !b->is_initialized(), "still complete after a property was set"); refused(c, "training", [&] { train(*b); }, st);
	seeded(seed, [&] { b->initialize(); }); sameck(c, "restart", predict(*b), p0, "completing again");
	uint64_t hh = 1; for (double v : p) hh = hsh(hh, v); c.obs(hh, true);
}
UNIT("M05", "late.other", 1500, 60000) {
	Rng &r = c.rng; const int n = r.range(2, 7), k = r.range(1, 4); uint64_t hh = 1;
	switch (r.range(0, 1)) {
		case 0: {
			c.label("uni_lin_reg"); RV x = rvec(r, n), y = rvec(r, n), x2 = rvec(r, n + 1), y2 = rvec(r, n + 1); MLPPUniLinReg a(x, y), b; auto st = [&] { return all(b.get_b0(), b.get_b1()); };
			if (r.chance(0.5)) refused(c, "training", [&] { b.train(); }, st);
			if (r.chance(0.3)) { b.set_input_set(x2); if (r.chance(0.5)) refused(c, "training", [&] { b.train(); }, st); b.set_output_set(y2); if (r.chance(0.5)) b.train(); }
			if (r.chance(0.5)) { b.set_input_set(x); b.set_output_set(y); } else { b.set_output_set(y); b.set_input_set(x); }
			c.check("getters", b.get_input_set().ptr() == x.ptr() && b.get_output_set().ptr() == y.ptr(), "the data it was given"); b.train(); sameck(c, "trained", st(), all(a.get_b0(), a.get_b1()), "parameters"); sameck(c, "predictions", flat(b.model_set_test(x)), flat(a.model_set_test(x)), "predictions");
			double p = r.f(-2, 2), q = r.f(-2, 2), t = r.f(-3, 3); b.set_b0(p); b.set_b1(q); c.check("getters", b.get_b0() == p && b.get_b1() == q, "coefficients"); c.eq("handed_in_parameters", b.model_test(t), p + q * t, 1e-6, 1e-6); DV s = flat(b.model_set_test(x)); for (int i = 0; i < n; i++) c.eq("handed_in_parameters", s[i], p + q * x->element_get(i), 1e-6, 1e-6);
			for (double v : s) hh = hsh(hh, v); break;
		}
		default: {
			c.label("pca"); RM X = rmat(r, k, n), X2 = rmat(r, 3, 4); int d = r.range(1, k); MLPPPCA a(X, d), b; auto st = [&] { return DV{ (double)b.get_k() }; };
			if (r.chance(0.4)) refused(c, "principal_components", [&] { b.principal_components(); }, st);
			if (r.chance(0.3)) { b.set_input_set(X2); b.set_k(1); b.principal_components(); }
			if (r.chance(0.5)) { b.set_input_set(X); b.set_k(d); } else { b.set_k(d); b.set_input_set(X); }
			c.check("getters", b.get_input_set().ptr() == X.ptr() && b.get_k() == d, "a property does not hold the value it was given"); DV p = flat(b.principal_components()), q = flat(a.principal_components()); sameck(c, "components", p, q, "components"); sameck(c, "score", flat(b.score()), flat(a.score()), "score");
			for (double v : p) hh = hsh(hh, v);
		}
	}
	c.obs(hh, true);
}
UNIT("M05", "layers", 2500, 100000) {
	Rng &r = c.rng; const int n = r.range(1, 5), k = r.range(1, 4), h = r.range(1, 4), q = r.range(1, 3); RM X = rmat(r, n, k), X2 = rmat(r, n + 1, k + 1); RV one = rvec(r, k); AC::ActivationFunction act = r.pick(std::vector<AC::ActivationFunction>{ AC::ACTIVATION_FUNCTION_LINEAR, AC::ACTIVATION_FUNCTION_SIGMOID, AC::ACTIVATION_FUNCTION_TANH, AC::ACTIVATION_FUNCTION_RELU, AC::ACTIVATION_FUNCTION_SOFTPLUS }); WD wd = (WD)r.range(0, 7); RT_ g = rreg(r); double lam = r.f(0, 1), al = r.f(0, 1); const uint64_t seed = r.next() | 1; uint64_t hh = 1; CO::CostTypes ct = r.pick(std::vector<CO::CostTypes>{ CO::COST_TYPE_MSE, CO::COST_TYPE_RMSE, CO::COST_TYPE_HINGE_LOSS });
	switch (r.range(0, 2)) {
		case 0: {
			c.label("hidden"); typedef MLPPHiddenLayer T; Ref<T> a, b; b.instance(); seeded(seed, [&] { a = Ref<T>(memnew(T(h, act, X, wd, g, lam, al))); a->initialize(); });
			std::vector<Fn> todo = { [&] { if (r.chance(0.2)) b->set_n_hidden(h + 1); b->set_n_hidden(h); }, [&] { b->set_activation(act); }, [&] { if (r.chance(0.2)) b->set_input(X2); b->set_input(X); }, [&] { b->set_weight_init(wd); }, [&] { b->set_reg(g); }, [&] { b->set_lambda(lam); }, [&] { b->set_alpha(al); } }; shuffle(r, todo);
			for (auto &f : todo) { c.check("ready_too_early", !b->is_initialized(), "claims to be complete before it was completed"); f(); }
			c.check("getters", b->get_n_hidden() == h && b->get_activation() == act && b->get_input().ptr() == X.ptr() && b->get_weight_init() == wd && b->get_reg() == g && b->get_lambda() == lam && b->get_alpha() == al, "a property does not hold the value it was given");
			c.check("getters", a->get_n_hidden() == h && a->get_activation() == act && a->get_input().ptr() == X.ptr() && a->get_weight_init() == wd && a->get_reg() == g && a->get_lambda() == lam && a->get_alpha() == al, "a property does not hold the value the constructor was given");
			seeded(seed, [&] { b->initialize(); }); sameck(c, "start", all(b->get_weights(), b->get_bias()), all(a->get_weights(), a->get_bias()), "parameters"); a->forward_pass(); b->forward_pass(); a->test(one); b->test(one);
			DV p = all(b->get_z(), b->get_a(), b->get_z_test(), b->get_a_test()); sameck(c, "outputs", p, all(a->get_z(), a->get_a(), a->get_z_test(), a->get_a_test()), "outputs"); for (double v : p) hh = hsh(hh, v);
			DV w = all(b->get_weights(), b->get_bias()); b->set_activation(act); b->set_reg(g); b->set_lambda(lam); b->set_alpha(al); b->initialize(); sameck(c, "kept", all(b->get_weights(), b->get_bias()), w, "parameters after a property they do not depend on was set");
			RM W = rmat(r, k, h, 1), D = rmat(r, n, h); RV B = rvec(r, h, 1); b->set_weights(W); b->set_bias(B); b->set_delta(D); b->forward_pass(); c.check("getters", b->get_weights().ptr() == W.ptr() && b->get_bias().ptr() == B.ptr() && b->get_delta().ptr() == D.ptr(), "the parameters handed in");
			for (int i = 0; i < n; i++) for (int j = 0; j < h; j++) { double z = B->element_get(j); for (int t = 0; t < k; t++) z += X->element_get(i, t) * W->element_get(t, j); c.eq("handed_in_parameters", b->get_z()->element_get(i, j), z, 1e-5, 1e-6); }
			b->set_n_hidden(h + 1); c.check("ready_too_early", !b->is_initialized(), "still complete after its size changed"); b->initialize(); c.check("size", b->get_weights()->size() == Size2i(h + 1, k) && b->get_bias()->size() == h + 1, "the size of the parameters after the size of the layer changed"); break;
		}
		case 1: {
			c.label("output"); typedef MLPPOutputLayer T; Ref<T> a, b; b.instance(); seeded(seed, [&] { a = Ref<T>(memnew(T(k, act, ct, X, wd, g, lam, al))); a->initialize(); });
			std::vector<Fn> todo = { [&] { if (r.chance(0.2)) b->set_n_hidden(k + 1); b->set_n_hidden(k); }, [&] { b->set_activation(act); }, [&] { b->set_cost(ct); }, [&] { if (r.chance(0.2)) b->set_input(X2); b->set_input(X); }, [&] { b->set_weight_init(wd); }, [&] { b->set_reg(g); }, [&] { b->set_lambda(lam); }, [&] { b->set_alpha(al); } }; shuffle(r, todo);
			for (auto &f : todo) { c.check("ready_too_early", !b->is_initialized(), "claims to be complete before it was completed"); f(); }
			for (auto &o : { a, b }) { Ref<T> m = o; c.check("getters", m->get_n_hidden() == k && m->get_activation() == act && m->get_cost() == ct && m->get_input().ptr() == X.ptr() && m->get_weight_init() == wd && m->get_reg() == g && m->get_lambda() == lam && m->get_alpha() == al, "a property does not hold the value it was given"); }
			seeded(seed, [&] { b->initialize(); }); sameck(c, "start", all(b->get_weights(), b->get_bias()), all(a->get_weights(), a->get_bias()), "parameters"); a->forward_pass(); b->forward_pass(); a->test(one); b->test(one);
			DV p = all(b->get_z(), b->get_a(), b->get_z_test(), b->get_a_test()); sameck(c, "outputs", p, all(a->get_z(), a->get_a(), a->get_z_test(), a->get_a_test()), "outputs"); for (double v : p) hh = hsh(hh, v);
			DV w = all(b->get_weights(), b->get_bias()); b->set_activation(act); b->set_cost(ct); b->set_reg(g); b->set_lambda(lam); b->set_alpha(al); b->set_input(X); b->initialize(); sameck(c, "kept", all(b->get_weights(), b->get_bias()), w, "parameters after a property they do not depend on was set");
			RV W = rvec(r, k, 1), D = rvec(r, n); double B = r.f(-1, 1); b->set_weights(W); b->set_bias(B); b->set_delta(D); b->forward_pass(); c.check("getters", b->get_weights().ptr() == W.ptr() && b->get_bias() == B && b->get_delta().ptr() == D.ptr(), "the parameters handed in");
			for (int i = 0; i < n; i++) { double z = B; for (int t = 0; t < k; t++) z += X->element_get(i, t) * W->element_get(t); c.eq("handed_in_parameters", b->get_z()->element_get(i), z, 1e-5, 1e-6); }
			b->set_n_hidden(k + 1); c.check("ready_too_early", !b->is_initialized(), "still complete after its size changed"); b->initialize(); c.check("size", b->get_weights()->size() == k + 1, "the size of the parameters after the size of the layer changed"); break;
		}
		default: {
			c.label("multi_output"); typedef MLPPMultiOutputLayer T; Ref<T> a, b; b.instance(); seeded(seed, [&] { a = Ref<T>(memnew(T(q, k, act, ct, X, wd, g, lam, al))); });
			std::vector<Fn> todo = { [&] { b->set_n_output(q); }, [&] { b->set_n_hidden(k); }, [&] { b->set_activation(act); }, [&] { b->set_cost(ct); }, [&] { b->set_input(X); }, [&] { b->set_weight_init(wd); }, [&] { b->set_reg(g); }, [&] { b->set_lambda(lam); }, [&] { b->set_alpha(al); } }; shuffle(r, todo); for (auto &f : todo) f();
			for (auto &o : { a, b }) { Ref<T> m = o; c.check("getters", m->get_n_output() == q && m->get_n_hidden() == k && m->get_activation() == act && m->get_cost() == ct && m->get_input().ptr() == X.ptr() && m->get_weight_init() == wd && m->get_reg() == g && m->get_lambda() == lam && m->get_alpha() == al, "a property does not hold the value it was given"); }
			b->set_weights(a->get_weights()); b->set_bias(a->get_bias()); RM D = rmat(r, n, q); b->set_delta(D); c.check("getters", b->get_weights().ptr() == a->get_weights().ptr() && b->get_bias().ptr() == a->get_bias().ptr() && b->get_delta().ptr() == D.ptr(), "the parameters handed in");
			a->forward_pass(); b->forward_pass(); a->test(one); b->test(one); DV p = all(b->get_z(), b->get_a(), b->get_z_test(), b->get_a_test()); sameck(c, "outputs", p, all(a->get_z(), a->get_a(), a->get_z_test(), a->get_a_test()), "outputs"); for (double v : p) hh = hsh(hh, v);
		}
	}
	c.obs(hh, true);
}
UNIT("M05", "wgan", 500, 20000) {
	Rng &r = c.rng; c.label("wgan"); const int n = r.range(2, 5), k = r.range(1, 3), d = r.range(1, 3); RM Y = rmat(r, n, d), Y2 = rmat(r, n + 1, d); const uint64_t seed = r.next() | 1; typedef MLPPWGAN T; AC::ActivationFunction act = r.pick(std::vector<AC::ActivationFunction>{ AC::ACTIVATION_FUNCTION_SIGMOID, AC::ACTIVATION_FUNCTION_TANH }); WD wd = (WD)r.range(0, 7); RT_ g = rreg(r); double lam = r.f(0, 0.2), al = r.f(0, 1); const int bad = r.range(0, 2); std::vector<int> sz{ r.range(1, 3), d, r.range(1, 3) };
	auto build = [&](T &m, bool late, bool odd) { seeded(seed, [&] {
		for (int i = 0; i < (int)sz.size(); i++) {
			if (late && i != bad) { Ref<MLPPHiddenLayer> l; l.instance(); l->set_n_hidden(sz[i]); l->set_activation(act); l->set_weight_init(wd); l->set_reg(g); l->set_lambda(lam); l->set_alpha(al); m.add_layer(l); c.check("layer_kept", m.get_layer(i).ptr() == l.ptr(), "the layer that was added"); }
			else m.create_layer(sz[i], act, wd, g, lam, al);
			c.check("layer_count", m.get_layer_count() == i + 1, strf("%d layers after adding %d", m.get_layer_count(), i + 1));
			if (odd && i == bad) { m.add_layer(Ref<MLPPHiddenLayer>()); long e = errors(); m.remove_layer(i + 1); m.remove_layer(-1); Ref<MLPPHiddenLayer> no = m.get_layer(i + 1), no2 = m.get_layer(-1); c.check("unfinished_model_used", errors() == e + 4 && !no.is_valid() && !no2.is_valid(), "layers that do not exist were not refused"); c.check("layer_count", m.get_layer_count() == i + 1, "refused changes changed the number of layers"); }
		}
		m.add_output_layer(wd, g, lam, al); }); };
	T a(k, Y), b; if (r.chance(0.3)) { b.set_output_set(Y2); b.set_k(k + 1); } if (r.chance(0.5)) { b.set_output_set(Y); b.set_k(k); } else { b.set_k(k); b.set_output_set(Y); }
	c.check("getters", b.get_output_set().ptr() == Y.ptr() && b.get_k() == k && a.get_k() == k && a.get_output_set().ptr() == Y.ptr(), "a property does not hold the value it was given");
	auto st = [&] { return DV{ (double)b.get_layer_count() }; }; if (r.chance(0.3)) refused(c, "adding an output layer", [&] { b.add_output_layer(); }, st);
	build(a, false, false); build(b, true, true);
	auto par = [](T &m) { DV o; for (int i = 0; i < m.get_layer_count(); i++) { Ref<MLPPHiddenLayer> l = m.get_layer(i); DV x = all(l->get_weights(), l->get_bias(), l->get_n_hidden(), l->get_activation(), l->get_reg(), l->get_lambda(), l->get_alpha()); o.insert(o.end(), x.begin(), x.end()); } return o; };
	sameck(c, "start", par(b), par(a), "parameters"); seeded(seed + 2, [&] { a.gradient_descent(0.01, 2); }); seeded(seed + 2, [&] { b.gradient_descent(0.01, 2); }); DV p = par(b); sameck(c, "trained", p, par(a), "parameters after training");
	DV ga, gb; seeded(seed + 4, [&] { ga = flat(a.generate_example(3)); }); seeded(seed + 4, [&] { gb = flat(b.generate_example(3)); }); sameck(c, "predictions", gb, ga, "examples");
	std::vector<void *> ls; for (int i = 0; i < b.get_layer_count(); i++) ls.push_back(b.get_layer(i).ptr()); int rm = r.range(0, (int)ls.size() - 1); b.remove_layer(rm); ls.erase(ls.begin() + rm); bool ok = b.get_layer_count() == (int)ls.size(); for (size_t i = 0; ok && i < ls.size(); i++) ok = b.get_layer(i).ptr() == ls[i]; c.check("removed", ok, "the layers that remain after one was removed");
	uint64_t hh = 1; for (double v : p) hh = hsh(hh, v); c.obs(hh, true);
}
UNIT("M05", "empty", 60, 600) {
	// Models that cannot be given data later stay unusable, whatever is called on them.
	Rng &r = c.rng; RM X = rmat(r, 3, 2); RV one = rvec(r, 2); DV none; auto st = [&] { return none; };
	switch (r.range(0, 4)) {
		case 4: { c.label("multinomial_nb"); MLPPMultinomialNB m; if (r.chance(0.7)) refused(c, "initialize", [&] { m.initialize(); }, st); c.check("ready_too_early", !m.is_initialized(), "claims to be complete"); refused(c, "predicting", [&] { m.model_set_test(X); }, st); refused(c, "predicting", [&] { m.model_test(one); }, st); refused(c, "scoring", [&] { m.score(); }, st); break; }
		case 0: { c.label("lin_reg"); MLPPLinReg m; if (r.chance(0.7)) refused(c, "initialize", [&] { m.initialize(); }, st); c.check("ready_too_early", !m.is_initialized(), "claims to be complete"); refused(c, "training", [&] { m.gradient_descent(0.1, 2); }, st); refused(c, "training", [&] { m.sgd(0.1, 2); }, st); refused(c, "predicting", [&] { m.model_set_test(X); }, st); refused(c, "predicting", [&] { m.model_test(one); }, st); refused(c, "scoring", [&] { m.score(); }, st); break; }
		case 1: { c.label("log_reg"); MLPPLogReg m; if (r.chance(0.7)) refused(c, "initialize", [&] { m.initialize(); }, st); c.check("ready_too_early", !m.is_initialized(), "claims to be complete"); refused(c, "training", [&] { m.gradient_descent(0.1, 2); }, st); refused(c, "training", [&] { m.mle(0.1, 2); }, st); refused(c, "predicting", [&] { m.model_set_test(X); }, st); refused(c, "predicting", [&] { m.model_test(one); }, st); refused(c, "scoring", [&] { m.score(); }, st); break; }
		case 2: { c.label("gaussian_nb"); MLPPGaussianNB m; if (r.chance(0.7)) refused(c, "initialize", [&] { m.initialize(); }, st); c.check("ready_too_early", !m.is_initialized(), "claims to be complete"); refused(c, "predicting", [&] { m.model_set_test(X); }, st); refused(c, "predicting", [&] { m.model_test(one); }, st); refused(c, "scoring", [&] { m.score(); }, st); break; }
		default: { c.label("mann"); MLPPMANN m; if (r.chance(0.7)) refused(c, "initialize", [&] { m.initialize(); }, st); c.check("ready_too_early", !m.is_initialized(), "claims to be complete"); refused(c, "training", [&] { m.gradient_descent(0.1, 2); }, st); refused(c, "predicting", [&] { m.model_set_test(X); }, st); refused(c, "predicting", [&] { m.model_test(one); }, st); refused(c, "scoring", [&] { m.score(); }, st); }
	}
	c.obs(r.next(), true);
}
UNIT("M05", "score", 600, 30000) {
	// The score describes the parameters a model has now, also before any training.
	Rng &r = c.rng; const int n = r.range(1, 6), k = r.range(1, 4), e = r.range(0, 2); RM X = rmat(r, n, k); RV y; uint64_t hh = 1; const uint64_t seed = r.next() | 1;
	auto go = [&](const char *name, auto *m, std::function<void()> train) { c.label(name); std::unique_ptr<typename std::remove_pointer<decltype(m)>::type> own(m); for (int i = 0; i <= e; i++) { if (i) train(); DV p = flat(m->model_set_test(X)); for (double v : p) { if (!std::isfinite(v)) return; hh = hsh(hh, v); } c.eq("score_of_parameters", m->score(), acc(p, dv(y)), 1e-6, 1e-6); } c.obs(hh, true); };
	thread_entropy(seed); Math::seed(seed);
	switch (r.range(0, 4)) {
		case 0: { y = labels(r, n, 0, 1); auto *m = new MLPPCLogLogReg(X, y); go("cloglog", m, [=] { m->sgd(0.05, 2); }); break; }
		case 1: { y = labels(r, n, 1, 2); auto *m = new MLPPExpReg(X, y); go("exp", m, [=] { m->sgd(0.01, 2); }); break; }
		case 2: { y = labels(r, n, 0, 1); auto *m = new MLPPLinReg(X, y); go("lin", m, [=] { m->sgd(0.05, 2); }); break; }
		case 3: { y = labels(r, n, 0, 1); auto *m = new MLPPLogReg(X, y); go("log", m, [=] { m->sgd(0.05, 2); }); break; }
		default: { y = labels(r, n, -1, 1); auto *m = new MLPPDualSVC(X, y, 1.0); go("dual_svc", m, [=] { m->gradient_descent(0.05, 2); }); }
	}
	thread_entropy(0);
}
