// Z01: what is left after a workload was repeated. The cases of every other property's units are repeated here as well
// (see repeat_case in vh.cpp); the units of this file add ownership histories: objects of every class that share their
// inputs, outputs and layers, used, refused and dropped in random order.
#include "vh.h"
#include <memory>
#include "core/gauss_markov_checker.h"
#include "core/hypothesis_testing.h"
#include "modules/ann/ann.h"
#include "modules/auto_encoder/auto_encoder.h"
#include "modules/bernoulli_nb/bernoulli_nb.h"
#include "modules/c_log_log_reg/c_log_log_reg.h"
#include "modules/dual_svc/dual_svc.h"
#include "modules/exp_reg/exp_reg.h"
#include "modules/gan/gan.h"
#include "modules/gaussian_nb/gaussian_nb.h"
#include "modules/hidden_layer/hidden_layer.h"
#include "modules/kmeans/kmeans.h"
#include "modules/knn/knn.h"
#include "modules/lin_reg/lin_reg.h"
#include "modules/log_reg/log_reg.h"
#include "modules/mann/mann.h"
#include "modules/mlp/mlp.h"
#include "modules/multi_output_layer/multi_output_layer.h"
#include "modules/multinomial_nb/multinomial_nb.h"
#include "modules/outlier_finder/outlier_finder.h"
#include "modules/output_layer/output_layer.h"
#include "modules/pca/pca.h"
#include "modules/probit_reg/probit_reg.h"
#include "modules/softmax_net/softmax_net.h"
#include "modules/softmax_reg/softmax_reg.h"
#include "modules/svc/svc.h"
#include "modules/tanh_reg/tanh_reg.h"
#include "modules/uni_lin_reg/uni_lin_reg.h"
#include "modules/wgan/wgan.h"

namespace {
typedef MLPPActivation AC;
typedef MLPPCost CO;
struct Held {
	Ref<Reference> r;
	const char *name;
	std::function<Ref<Reference>(Rng &)> use; // may return an object that shares data with it
	std::function<bool()> intact; // content still what it was
};
struct Soup {
	Rng &r;
	int rows, cols;
	std::vector<Held> h;
	Soup(Rng &q) : r(q), rows(q.range(3, 6)), cols(q.range(1, 3)) {}
	DM bin_labels(int k) { DM m(rows, k); for (int i = 0; i < rows; i++) m.at(i, i < k ? i : r.range(0, k - 1)) = 1; return m; }
	template <class T> void hold(Ref<T> o, const char *n, std::function<Ref<Reference>(Rng &)> use = nullptr, std::function<bool()> intact = nullptr) { h.push_back({ o, n, use, intact }); }
	// inputs are shared with objects held already, when there are any of the right shape
	template <class T> Ref<T> find(const std::function<bool(Ref<T>)> &fits) {
		std::vector<Ref<T>> o;
		for (auto &x : h) { Ref<T> t = x.r; if (t.is_valid() && fits(t)) o.push_back(t); }
		return o.empty() || r.chance(0.2) ? Ref<T>() : o[r.range(0, (int)o.size() - 1)];
	}
	RM matrix(int y, int x, const DM *content = nullptr) {
		if (!content) { RM f = find<MLPPMatrix>([&](RM m) { return m->size().y == y && m->size().x == x; }); if (f.is_valid()) return f; }
		DM d = content ? *content : gm(r, y, x, K_STD);
		RM m = mkm(d);
		MLPPMatrix *p = m.ptr(); // not a handle: the object must not hold itself
		hold(m, "matrix", [p](Rng &q) -> Ref<Reference> { switch (q.range(0, 4)) { case 0: return p->transposen(); case 1: return p->duplicate_fast(); case 2: return p->multn(p->transposen()); case 3: return p->row_get_mlpp_vector(0); default: return p->addn(RM(p)); } },
				[p, d] { return dm(RM(p)).d == d.d; });
		return m;
	}
	RV vec(int n, const DV *content = nullptr) {
		if (!content) { RV f = find<MLPPVector>([&](RV v) { return v->size() == n; }); if (f.is_valid()) return f; }
		DV d = content ? *content : gv(r, n, K_STD);
		RV v = mkv(d);
		MLPPVector *p = v.ptr();
		hold(v, "vector", [p](Rng &q) -> Ref<Reference> { switch (q.range(0, 3)) { case 0: return p->duplicate_fast(); case 1: return p->outer_product(RV(p)); case 2: return p->expn(); default: return p->addn(RV(p)); } },
				[p, d] { return dv(RV(p)) == d; });
		return v;
	}
	RV labels() { DV d(rows); for (int i = 0; i < rows; i++) d[i] = i < 2 ? i : r.range(0, 1); return vec(rows, &d); }
	RM onehot(int k) { DM d = bin_labels(k); return matrix(rows, k, &d); }
	RM X() { return matrix(rows, cols); }
	template <class M> std::function<Ref<Reference>(Rng &)> three(M *m, RM x) {
		return [m, x](Rng &q) -> Ref<Reference> { switch (q.range(0, 4)) { case 0: m->gradient_descent(0.01, 2, false); break; case 1: m->sgd(0.01, 2, false); break; case 2: m->mbgd(0.01, 2, 2, false); break; case 3: m->score(); break; default: return m->model_set_test(x); } return Ref<Reference>(); };
	}
	template <class M> std::function<Ref<Reference>(Rng &)> train3(M *m, RM x) {
		return [m, x](Rng &q) -> Ref<Reference> { switch (q.range(0, 4)) { case 0: m->train_gradient_descent(0.01, 2, false); break; case 1: m->train_sgd(0.01, 2, false); break; case 2: m->train_mbgd(0.01, 2, 2, false); break; case 3: m->score(); break; default: return m->model_set_test(x); } return Ref<Reference>(); };
	}
	enum { KINDS = 34 };
	void make(int kind) {
		typedef MLPPReg::RegularizationType RT_;
		RT_ g = (RT_)r.range(0, 3);
		switch (kind) {
			case 0: X(); break;
			case 1: vec(r.range(1, 6)); break;
			case 2: {
				DT d = gt(r, r.range(1, 3), rows, cols, K_STD);
				RT t = mkt(d);
				MLPPTensor3 *p = t.ptr();
				hold(t, "tensor", [p](Rng &q) -> Ref<Reference> { switch (q.range(0, 2)) { case 0: return p->z_slice_get_mlpp_matrix(0); case 1: return p->flatten(); default: return p->duplicate_fast(); } }, [p, d] { return dt(RT(p)).d == d.d; });
			} break;
			case 3: { RM x = X(); Ref<MLPPLinReg> m(memnew(MLPPLinReg(x, vec(rows), g, 0.1, 0.5))); hold(m, "lin_reg", three(m.ptr(), x)); } break;
			case 4: { RM x = X(); Ref<MLPPLogReg> m(memnew(MLPPLogReg(x, labels(), g, 0.1, 0.5))); hold(m, "log_reg", three(m.ptr(), x)); } break;
			case 5: { RM x = X(); Ref<MLPPTanhReg> m(memnew(MLPPTanhReg(x, labels(), g, 0.1, 0.5))); hold(m, "tanh_reg", train3(m.ptr(), x)); } break;
			case 6: { RM x = X(); Ref<MLPPProbitReg> m(memnew(MLPPProbitReg(x, labels(), g, 0.1, 0.5))); hold(m, "probit_reg", train3(m.ptr(), x)); } break;
			case 7: { RM x = X(); Ref<MLPPSoftmaxReg> m(memnew(MLPPSoftmaxReg(x, onehot(2), g, 0.1, 0.5))); hold(m, "softmax_reg", train3(m.ptr(), x)); } break;
			case 8: { RM x = X(); Ref<MLPPExpReg> m(memnew(MLPPExpReg(x, vec(rows), g, 0.1, 0.5))); hold(m, "exp_reg", three(m.ptr(), x)); } break;
			case 9: { RM x = X(); Ref<MLPPCLogLogReg> m(memnew(MLPPCLogLogReg(x, labels(), g, 0.1, 0.5))); hold(m, "c_log_log_reg", three(m.ptr(), x)); } break;
			case 10: { RM x = X(); Ref<MLPPMLP> m(memnew(MLPPMLP(x, labels(), 2, g, 0.1, 0.5))); hold(m, "mlp", three(m.ptr(), x)); } break;
			case 11: { RM x = X(); Ref<MLPPSoftmaxNet> m(memnew(MLPPSoftmaxNet(x, onehot(2), 2, g, 0.1, 0.5))); hold(m, "softmax_net", train3(m.ptr(), x)); } break;
			case 12: { RM x = X(); Ref<MLPPSVC> m(memnew(MLPPSVC(x, labels(), 1))); hold(m, "svc", train3(m.ptr(), x)); } break;
			case 13: { RM x = X(); Ref<MLPPDualSVC> m(memnew(MLPPDualSVC(x, labels(), 1))); MLPPDualSVC *p = m.ptr(); hold(m, "dual_svc", [p, x](Rng &q) -> Ref<Reference> { if (q.chance(0.5)) { p->gradient_descent(0.01, 2, false); return Ref<Reference>(); } return p->model_set_test(x); }); } break;
			case 14: {
				RM x = X();
				Ref<MLPPANN> m(memnew(MLPPANN(x, labels())));
				for (int i = r.range(0, 2); i > 0; i--) m->add_layer(r.range(1, 3), AC::ACTIVATION_FUNCTION_SIGMOID, MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT, g, 0.1, 0.5);
				m->add_output_layer(AC::ACTIVATION_FUNCTION_SIGMOID, CO::COST_TYPE_LOGISTIC_LOSS, MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT, g, 0.1, 0.5);
				MLPPANN *p = m.ptr();
				auto t = three(p, x);
				hold(m, "ann", [p, t](Rng &q) -> Ref<Reference> { switch (q.range(0, 9)) { case 0: p->adagrad(0.01, 2, 2, 1e-3, false); break; case 1: p->adadelta(0.01, 2, 2, 0.9, 1e-3, false); break; case 2: p->adam(0.01, 2, 2, 0.9, 0.99, 1e-3, false); break; case 3: p->adamax(0.01, 2, 2, 0.9, 0.99, 1e-3, false); break; case 4: p->nadam(0.01, 2, 2, 0.9, 0.99, 1e-3, false); break; case 5: p->amsgrad(0.01, 2, 2, 0.9, 0.99, 1e-3, false); break; case 6: p->momentum(0.01, 2, 2, 0.9, q.chance(0.5), false); break; default: return t(q); } return Ref<Reference>(); });
			} break;
			case 15: {
				RM x = X();
				Ref<MLPPMANN> m(memnew(MLPPMANN(x, onehot(2))));
				for (int i = r.range(0, 2); i > 0; i--) m->add_layer(r.range(1, 3), AC::ACTIVATION_FUNCTION_TANH);
				m->add_output_layer(AC::ACTIVATION_FUNCTION_SIGMOID, CO::COST_TYPE_MSE);
				MLPPMANN *p = m.ptr();
				hold(m, "mann", [p, x](Rng &q) -> Ref<Reference> { if (q.chance(0.6)) { p->gradient_descent(0.01, 2, false); return Ref<Reference>(); } return p->model_set_test(x); });
			} break;
			case 16: { RM x = X(); Ref<MLPPAutoEncoder> m(memnew(MLPPAutoEncoder(x, 2))); hold(m, "auto_encoder", three(m.ptr(), x)); } break;
			case 17: {
				RM x = X();
				Ref<MLPPGAN> m(memnew(MLPPGAN(2, x)));
				m->add_layer(2, AC::ACTIVATION_FUNCTION_SIGMOID);
				m->add_layer(cols, AC::ACTIVATION_FUNCTION_SIGMOID);
				m->add_layer(2, AC::ACTIVATION_FUNCTION_SIGMOID);
				m->add_output_layer();
				MLPPGAN *p = m.ptr();
				hold(m, "gan", [p](Rng &q) -> Ref<Reference> { if (q.chance(0.5)) { p->gradient_descent(0.01, 1, false); return Ref<Reference>(); } return p->generate_example(2); });
			} break;
			case 18: {
				RM x = X();
				Ref<MLPPWGAN> m(memnew(MLPPWGAN(2, x)));
				m->create_layer(2, AC::ACTIVATION_FUNCTION_SIGMOID);
				m->create_layer(cols, AC::ACTIVATION_FUNCTION_SIGMOID);
				m->create_layer(2, AC::ACTIVATION_FUNCTION_SIGMOID);
				m->add_output_layer();
				MLPPWGAN *p = m.ptr();
				hold(m, "wgan", [p](Rng &q) -> Ref<Reference> { switch (q.range(0, 2)) { case 0: p->gradient_descent(0.01, 1, false); return Ref<Reference>(); case 1: return p->get_layer(q.range(0, 2)); default: return p->generate_example(2); } });
			} break;
			case 19: { RM x = X(); Ref<MLPPKMeans> m; m.instance(); m->set_input_set(x); m->set_k(2); m->set_mean_type(r.chance(0.5) ? MLPPKMeans::MEAN_TYPE_KMEANSPP : MLPPKMeans::MEAN_TYPE_CENTROID); m->initialize(); MLPPKMeans *p = m.ptr(); hold(m, "kmeans", [p, x](Rng &q) -> Ref<Reference> { switch (q.range(0, 3)) { case 0: p->train(2, false); break; case 1: p->score(); break; case 2: return p->silhouette_scores(); default: return p->model_set_test(x); } return Ref<Reference>(); }); } break;
			case 20: { RM x = X(); Ref<MLPPKNN> m; m.instance(); m->set_input_set(x); m->set_output_set(labels()); m->set_k(2); MLPPKNN *p = m.ptr(); hold(m, "knn", [p, x](Rng &) -> Ref<Reference> { p->model_set_test(x); p->score(); return Ref<Reference>(); }); } break;
			case 21: { RM x = X(); Ref<MLPPPCA> m(memnew(MLPPPCA(x, 1))); MLPPPCA *p = m.ptr(); hold(m, "pca", [p](Rng &) -> Ref<Reference> { Ref<Reference> o = p->principal_components(); p->score(); return o; }); } break;
			case 22: { RM x = X(); Ref<MLPPGaussianNB> m(memnew(MLPPGaussianNB(x, labels(), 2))); MLPPGaussianNB *p = m.ptr(); hold(m, "gaussian_nb", [p, x](Rng &) -> Ref<Reference> { return p->model_set_test(x); }); } break;
			case 23: { DM d(rows, cols); for (auto &v : d.d) v = r.range(0, 3); RM x = matrix(rows, cols, &d); Ref<MLPPBernoulliNB> m(memnew(MLPPBernoulliNB(x, labels()))); MLPPBernoulliNB *p = m.ptr(); hold(m, "bernoulli_nb", [p, x](Rng &) -> Ref<Reference> { return p->model_set_test(x); }); } break;
			case 24: { DM d(rows, cols); for (auto &v : d.d) v = r.range(0, 3); RM x = matrix(rows, cols, &d); Ref<MLPPMultinomialNB> m(memnew(MLPPMultinomialNB(x, labels(), 2))); MLPPMultinomialNB *p = m.ptr(); hold(m, "multinomial_nb", [p, x](Rng &) -> Ref<Reference> { return p->model_set_test(x); }); } break;
			case 25: { RV x = vec(rows); Ref<MLPPUniLinReg> m(memnew(MLPPUniLinReg(x, vec(rows)))); MLPPUniLinReg *p = m.ptr(); hold(m, "uni_lin_reg", [p, x](Rng &q) -> Ref<Reference> { if (q.chance(0.5)) { p->train(); return Ref<Reference>(); } return p->model_set_test(x); }); } break;
			case 26: { RM x = X(); Ref<MLPPOutlierFinder> m(memnew(MLPPOutlierFinder(1))); MLPPOutlierFinder *p = m.ptr(); hold(m, "outlier_finder", [p, x](Rng &) -> Ref<Reference> { p->model_set_test(x); p->model_set_test_bind(x); p->model_set_test_indices(x); return Ref<Reference>(); }); } break;
			case 27: { RM x = X(); Ref<MLPPHiddenLayer> m(memnew(MLPPHiddenLayer(2, AC::ACTIVATION_FUNCTION_TANH, x, MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT, g, 0.1, 0.5))); MLPPHiddenLayer *p = m.ptr(); hold(m, "hidden_layer", [p](Rng &q) -> Ref<Reference> { p->forward_pass(); switch (q.range(0, 2)) { case 0: return p->get_a(); case 1: return p->get_weights(); default: return p->get_input(); } }); } break;
			case 28: { RM x = X(); Ref<MLPPOutputLayer> m(memnew(MLPPOutputLayer(cols, AC::ACTIVATION_FUNCTION_SIGMOID, CO::COST_TYPE_MSE, x, MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT, g, 0.1, 0.5))); MLPPOutputLayer *p = m.ptr(); hold(m, "output_layer", [p](Rng &q) -> Ref<Reference> { p->forward_pass(); return q.chance(0.5) ? p->get_a() : p->get_weights(); }); } break;
			case 29: { RM x = X(); Ref<MLPPMultiOutputLayer> m(memnew(MLPPMultiOutputLayer(2, cols, AC::ACTIVATION_FUNCTION_SIGMOID, CO::COST_TYPE_MSE, x, MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT, g, 0.1, 0.5))); MLPPMultiOutputLayer *p = m.ptr(); hold(m, "multi_output_layer", [p](Rng &q) -> Ref<Reference> { p->forward_pass(); return q.chance(0.5) ? p->get_a() : p->get_weights(); }); } break;
			case 30: {
				Ref<MLPPDataComplex> d;
				d.instance();
				d->set_input(X());
				d->set_output(onehot(2));
				MLPPDataComplex *p = d.ptr();
				hold(d, "data_complex", [p](Rng &q) -> Ref<Reference> {
					Ref<MLPPData> s;
					s.instance();
					MLPPData::SplitComplexData t = s->train_test_split(Ref<MLPPDataComplex>(p), 0.4);
					return q.chance(0.5) ? t.train : t.test;
				});
			} break;
			case 31: {
				RM x = X();
				Ref<MLPPLinAlg> m;
				m.instance();
				MLPPLinAlg *p = m.ptr();
				RM sq = matrix(2, 2);
				hold(m, "lin_alg", [p, x, sq](Rng &q) -> Ref<Reference> { switch (q.range(0, 5)) { case 0: return p->matmultnm(sq, sq); case 1: return p->transposenm(x); case 2: return p->covnm(x); case 3: return p->svd(x).S; case 4: return p->qrd(sq).Q; default: return p->gram_schmidt_process(sq); } });
			} break;
			case 32: {
				RM x = X();
				Ref<MLPPTransforms> t;
				t.instance();
				DM dd = gm(r, 8, 8, K_STD);
				RM m8 = matrix(8, 8, &dd);
				MLPPTransforms *p = t.ptr();
				hold(t, "transforms", [p, m8](Rng &) -> Ref<Reference> { return p->discrete_cosine_transform(m8); });
			} break;
			default: {
				Ref<MLPPNumericalAnalysis> m;
				m.instance();
				MLPPNumericalAnalysis *p = m.ptr();
				RV v = vec(2);
				hold(m, "numerical_analysis", [p, v](Rng &) -> Ref<Reference> { return p->jacobian([](const Ref<MLPPVector> &x) -> real_t { return x->element_get(0) * x->element_get(0) + x->element_get(1); }, v); });
			}
		}
	}
	// requests that must be refused
	void refuse() {
		switch (r.range(0, 9)) {
			case 0: { RM m = mkm(gm(r, 2, 3)); m->multn(m); } break;
			case 1: { RM m = mkm(gm(r, 2, 3)); m->add(RM()); m->addn(RM()); } break;
			case 2: { RV v = mkv(gv(r, 3)); v->addn(mkv(gv(r, 4))); v->dot(mkv(gv(r, 2))); } break;
			case 3: { RM m = mkm(gm(r, 2, 3)); m->row_get_mlpp_vector(7); m->row_add_mlpp_vector(mkv(gv(r, 5))); m->row_swap(0, 9); } break;
			case 4: { RT t = mkt(gt(r, 2, 2, 2)); t->z_slice_get_mlpp_matrix(9); t->z_slice_add_mlpp_matrix(mkm(gm(r, 3, 1))); t->add(mkt(gt(r, 1, 2, 2))); } break;
			case 5: { MLPPLogReg m; m.gradient_descent(0.1, 2, false); m.model_set_test(RM()); } break;
			case 6: { MLPPLinAlg l; l.matmultnm(mkm(gm(r, 2, 3)), mkm(gm(r, 2, 3))); l.inversenm(RM()); l.additionnm(mkm(gm(r, 1, 1)), mkm(gm(r, 2, 1))); } break;
			case 7: { Ref<MLPPKMeans> k; k.instance(); k->train(2, false); k->model_set_test(mkm(gm(r, 2, 2))); } break;
			case 8: { MLPPData d; d.load_iris("/nonexistent/iris"); } break;
			default: { Ref<MLPPHiddenLayer> l; l.instance(); l->forward_pass(); l->initialize(); l->test(RV()); Ref<MLPPOutputLayer> o; o.instance(); o->forward_pass(); o->test(RV()); Ref<MLPPMultiOutputLayer> u; u.instance(); u->forward_pass(); u->test(RV()); }
		}
	}
};
void story(Ctx &c, Rng r, bool judge) {
	int live0 = ObjectDB::get_object_count();
	std::map<std::string, int> used;
	{
		Soup s(r);
		std::vector<Held> shared; // results, kept after their makers
		Array arr;
		Dictionary dict;
		int steps = r.range(4, 30);
		for (int i = 0; i < steps; i++) {
			int k = r.range(0, 9);
			if (s.h.empty() || k < 3) s.make(r.range(0, Soup::KINDS - 1));
			else if (k < 7) {
				Held &h = s.h[r.range(0, (int)s.h.size() - 1)];
				if (judge) c.label(h.name);
				used[h.name]++;
				if (h.use) {
					Ref<Reference> o = h.use(r);
					if (o.is_valid()) switch (r.range(0, 3)) {
						case 0: arr.push_back(o); break;
						case 1: dict[r.range(0, 3)] = o; break;
						case 2: shared.push_back({ o, h.name, nullptr, nullptr }); break;
					}
				}
			} else if (k < 9) {
				int q = r.range(0, (int)s.h.size() - 1);
				s.h.erase(s.h.begin() + q); // whoever shares its data still uses it
				if (r.chance(0.2) && arr.size()) arr.remove(r.range(0, arr.size() - 1));
				if (r.chance(0.2)) dict.erase(r.range(0, 3));
			} else { if (judge) c.label("refused"); s.refuse(); }
			if (judge) {
				c.label("");
				for (auto &h : s.h) if (h.intact) c.check("content", h.intact(), strf("a %s changed although nothing wrote to it", h.name));
			}
		}
		// the rest goes in random order
		while (!s.h.empty() || !shared.empty()) {
			auto &v = !s.h.empty() && (shared.empty() || r.chance(0.5)) ? s.h : shared;
			int q = r.range(0, (int)v.size() - 1);
			if (v[q].intact && judge) c.check("content", v[q].intact(), strf("a %s changed although nothing wrote to it", v[q].name));
			v.erase(v.begin() + q);
		}
	}
	if (judge) {
		c.label("");
		c.check("objects_left", ObjectDB::get_object_count() == live0, strf("%d objects are alive after every handle is gone", ObjectDB::get_object_count() - live0));
		for (auto &u : used) c.count(u.first.c_str(), u.second);
	}
}
} // namespace

UNIT("Z01", "ownership", 1200, 30000) {
	Rng r(c.rng.next());
	story(c, r, true);
	repeat_case(c, [&] { story(c, r, false); });
}
// one class after another, so that every class is covered whatever the histories draw
UNIT("Z01", "each_class", 340, 6800) {
	uint64_t seed = c.rng.next();
	int kind = c.case_no % Soup::KINDS;
	auto once = [&](bool judge) {
		Rng r(seed);
		int live0 = ObjectDB::get_object_count();
		{
			Soup s(r);
			s.make(kind);
			if (judge) c.label(s.h.back().name);
			int n = r.range(0, 12);
			for (int i = 0; i < n; i++) { Held &h = s.h.back(); Ref<Reference> o = h.use ? h.use(r) : Ref<Reference>(); if (judge) c.count(h.name); }
			if (judge) for (auto &h : s.h) if (h.intact) c.check("input_unchanged", h.intact(), strf("the shared %s changed", h.name));
		}
		if (judge) c.check("objects_left", ObjectDB::get_object_count() == live0, strf("%d objects are alive after every handle is gone", ObjectDB::get_object_count() - live0));
	};
	once(true);
	repeat_case(c, [&] { once(false); });
}
UNIT("Z01", "refused", 100, 2000) {
	uint64_t seed = c.rng.next();
	repeat_case(c, [&] { Rng r(seed); Soup s(r); for (int i = 0; i < 20; i++) s.refuse(); });
}
