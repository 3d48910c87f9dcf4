PROPERTY = 'O01'
NEEDS = 'a full-batch step of exponential regression large enough to move the weight'
BREAKS = 'the gradient of the initial values is taken after the weight of that column has been moved, so it belongs to other parameters than the rest of the step'
EDITS = [('modules/exp_reg/exp_reg.cpp', '''			real_t w_gradient = sum / _n;

			// Calculating the initial gradient
			real_t sum2 = 0;
			for (int j = 0; j < _n; j++) {
				sum2 += error->element_get(j) * Math::pow(_weights->element_get(i), _input_set->element_get(j, i));
			}

			real_t i_gradient = sum2 / _n;

			// Weight/initial updation
			_weights->element_set(i, _weights->element_get(i) - learning_rate * w_gradient);
			_initial''', '''			real_t w_gradient = sum / _n;
			_weights->element_set(i, _weights->element_get(i) - learning_rate * w_gradient);

			// Calculating the initial gradient
			real_t sum2 = 0;
			for (int j = 0; j < _n; j++) {
				sum2 += error->element_get(j) * Math::pow(_weights->element_get(i), _input_set->element_get(j, i));
			}

			real_t i_gradient = sum2 / _n;

			// Initial updation
			_initial''', 1)]
DEMO = r'''
#include "modules/exp_reg/exp_reg.h"
#include <cfloat>
// one column, all inputs 1: the model is i * w + b; from three predictions the parameters follow
static void params(const Ref<MLPPExpReg> &pm, double &i, double &w, double &b) {
	Ref<MLPPExpReg> m = pm;
	Ref<MLPPVector> x; x.instance(); x->resize(1);
	double f[3];
	for (int k = 0; k < 3; ++k) { x->element_set(0, k); f[k] = m->model_test(x); }
	// f0 = i + b, f1 = i w + b, f2 = i w^2 + b
	w = (f[2] - f[1]) / (f[1] - f[0]);
	i = (f[1] - f[0]) / (w - 1);
	b = f[0] - i;
}
int main() {
	SFWCore::setup();
	int judged = 0;
	for (int t = 0; t < 200 && judged < 5; ++t) {
		Ref<MLPPMatrix> X; X.instance(); X->resize(Size2i(1, 2)); X->element_set(0, 0, 2); X->element_set(1, 0, 3);
		Ref<MLPPVector> y; y.instance(); y->resize(2); y->element_set(0, 6); y->element_set(1, 9);
		Ref<MLPPExpReg> m = Ref<MLPPExpReg>(memnew(MLPPExpReg(X, y)));
		double i, w, b, i2, w2, b2;
		params(m, i, w, b);
		if (!(w > 0.3 && w < 0.8 && i > 0.3)) continue;
		double lr = 0.05, e0 = i * w * w + b - 6, e1 = i * w * w * w + b - 9;
		double gw = (e0 * i * 2 * w + e1 * i * 3 * w * w) / 2, gi = (e0 * w * w + e1 * w * w * w) / 2;
		m->gradient_descent(lr, 1, false);
		params(m, i2, w2, b2);
		if (fabs(w2 - 1) < 0.15) continue;
		++judged;
		EXPECT(fabs(w2 - (w - lr * gw)) < 0.01);
		EXPECT(fabs(i2 - (i - lr * gi)) < 0.01);
	}
	EXPECT(judged > 0);
	return 0;
}
'''
