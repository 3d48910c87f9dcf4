PROPERTY = 'O02'
NEEDS = 'two or more epochs of Adam training'
BREAKS = 'the moment estimates of Adam start from zero again in every epoch while the bias correction goes on'
EDITS = [('modules/lin_reg/lin_reg.cpp', '''	// Initializing necessary components for Adam.
	Ref<MLPPVector> m = MLPPVector::create_vec_zero(_weights->size());
	Ref<MLPPVector> v = MLPPVector::create_vec_zero(_weights->size());

	while (true) {
		for (int i = 0; i < n_mini_batch; i++) {
			Ref<MLPPMatrix> current_input_mini_batch = batches.input_sets[i];
			Ref<MLPPVector> current_output_mini_batch = batches.output_sets[i];

			Ref<MLPPVector> y_hat = evaluatem(current_input_mini_batch);
			cost_prev = cost(y_hat, current_output_mini_batch);

			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);

			// Calculating the weight gradients
			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final

			m = m->scalar_multiplyn(b1)->addn(weight_grad->scalar_multiplyn(1 - b1));
			v = v->scalar_multiplyn(b2)->addn''', '''	while (true) {
		// Initializing necessary components for Adam.
		Ref<MLPPVector> m = MLPPVector::create_vec_zero(_weights->size());
		Ref<MLPPVector> v = MLPPVector::create_vec_zero(_weights->size());

		for (int i = 0; i < n_mini_batch; i++) {
			Ref<MLPPMatrix> current_input_mini_batch = batches.input_sets[i];
			Ref<MLPPVector> current_output_mini_batch = batches.output_sets[i];

			Ref<MLPPVector> y_hat = evaluatem(current_input_mini_batch);
			cost_prev = cost(y_hat, current_output_mini_batch);

			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);

			// Calculating the weight gradients
			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final

			m = m->scalar_multiplyn(b1)->addn(weight_grad->scalar_multiplyn(1 - b1));
			v = v->scalar_multiplyn(b2)->addn''')]
DEMO = r'''
#include "modules/lin_reg/lin_reg.h"
int main() {
	SFWCore::setup();
	// one weight, inputs all 1 and zero outputs: the gradient is w + b, and Adam can be followed by hand
	Ref<MLPPMatrix> X; X.instance(); X->resize(Size2i(1, 2)); X->fill(1);
	Ref<MLPPVector> y; y.instance(); y->resize(2); y->fill(3);
	Ref<MLPPLinReg> m = Ref<MLPPLinReg>(memnew(MLPPLinReg(X, y, MLPPReg::REGULARIZATION_TYPE_NONE, 0.5, 0.5)));
	m->initialize();
	Ref<MLPPVector> x1; x1.instance(); x1->resize(1); x1->element_set(0, 1);
	Ref<MLPPVector> x0; x0.instance(); x0->resize(1); x0->element_set(0, 0);
	double b = m->model_test(x0), w = m->model_test(x1) - b, mm = 0, vv = 0;
	for (int t = 1; t <= 40; ++t) {
		double g = w + b - 3;
		mm = 0.9 * mm + 0.1 * g; vv = 0.99 * vv + 0.01 * g * g;
		w -= 0.1 * (mm / (1 - pow(0.9, t))) / (sqrt(vv / (1 - pow(0.99, t))) + 1e-6);
		b -= 0.1 * g;
	}
	m->adam(0.1, 40, 2, 0.9, 0.99, 1e-6, false);
	double gb = m->model_test(x0), gw = m->model_test(x1) - gb;
	EXPECT(fabs(gw - w) < 1e-3 && fabs(gb - b) < 1e-3);
	return 0;
}
'''
