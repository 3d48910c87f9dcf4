PROPERTY = 'H02'
NEEDS = 'training a network with three or more hidden layers'
BREAKS = 'the momentum-style trainers give the update of the first hidden layer to the middle one and the other way round'
EDITS = [('modules/ann/ann.cpp', '\t\t\tslice = hidden_layer_updations[(_network.size() - 2) - i + 1];', '\t\t\tslice = hidden_layer_updations[i + 1];')]
DEMO = r'''
#include "modules/ann/ann.h"
int main() {
	SFWCore::setup();
	Ref<MLPPMatrix> X; X.instance(); X->resize(Size2i(3, 4));
	Ref<MLPPVector> y; y.instance(); y->resize(4);
	for (int i = 0; i < 12; ++i) X->element_set_index(i, 0.1 * ((i * 5) % 7) - 0.2);
	for (int i = 0; i < 4; ++i) y->element_set(i, i % 2);
	Ref<MLPPANN> n = Ref<MLPPANN>(memnew(MLPPANN(X, y)));
	for (int i = 0; i < 3; ++i) n->add_layer(4 + i, MLPPActivation::ACTIVATION_FUNCTION_SIGMOID, MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT, MLPPReg::REGULARIZATION_TYPE_NONE, 0.5, 0.5);
	n->add_output_layer(MLPPActivation::ACTIVATION_FUNCTION_LINEAR, MLPPCost::COST_TYPE_MSE);
	real_t first = 0, last = 0;
	for (int it = 0; it < 200; ++it) {
		n->momentum(0.05, 1, 4, 0, false);
		Ref<MLPPVector> p = n->model_set_test(X);
		EXPECT(p.is_valid() && p->size() == 4);
		real_t s = 0;
		for (int i = 0; i < 4; ++i) s += (p->element_get(i) - y->element_get(i)) * (p->element_get(i) - y->element_get(i));
		EXPECT(s == s);
		if (!it) first = s;
		last = s;
	}
	EXPECT(last <= first + 1e-4);
	return 0;
}
'''
