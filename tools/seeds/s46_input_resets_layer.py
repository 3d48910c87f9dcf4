PROPERTY = 'H01'
NEEDS = 'giving an output layer another input after its construction'
BREAKS = 'replacing the input makes the layer create new random weights at the next pass'
EDITS = [('modules/output_layer/output_layer.cpp', '''void MLPPOutputLayer::set_input(const Ref<MLPPMatrix> &val) {
	_input = val;
''', '''void MLPPOutputLayer::set_input(const Ref<MLPPMatrix> &val) {
	_initialized = _initialized && _input == val;
	_input = val;
''')]
DEMO = r'''#include "core/mlpp_matrix.h"
#include "core/mlpp_vector.h"
#include "modules/output_layer/output_layer.h"
static Ref<MLPPVector> vec(std::vector<real_t> v) { Ref<MLPPVector> r; r.instance(); r->resize(v.size()); for (size_t i = 0; i < v.size(); i++) r->element_set(i, v[i]); return r; }
static Ref<MLPPMatrix> mat(int rows, int cols, std::vector<real_t> v) { Ref<MLPPMatrix> r; r.instance(); r->resize(Size2i(cols, rows)); for (int i = 0; i < rows * cols; i++) r->element_set(i / cols, i % cols, v[i]); return r; }
int main() {
	SFWCore::setup();
	Ref<MLPPMatrix> a = mat(3, 2, { 1, 2, 3, 4, 5, 6 });
	Ref<MLPPMatrix> b = mat(2, 2, { -1, 2, 0.5, 4 });
	Ref<MLPPOutputLayer> l = memnew(MLPPOutputLayer(2, MLPPActivation::ACTIVATION_FUNCTION_LINEAR, MLPPCost::COST_TYPE_MSE, a, MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT, MLPPReg::REGULARIZATION_TYPE_NONE, 0, 0));
	l->set_weights(vec({ 7, -9 }));
	l->set_bias(3);
	l->set_input(b);
	l->forward_pass();
	EXPECT(l->get_weights()->element_get(0) == 7 && l->get_weights()->element_get(1) == -9 && l->get_bias() == 3);
	EXPECT(std::fabs(l->get_a()->element_get(0) - (-7 - 18 + 3)) < 1e-4);
	EXPECT(std::fabs(l->get_a()->element_get(1) - (3.5 - 36 + 3)) < 1e-4);
	return 0;
}
'''
