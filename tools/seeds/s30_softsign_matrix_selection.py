PROPERTY = 'A02'
NEEDS = 'asking for the matrix derivative of an activation by identifier, for one activation'
BREAKS = 'the table of matrix derivative functions names the softplus derivative where the softsign derivative belongs'
EDITS = [('core/activation.cpp', '\t\t\treturn &MLPPActivation::softsign_derivm;', '\t\t\treturn &MLPPActivation::softplus_derivm;')]
DEMO = r'''
#include "core/activation.h"
int main() {
	SFWCore::setup();
	MLPPActivation act;
	Ref<MLPPMatrix> z; z.instance(); z->resize(Size2i(3, 1));
	z->element_set(0, 0, -1); z->element_set(0, 1, 0.5); z->element_set(0, 2, 2);
	MLPPActivation::MatrixActivationFunctionPointer f = act.get_activation_function_ptr_matrix(MLPPActivation::ACTIVATION_FUNCTION_SOFTSIGN, true);
	Ref<MLPPMatrix> d = (act.*f)(z);
	for (int i = 0; i < 3; ++i) { double x = z->element_get(0, i); EXPECT(fabs(d->element_get(0, i) - 1 / ((1 + fabs(x)) * (1 + fabs(x)))) < 1e-4); }
	return 0;
}
'''
