PROPERTY = 'K01'
NEEDS = 'the matrix Huber cost with a delta other than 1 and an error larger than delta'
BREAKS = 'the linear branch subtracts delta instead of its square, so the cost jumps where the branches meet'
EDITS = [('core/cost.cpp', '\t\t\tsum += 2 * delta * ABS(y_ptr[i] - y_hat_ptr[i]) - delta * delta;', '\t\t\tsum += 2 * delta * ABS(y_ptr[i] - y_hat_ptr[i]) - delta;', 2)]
DEMO = r'''
#include "core/cost.h"
int main() {
	SFWCore::setup();
	MLPPCost c;
	Ref<MLPPMatrix> a, b; a.instance(); b.instance(); a->resize(Size2i(2, 1)); b->resize(Size2i(2, 1));
	a->fill(0); b->fill(0); a->element_set(0, 0, 5);
	EXPECT(Math::abs(c.huber_lossm(a, b, 2) - (2 * 2 * 5 - 4)) < 1e-4);
	return 0;
}
'''
