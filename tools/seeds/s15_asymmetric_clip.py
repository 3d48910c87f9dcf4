PROPERTY = 'K02'
NEEDS = 'weight clipping of a matrix with thresholds that are not symmetric around zero'
BREAKS = 'the lower threshold of weight clipping is taken as minus the upper one for matrices'
EDITS = [('core/reg.cpp', '''		if (wj > alpha) {
			return alpha;
		} else if (wj < lambda) {
			return lambda;
		} else {
			return wj;
		}
	} else {
		return 0;
	}
}
real_t MLPPReg::reg_deriv_termmr''', '''		if (wj > alpha) {
			return alpha;
		} else if (wj < -alpha) {
			return -alpha;
		} else {
			return wj;
		}
	} else {
		return 0;
	}
}
real_t MLPPReg::reg_deriv_termmr''')]
DEMO = r'''
#include "core/reg.h"
int main() {
	SFWCore::setup();
	MLPPReg r;
	Ref<MLPPVector> w; w.instance(); w->resize(5);
	for (int i = 0; i < 5; ++i) w->element_set(i, -2 + i);
	Ref<MLPPVector> c = r.reg_weightsv(w, -0.5, 1.5, MLPPReg::REGULARIZATION_TYPE_WEIGHT_CLIPPING);
	real_t want[5] = { -0.5, -0.5, 0, 1, 1.5 };
	for (int i = 0; i < 5; ++i) EXPECT(Math::abs(c->element_get(i) - want[i]) < 1e-6);
	return 0;
}
'''
