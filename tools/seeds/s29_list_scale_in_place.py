PROPERTY = 'L01'
NEEDS = 'scaling a list of matrices and using the original list afterwards'
BREAKS = 'the matrices of the given list are scaled themselves: only the list is copied, not the matrices it refers to'
EDITS = [('core/lin_alg.cpp', '\t\tA.write[i] = scalar_multiplynm(scalar, A[i]);', '\t\tA.write[i]->scalar_multiply(scalar);')]
DEMO = r'''
#include "core/lin_alg.h"
int main() {
	SFWCore::setup();
	MLPPLinAlg alg;
	Vector<Ref<MLPPMatrix>> l;
	for (int i = 0; i < 2; ++i) { Ref<MLPPMatrix> m; m.instance(); m->resize(Size2i(2, 2)); m->fill(i + 1); l.push_back(m); }
	Vector<Ref<MLPPMatrix>> r = alg.scalar_multiplynvt(3, l);
	for (int i = 0; i < 2; ++i) { EXPECT(l[i]->element_get(0, 0) == i + 1); EXPECT(r[i]->element_get(1, 1) == 3 * (i + 1)); }
	return 0;
}
'''
