PROPERTY = 'D01'
NEEDS = 'the adjugate or inverse of a matrix of order 3 or more'
BREAKS = 'the sign of a minor is positive only when row and column are both even, so the entries with odd row and odd column are negated'
EDITS = [('core/mlpp_matrix.cpp', '\t\t\tint sign = (i + j) % 2 == 0 ? 1 : -1;', '\t\t\tint sign = (i % 2 == 0 || j % 2 == 0) && (i + j) % 2 == 0 ? 1 : -1;')]
DEMO = r'''
#include "core/mlpp_matrix.h"
int main() {
	SFWCore::setup();
	Ref<MLPPMatrix> a; a.instance(); a->resize(Size2i(4, 4));
	real_t d[16] = { 4, 1, 0, 2, 1, 5, 2, 0, 0, 1, 6, 1, 3, 0, 1, 7 };
	for (int i = 0; i < 16; ++i) a->element_set_index(i, d[i]);
	Ref<MLPPMatrix> p = a->multn(a->inverse());
	for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) EXPECT(Math::abs(p->element_get(i, j) - (i == j)) < 1e-3);
	return 0;
}
'''
