PROPERTY = 'P01'
NEEDS = 'a column that holds only negative values'
BREAKS = 'the largest value of a column is taken to be at least zero, so a column of negative values does not reach 1'
EDITS = [('core/data.cpp', 'max_elements[i] = row_tmp->max_element();', 'max_elements[i] = MAX(row_tmp->max_element(), (real_t)0);')]
DEMO = r'''#include "core/mlpp_matrix.h"
#include "core/mlpp_vector.h"
#include "core/data.h"
static Ref<MLPPVector> vec(std::vector<real_t> v) { Ref<MLPPVector> r; r.instance(); r->resize(v.size()); for (size_t i = 0; i < v.size(); i++) r->element_set(i, v[i]); return r; }
static Ref<MLPPMatrix> mat(int rows, int cols, std::vector<real_t> v) { Ref<MLPPMatrix> r; r.instance(); r->resize(Size2i(cols, rows)); for (int i = 0; i < rows * cols; i++) r->element_set(i / cols, i % cols, v[i]); return r; }
int main() {
	SFWCore::setup();
	MLPPData d;
	Ref<MLPPMatrix> x = mat(3, 2, { 1, -10, 2, -20, 3, -30 });
	Ref<MLPPMatrix> s = d.feature_scaling(x);
	for (int i = 0; i < 3; i++) {
		EXPECT(std::fabs(s->element_get(i, 0) - i * 0.5) < 1e-5);
		EXPECT(std::fabs(s->element_get(i, 1) - (1 - i * 0.5)) < 1e-5);
	}
	return 0;
}
'''
