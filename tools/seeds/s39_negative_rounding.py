PROPERTY = 'U02'
NEEDS = 'matrix predictions below zero that are not whole numbers'
BREAKS = 'predictions are rounded by adding a half and cutting off the fraction, which is wrong for negative values, so right predictions are not counted'
EDITS = [('core/utilities.cpp', 'Math::is_equal_approx(Math::round(y_hat->element_get(i, j)), y->element_get(i, j))', 'Math::is_equal_approx(static_cast<int>(y_hat->element_get(i, j) + (real_t)0.5), y->element_get(i, j))')]
DEMO = r'''#include "core/mlpp_matrix.h"
#include "core/mlpp_vector.h"
#include "core/utilities.h"
static Ref<MLPPVector> vec(std::vector<real_t> v) { Ref<MLPPVector> r; r.instance(); r->resize(v.size()); for (size_t i = 0; i < v.size(); i++) r->element_set(i, v[i]); return r; }
static Ref<MLPPMatrix> mat(int rows, int cols, std::vector<real_t> v) { Ref<MLPPMatrix> r; r.instance(); r->resize(Size2i(cols, rows)); for (int i = 0; i < rows * cols; i++) r->element_set(i / cols, i % cols, v[i]); return r; }
int main() {
	SFWCore::setup();
	MLPPUtilities u;
	EXPECT(std::fabs(u.performance_mat(mat(2, 2, { 1.2, 0.4, 2.9, 1.1 }), mat(2, 2, { 1, 0, 3, 1 })) - 1) < 1e-5);
	EXPECT(std::fabs(u.performance_mat(mat(2, 2, { 1.2, -0.8, 2.9, 1.1 }), mat(2, 2, { 1, -1, 3, 1 })) - 1) < 1e-5);
	EXPECT(std::fabs(u.performance_mat(mat(2, 1, { -1.2, -2.8 }), mat(2, 1, { -1, 3 })) - 0.5) < 1e-5);
	return 0;
}
'''
