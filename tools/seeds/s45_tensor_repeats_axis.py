PROPERTY = 'N02'
NEEDS = 'the third derivatives of a function with mixed third derivatives, in the form of a list of matrices'
BREAKS = 'the third axis of the list form is differentiated along the first one again, so mixed third derivatives are wrong'
EDITS = [('core/numerical_analysis.cpp', '\t\t\t\tm->element_set(j, k, num_diff_3v(function, x, i, j, k));', '\t\t\t\tm->element_set(j, k, num_diff_3v(function, x, i, j, i));')]
DEMO = r'''#include "core/mlpp_matrix.h"
#include "core/mlpp_vector.h"
#include "core/mlpp_tensor3.h"
#include "core/numerical_analysis.h"
static Ref<MLPPVector> vec(std::vector<real_t> v) { Ref<MLPPVector> r; r.instance(); r->resize(v.size()); for (size_t i = 0; i < v.size(); i++) r->element_set(i, v[i]); return r; }
static Ref<MLPPMatrix> mat(int rows, int cols, std::vector<real_t> v) { Ref<MLPPMatrix> r; r.instance(); r->resize(Size2i(cols, rows)); for (int i = 0; i < rows * cols; i++) r->element_set(i / cols, i % cols, v[i]); return r; }
int main() {
	SFWCore::setup();
	struct F { static real_t f(const Ref<MLPPVector> &v) { Ref<MLPPVector> x = v; real_t a = x->element_get(0), b = x->element_get(1); return a * a * b + 2 * b * b * b; } };
	MLPPNumericalAnalysis n;
	Vector<Ref<MLPPMatrix>> t = n.third_order_tensorvt(&F::f, vec({ 0.5, -0.25 }));
	EXPECT(t.size() == 2);
	const real_t want[2][2][2] = { { { 0, 2 }, { 2, 0 } }, { { 2, 0 }, { 0, 12 } } };
	for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) {
		Ref<MLPPMatrix> m = t[i];
		EXPECT(std::fabs(m->element_get(j, k) - want[i][j][k]) < 0.2);
	}
	return 0;
}
'''
