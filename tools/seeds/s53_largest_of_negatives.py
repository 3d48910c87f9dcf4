PROPERTY = 'C05'
NEEDS = 'a vector whose elements are all negative'
BREAKS = 'the search for the largest element starts with the smallest positive number, so for negative elements it returns that number'
EDITS = [('core/mlpp_vector.cpp', '''real_t MLPPVector::max_element() const {
	const real_t *aa = ptr();

	real_t max_element = -Math_INF;
''', '''real_t MLPPVector::max_element() const {
	const real_t *aa = ptr();

	real_t max_element = std::numeric_limits<real_t>::min();
''')]
DEMO = r'''#include "core/mlpp_matrix.h"
#include "core/mlpp_vector.h"
static Ref<MLPPVector> vec(std::vector<real_t> v) { Ref<MLPPVector> r; r.instance(); r->resize(v.size()); for (size_t i = 0; i < v.size(); i++) r->element_set(i, v[i]); return r; }
static Ref<MLPPMatrix> mat(int rows, int cols, std::vector<real_t> v) { Ref<MLPPMatrix> r; r.instance(); r->resize(Size2i(cols, rows)); for (int i = 0; i < rows * cols; i++) r->element_set(i / cols, i % cols, v[i]); return r; }
int main() {
	SFWCore::setup();
	EXPECT(vec({ 1, 3, -2 })->max_element() == 3);
	EXPECT(vec({ 0 })->max_element() == 0);
	EXPECT(vec({ -1, -3, -2 })->max_element() == -1);
	EXPECT(vec({ -1 })->min_element() == -1);
	return 0;
}
'''
