PROPERTY = 'A01'
NEEDS = 'the adjusted softmax of a matrix whose values are used again afterwards'
BREAKS = 'the matrix form writes its result into the matrix it was given'
EDITS = [('core/activation.cpp', '''Ref<MLPPMatrix> MLPPActivation::adj_softmax_normm(const Ref<MLPPMatrix> &z) {
	Ref<MLPPMatrix> n = z->duplicate_fast();''', '''Ref<MLPPMatrix> MLPPActivation::adj_softmax_normm(const Ref<MLPPMatrix> &z) {
	Ref<MLPPMatrix> n = z;''')]
DEMO = r'''#include "core/mlpp_matrix.h"
#include "core/mlpp_vector.h"
#include "core/activation.h"
static Ref<MLPPVector> vec(std::vector<real_t> v) { Ref<MLPPVector> r; r.instance(); r->resize(v.size()); for (size_t i = 0; i < v.size(); i++) r->element_set(i, v[i]); return r; }
static Ref<MLPPMatrix> mat(int rows, int cols, std::vector<real_t> v) { Ref<MLPPMatrix> r; r.instance(); r->resize(Size2i(cols, rows)); for (int i = 0; i < rows * cols; i++) r->element_set(i / cols, i % cols, v[i]); return r; }
int main() {
	SFWCore::setup();
	MLPPActivation avn;
	Ref<MLPPMatrix> z = mat(2, 3, { 1, 2, 3, -1, 0, 1 });
	Ref<MLPPMatrix> a = avn.adj_softmax_normm(z);
	const real_t want[] = { 1, 2, 3, -1, 0, 1 };
	for (int i = 0; i < 6; i++) EXPECT(z->element_get(i / 3, i % 3) == want[i]);
	for (int i = 0; i < 2; i++) {
		real_t s = 0;
		for (int j = 0; j < 3; j++) s += a->element_get(i, j);
		EXPECT(std::fabs(s - 1) < 1e-4);
	}
	return 0;
}
'''
