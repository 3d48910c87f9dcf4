PROPERTY = 'D02'
NEEDS = 'a symmetric matrix with an eigenvalue that is exactly zero and no negative one'
BREAKS = 'a positive semidefinite matrix is reported as positive definite'
EDITS = [('core/lin_alg.cpp', 'eigenvals->element_get(i, i) <= 0) {', 'eigenvals->element_get(i, i) < 0) {')]
DEMO = r'''#include "core/mlpp_matrix.h"
#include "core/mlpp_vector.h"
#include "core/lin_alg.h"
static Ref<MLPPVector> vec(std::vector<real_t> v) { Ref<MLPPVector> r; r.instance(); r->resize(v.size()); for (size_t i = 0; i < v.size(); i++) r->element_set(i, v[i]); return r; }
static Ref<MLPPMatrix> mat(int rows, int cols, std::vector<real_t> v) { Ref<MLPPMatrix> r; r.instance(); r->resize(Size2i(cols, rows)); for (int i = 0; i < rows * cols; i++) r->element_set(i / cols, i % cols, v[i]); return r; }
int main() {
	SFWCore::setup();
	MLPPLinAlg alg;
	EXPECT(alg.positive_definite_checker(mat(2, 2, { 2, 1, 1, 2 })));
	EXPECT(!alg.positive_definite_checker(mat(2, 2, { 1, 2, 2, 1 })));
	EXPECT(!alg.positive_definite_checker(mat(2, 2, { 3, 0, 0, 0 })));
	EXPECT(!alg.positive_definite_checker(mat(3, 3, { 1, 0, 0, 0, 0, 0, 0, 0, 4 })));
	return 0;
}
'''
