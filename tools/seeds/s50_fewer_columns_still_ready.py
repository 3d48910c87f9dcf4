PROPERTY = 'M05'
NEEDS = 'giving a support vector classifier that was initialised an input with fewer columns and as many rows'
BREAKS = 'the classifier says that it is ready although its weights do not fit its input'
EDITS = [('modules/svc/svc.cpp', '\tif (_weights->size() != k) {', '\tif (_weights->size() < k) {')]
DEMO = r'''#include "core/mlpp_matrix.h"
#include "core/mlpp_vector.h"
#include "modules/svc/svc.h"
static Ref<MLPPVector> vec(std::vector<real_t> v) { Ref<MLPPVector> r; r.instance(); r->resize(v.size()); for (size_t i = 0; i < v.size(); i++) r->element_set(i, v[i]); return r; }
static Ref<MLPPMatrix> mat(int rows, int cols, std::vector<real_t> v) { Ref<MLPPMatrix> r; r.instance(); r->resize(Size2i(cols, rows)); for (int i = 0; i < rows * cols; i++) r->element_set(i / cols, i % cols, v[i]); return r; }
int main() {
	SFWCore::setup();
	Ref<MLPPVector> y = vec({ 1, -1, 1 });
	Ref<MLPPSVC> s = memnew(MLPPSVC(mat(3, 3, { 1, 2, 3, 4, 5, 6, 7, 8, 9 }), y, 1));
	EXPECT(!s->needs_init());
	s->set_input_set(mat(3, 4, { 1, 2, 3, 4, 5, 6, 7, 8, 9, 1, 2, 3 }));
	EXPECT(s->needs_init());
	s->set_input_set(mat(3, 2, { 1, 2, 3, 4, 5, 6 }));
	EXPECT(s->needs_init());
	s->initialize();
	EXPECT(!s->needs_init());
	return 0;
}
'''
