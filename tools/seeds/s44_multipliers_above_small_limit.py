PROPERTY = 'O03'
NEEDS = 'dual training with a penalty below one'
BREAKS = 'the multipliers are cut off at one when the penalty is below one, so they leave the allowed range'
EDITS = [('modules/dual_svc/dual_svc.cpp', '''		if (_alpha->element_get(i) > _C) {
			_alpha->element_set(i, _C);''', '''		if (_alpha->element_get(i) > MAX(_C, (real_t)1)) {
			_alpha->element_set(i, MAX(_C, (real_t)1));''')]
DEMO = r'''#include "core/mlpp_matrix.h"
#include "core/mlpp_vector.h"
#include "modules/dual_svc/dual_svc.h"
static Ref<MLPPVector> vec(std::vector<real_t> v) { Ref<MLPPVector> r; r.instance(); r->resize(v.size()); for (size_t i = 0; i < v.size(); i++) r->element_set(i, v[i]); return r; }
static Ref<MLPPMatrix> mat(int rows, int cols, std::vector<real_t> v) { Ref<MLPPMatrix> r; r.instance(); r->resize(Size2i(cols, rows)); for (int i = 0; i < rows * cols; i++) r->element_set(i / cols, i % cols, v[i]); return r; }
struct Probe : public MLPPDualSVC {
	Probe(const Ref<MLPPMatrix> &x, const Ref<MLPPVector> &y, real_t c) : MLPPDualSVC(x, y, c) {}
	Ref<MLPPVector> alpha() const { return _alpha; }
};
int main() {
	SFWCore::setup();
	const real_t limits[] = { 0.01, 0.3, 1, 2 };
	for (int k = 0; k < 4; k++) {
		for (int run = 0; run < 10; run++) {
			Probe svc(mat(4, 2, { 1, 2, -1, 0.5, 2, -2, 0, 1 }), vec({ 1, -1, 1, -1 }), limits[k]);
			svc.gradient_descent(0.01, 3, false);
			for (int i = 0; i < 4; i++) EXPECT(svc.alpha()->element_get(i) >= 0 && svc.alpha()->element_get(i) <= limits[k]);
		}
	}
	return 0;
}
'''
