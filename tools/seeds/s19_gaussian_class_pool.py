PROPERTY = 'M03'
NEEDS = 'Gaussian naive Bayes with two or more classes of different location'
BREAKS = 'the sample pool is not emptied between classes, so every class but the first one computed also counts the values of the classes before it'
EDITS = [('modules/gaussian_nb/gaussian_nb.cpp', '''	for (int i = _class_num - 1; i >= 0; i--) {
		PoolRealArray set;
''', '''	PoolRealArray set;
	for (int i = _class_num - 1; i >= 0; i--) {
''')]
DEMO = r'''
#include "modules/gaussian_nb/gaussian_nb.h"
int main() {
	SFWCore::setup();
	Ref<MLPPMatrix> X; X.instance(); X->resize(Size2i(1, 12));
	Ref<MLPPVector> y; y.instance(); y->resize(12);
	// class 0 around 0, class 1 around 4
	for (int i = 0; i < 6; ++i) { X->element_set(i, 0, -1 + 0.4 * i); y->element_set(i, 0); }
	for (int i = 6; i < 12; ++i) { X->element_set(i, 0, 3 + 0.4 * (i - 6)); y->element_set(i, 1); }
	Ref<MLPPGaussianNB> m = Ref<MLPPGaussianNB>(memnew(MLPPGaussianNB(X, y, 2)));
	m->initialize();
	Ref<MLPPVector> x; x.instance(); x->resize(1);
	// well inside the half of class 0 / class 1 (the two normals have equal width)
	for (int i = 0; i <= 10; ++i) { x->element_set(0, 1.0 + 0.08 * i); EXPECT(m->model_test(x) == 0); }
	for (int i = 0; i <= 10; ++i) { x->element_set(0, 2.3 + 0.1 * i); EXPECT(m->model_test(x) == 1); }
	return 0;
}
'''
