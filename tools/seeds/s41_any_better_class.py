PROPERTY = 'M01'
NEEDS = 'three or more classes among the neighbours, of which a less frequent one is met after the most frequent one'
BREAKS = 'the highest count found so far is not remembered, so the last class that beats the first one is predicted instead of the most frequent one'
EDITS = [('modules/knn/knn.cpp', '''			max = class_nums[opi];
			final_class = opi;''', '\t\t\tfinal_class = opi;')]
DEMO = r'''#include "core/mlpp_matrix.h"
#include "core/mlpp_vector.h"
#include "modules/knn/knn.h"
static Ref<MLPPVector> vec(std::vector<real_t> v) { Ref<MLPPVector> r; r.instance(); r->resize(v.size()); for (size_t i = 0; i < v.size(); i++) r->element_set(i, v[i]); return r; }
static Ref<MLPPMatrix> mat(int rows, int cols, std::vector<real_t> v) { Ref<MLPPMatrix> r; r.instance(); r->resize(Size2i(cols, rows)); for (int i = 0; i < rows * cols; i++) r->element_set(i / cols, i % cols, v[i]); return r; }
int main() {
	SFWCore::setup();
	Ref<MLPPMatrix> x = mat(8, 1, { 1, 2, 3, 4, 5, 6, 50, 51 });
	Ref<MLPPVector> y = vec({ 7, 3, 3, 3, 9, 9, 7, 7 });
	MLPPKNN knn;
	knn.set_input_set(x);
	knn.set_output_set(y);
	knn.set_k(6);
	EXPECT(knn.model_test(vec({ 3 })) == 3);
	MLPPKNN k2;
	k2.set_input_set(x);
	k2.set_output_set(y);
	k2.set_k(2);
	EXPECT(k2.model_test(vec({ 52 })) == 7);
	EXPECT(k2.model_test(vec({ 6 })) == 9);
	return 0;
}
'''
