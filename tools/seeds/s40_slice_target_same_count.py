PROPERTY = 'C03'
NEEDS = 'reading a slice across the first axis into a table that has another shape with the same number of elements'
BREAKS = 'a target with the right number of elements is not reshaped, so the slice is written with the wrong shape'
EDITS = [('core/mlpp_tensor3.cpp', '''  if (unlikely(target->size() != Size2i(_size.y, _size.z))) {
    target->resize(Size2i(_size.y, _size.z));''', '''  if (unlikely(target->data_size() != _size.y * _size.z)) {
    target->resize(Size2i(_size.y, _size.z));''')]
DEMO = r'''#include "core/mlpp_matrix.h"
#include "core/mlpp_vector.h"
#include "core/mlpp_tensor3.h"
static Ref<MLPPVector> vec(std::vector<real_t> v) { Ref<MLPPVector> r; r.instance(); r->resize(v.size()); for (size_t i = 0; i < v.size(); i++) r->element_set(i, v[i]); return r; }
static Ref<MLPPMatrix> mat(int rows, int cols, std::vector<real_t> v) { Ref<MLPPMatrix> r; r.instance(); r->resize(Size2i(cols, rows)); for (int i = 0; i < rows * cols; i++) r->element_set(i / cols, i % cols, v[i]); return r; }
int main() {
	SFWCore::setup();
	Ref<MLPPTensor3> t;
	t.instance();
	t->resize(Size3i(4, 3, 2));
	for (int i = 0; i < 24; i++) t->ptrw()[i] = i;
	for (int shape = 0; shape < 4; shape++) {
		const int co[] = { 3, 2, 6, 1 }, ro[] = { 2, 3, 1, 1 };
		Ref<MLPPMatrix> m;
		m.instance();
		m->resize(Size2i(co[shape], ro[shape]));
		m->fill(-1);
		t->x_slice_get_into(2, m);
		EXPECT(m->size() == Size2i(3, 2));
		for (int z = 0; z < 2; z++) for (int y = 0; y < 3; y++) EXPECT(m->element_get(z, y) == z * 12 + y * 4 + 2);
	}
	return 0;
}
'''
