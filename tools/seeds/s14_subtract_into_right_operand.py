PROPERTY = 'C04'
NEEDS = 'storing a difference into its own right operand'
BREAKS = 'the difference is computed by copying the left operand into the target and subtracting afterwards, which loses the right operand when it is the target'
EDITS = [('core/mlpp_matrix.cpp', '''	const real_t *a_ptr = A->ptr();
	const real_t *b_ptr = B->ptr();
	real_t *c_ptr = ptrw();

	int data_size = A->data_size();

	for (int i = 0; i < data_size; ++i) {
		c_ptr[i] = a_ptr[i] - b_ptr[i];
	}''', '''	const real_t *a_ptr = A->ptr();
	const real_t *b_ptr = B->ptr();
	real_t *c_ptr = ptrw();

	int data_size = A->data_size();

	for (int i = 0; i < data_size; ++i) {
		c_ptr[i] = a_ptr[i];
	}

	for (int i = 0; i < data_size; ++i) {
		c_ptr[i] -= b_ptr[i];
	}''')]
DEMO = r'''
#include "core/mlpp_matrix.h"
int main() {
	SFWCore::setup();
	Ref<MLPPMatrix> a, b; a.instance(); b.instance();
	a->resize(Size2i(2, 2)); b->resize(Size2i(2, 2));
	for (int i = 0; i < 4; ++i) { a->element_set_index(i, 10 + i); b->element_set_index(i, i); }
	b->subb(a, b);
	for (int i = 0; i < 4; ++i) EXPECT(b->element_get_index(i) == 10);
	return 0;
}
'''
