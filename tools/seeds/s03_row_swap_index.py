PROPERTY = 'C06'
NEEDS = 'row_swap with a valid first and an out-of-range second row index'
BREAKS = 'row_swap checks the first index twice, so an out-of-range second row is swapped in from outside the matrix'
EDITS = [('core/mlpp_matrix.cpp', '''	ERR_FAIL_INDEX(p_index_1, _size.y);
	ERR_FAIL_INDEX(p_index_2, _size.y);

	int ind1_start''', '''	ERR_FAIL_INDEX(p_index_1, _size.y);
	ERR_FAIL_INDEX(p_index_1, _size.y);

	int ind1_start''')]
DEMO = '''
#include "core/mlpp_matrix.h"
int main() {
	SFWCore::setup();
	Ref<MLPPMatrix> a = Ref<MLPPMatrix>(memnew(MLPPMatrix));
	a->resize(Size2i(4, 4));
	for (int i = 0; i < 16; ++i) a->element_set_index(i, 100 + i);
	// shrinking keeps the block, so the row behind the end is our own old row 2
	a->resize(Size2i(4, 2));
	a->row_swap(0, 2);
	for (int i = 0; i < 8; ++i) EXPECT(a->element_get_index(i) == (real_t)(100 + i));
	return 0;
}
'''
