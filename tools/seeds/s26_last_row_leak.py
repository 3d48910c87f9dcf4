PROPERTY = 'Z01'
NEEDS = 'removing the only row of a matrix'
BREAKS = 'removing the last row forgets the buffer instead of freeing it'
EDITS = [('core/mlpp_matrix.cpp', '''	if (ds == 0) {
		memfree(_data);
		_data = NULL;
		return;
	}

	for (int i = p_index * _size.x; i < ds; ++i) {''', '''	if (ds == 0) {
		_data = NULL;
		return;
	}

	for (int i = p_index * _size.x; i < ds; ++i) {''')]
DEMO = r'''
#include "core/mlpp_matrix.h"
#include <malloc.h>
int main() {
	SFWCore::setup();
	size_t before = 0;
	for (int r = 0; r < 200; ++r) {
		Ref<MLPPMatrix> m; m.instance(); m->resize(Size2i(1000, 1));
		m->row_remove(0);
		if (r == 20) before = mallinfo2().uordblks;
	}
	EXPECT(mallinfo2().uordblks < before + 100000);
	return 0;
}
'''
