PROPERTY = 'C02'
NEEDS = 'assigning a matrix to one that has the same number of elements but another shape (2x6 to 3x4)'
BREAKS = 'set_from_mlpp_matrix keeps the old shape when the number of elements happens to be equal'
EDITS = [('core/mlpp_matrix.cpp', '''	ERR_FAIL_COND(!p_from.is_valid());

	resize(p_from->size());
	for (int i = 0; i < p_from->data_size(); ++i) {
		_data[i] = p_from->_data[i];
''', '''	ERR_FAIL_COND(!p_from.is_valid());

	if (p_from->data_size() != data_size()) {
		resize(p_from->size());
	}
	for (int i = 0; i < p_from->data_size(); ++i) {
		_data[i] = p_from->_data[i];
''')]
DEMO = '''
#include "core/mlpp_matrix.h"
int main() {
	SFWCore::setup();
	Ref<MLPPMatrix> a = Ref<MLPPMatrix>(memnew(MLPPMatrix));
	Ref<MLPPMatrix> b = Ref<MLPPMatrix>(memnew(MLPPMatrix));
	a->resize(Size2i(4, 3));
	a->fill(1);
	b->resize(Size2i(6, 2));
	for (int i = 0; i < 12; ++i) b->element_set_index(i, i);
	a->set_from_mlpp_matrix(b);
	EXPECT(a->size() == b->size());
	for (int y = 0; y < 2; ++y)
		for (int x = 0; x < 6; ++x) EXPECT(a->element_get(y, x) == b->element_get(y, x));
	return 0;
}
'''
