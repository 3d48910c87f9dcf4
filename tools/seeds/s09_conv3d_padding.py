PROPERTY = 'N01'
NEEDS = 'a three-dimensional convolution with padding of two or more'
BREAKS = 'the far edge of the padded input is cut by the padding instead of by one, so the last rows are lost when padding is two or more (and equal for one)'
EDITS = [('core/convolutions.cpp', '''					if (i - P < 0 || j - P < 0 || i - P > input_size.y - 1 || j - P > input_size.x - 1) {
						padded_input_slice->element_set(i, j, 0);''', '''					if (i - P < 0 || j - P < 0 || i - P > input_size.y - P || j - P > input_size.x - 1) {
						padded_input_slice->element_set(i, j, 0);''')]
DEMO = r'''
#include "core/convolutions.h"
int main() {
	SFWCore::setup();
	MLPPConvolutions cv;
	Ref<MLPPTensor3> in; in.instance(); in->resize(Size3i(3, 3, 1));
	for (int i = 0; i < 9; ++i) in->element_set_index(i, i + 1);
	Ref<MLPPTensor3> f; f.instance(); f->resize(Size3i(1, 1, 1)); f->element_set_index(0, 1);
	for (int P = 1; P <= 3; ++P) {
		Ref<MLPPTensor3> r = cv.convolve_3d(in, f, 1, P);
		EXPECT(r->size() == Size3i(3 + 2 * P, 3 + 2 * P, 1));
		for (int y = 0; y < 3; ++y) for (int x = 0; x < 3; ++x) EXPECT(r->element_get(0, y + P, x + P) == in->element_get(0, y, x));
	}
	return 0;
}
'''
