PROPERTY = 'C07'
NEEDS = 'importing an image into a depth slice with a selection of several channels that does not start with red'
BREAKS = 'with several channels selected red is imported instead of the first selected channel'
EDITS = [('core/mlpp_tensor3.cpp', '''    if (((p_image_channel_flag & (1 << i)) != 0)) {
      channel_index = i;
      break;
    }''', '''    if (((p_image_channel_flag & (1 << i)) != 0)) {
      channel_index = channel_index == -1 ? i : 0;
    }''', 1)]
DEMO = r'''#include "core/mlpp_matrix.h"
#include "core/mlpp_vector.h"
#include "core/mlpp_tensor3.h"
#include "platform/image.h"
static Ref<MLPPVector> vec(std::vector<real_t> v) { Ref<MLPPVector> r; r.instance(); r->resize(v.size()); for (size_t i = 0; i < v.size(); i++) r->element_set(i, v[i]); return r; }
static Ref<MLPPMatrix> mat(int rows, int cols, std::vector<real_t> v) { Ref<MLPPMatrix> r; r.instance(); r->resize(Size2i(cols, rows)); for (int i = 0; i < rows * cols; i++) r->element_set(i / cols, i % cols, v[i]); return r; }
int main() {
	SFWCore::setup();
	Ref<Image> img = memnew(Image(2, 2, false, Image::FORMAT_RGBA8));
	img->fill(Color(0.2, 0.4, 0.6, 0.8));
	for (int flags = 1; flags < 16; flags++) {
		Ref<MLPPTensor3> t;
		t.instance();
		t->resize(Size3i(2, 2, 2));
		t->fill(0);
		t->z_slice_set_image(img, 1, flags);
		int first = 0;
		while (!(flags & (1 << first))) first++;
		EXPECT(std::fabs(t->element_get(1, 1, 0) - 0.2 * (first + 1)) < 0.01);
		EXPECT(t->element_get(0, 1, 0) == 0);
	}
	return 0;
}
'''
