PROPERTY = 'R10'
NEEDS = 'copying a source rectangle that starts above the source image but not left of it'
BREAKS = 'the part of the source rectangle above the image is not skipped in the destination, so the copied pixels are placed too high'
EDITS = [('platform/image.cpp', '\tVector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));', '\tVector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.x));', 1)]
DEMO = r'''#include "platform/image.h"
int main() {
	SFWCore::setup();
	Ref<Image> src = memnew(Image(4, 4, false, Image::FORMAT_L8));
	src->fill(Color(1, 1, 1));
	const int pos[][2] = { { 0, 0 }, { -1, -1 }, { 1, 0 }, { 0, -2 } };
	for (int k = 0; k < 4; k++) {
		Ref<Image> dst = memnew(Image(8, 8, false, Image::FORMAT_L8));
		dst->fill(Color(0, 0, 0));
		dst->blit_rect(src, Rect2(pos[k][0], pos[k][1], 3, 3), Vector2(2, 2));
		dst->lock();
		for (int y = 0; y < 8; y++) for (int x = 0; x < 8; x++) {
			int sx = x - 2 + pos[k][0], sy = y - 2 + pos[k][1];
			bool in = x >= 2 && y >= 2 && x < 5 && y < 5 && sx >= 0 && sy >= 0 && sx < 4 && sy < 4;
			EXPECT((dst->get_pixel(x, y).r > 0.5) == in);
		}
		dst->unlock();
	}
	return 0;
}
'''
