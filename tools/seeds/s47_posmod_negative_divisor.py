PROPERTY = 'R04'
NEEDS = 'the whole-number modulo with a positive value and a negative divisor'
BREAKS = 'the result has the sign of the value instead of the divisor'
EDITS = [('platform/sfw.h', '''		int64_t value = p_x % p_y;
		if (((value < 0) && (p_y > 0)) || ((value > 0) && (p_y < 0))) {''', '''		int64_t value = p_x % p_y;
		if ((value < 0) && (p_y > 0)) {''')]
DEMO = r'''int main() {
	SFWCore::setup();
	for (int x = -20; x <= 20; x++) {
		for (int y = -7; y <= 7; y++) {
			if (y == 0) continue;
			int64_t r = Math::posmod(x, y);
			EXPECT((x - r) % y == 0);
			EXPECT(y > 0 ? (r >= 0 && r < y) : (r <= 0 && r > y));
		}
	}
	return 0;
}
'''
