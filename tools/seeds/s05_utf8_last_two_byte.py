PROPERTY = 'R02'
NEEDS = 'a text holding U+07FF, the last character of the two-byte range'
BREAKS = 'the encoder writes U+07FF as an overlong three-byte sequence; length count and writer agree, so nothing overflows and decoding it still round-trips'
EDITS = [('platform/sfw.cpp', '''		} else if (c <= 0x7ff) { // 11 bits
			fl += 2;''', '''		} else if (c < 0x7ff) { // 11 bits
			fl += 2;''', 1),
	('platform/sfw.cpp', '''		} else if (c <= 0x7ff) { // 11 bits
			APPEND_CHAR(uint32_t(0xc0''', '''		} else if (c < 0x7ff) { // 11 bits
			APPEND_CHAR(uint32_t(0xc0''')]
DEMO = r'''
#include "platform/sfw.h"
int main() {
	SFWCore::setup();
	for (uint32_t c = 1; c < 0x3000; ++c) {
		String s = String::chr(c);
		CharString u = s.utf8();
		int want = c < 0x80 ? 1 : c < 0x800 ? 2 : 3;
		EXPECT(u.length() == want);
	}
	return 0;
}
'''
