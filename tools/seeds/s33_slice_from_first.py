PROPERTY = 'R06'
NEEDS = 'slicing an array from or to minus its size, the first element counted from the end'
BREAKS = 'the index of a slice is clamped one short, so the first element counted from the end becomes the second'
EDITS = [('platform/sfw.cpp', 'CLAMP(p_index, -arr_size, arr_size - 1)', 'CLAMP(p_index, 1 - arr_size, arr_size - 1)')]
DEMO = r'''#include "platform/sfw.h"
int main() {
	SFWCore::setup();
	Array a;
	for (int i = 0; i < 5; i++) a.push_back(i);
	Array s = a.slice(0, 4);
	EXPECT(s.size() == 5 && (int)s[0] == 0);
	s = a.slice(-4, -2);
	EXPECT(s.size() == 3 && (int)s[0] == 1);
	s = a.slice(-5, -3);
	EXPECT(s.size() == 3 && (int)s[0] == 0 && (int)s[2] == 2);
	s = a.slice(-1, -5, -2);
	EXPECT(s.size() == 3 && (int)s[2] == 0);
	return 0;
}
'''
