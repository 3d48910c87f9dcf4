PROPERTY = 'R01'
NEEDS = 'erasing a key whose successor slot holds an element at its home position'
BREAKS = 'the backward shift after an erase also moves elements that sit at their home slot, so keys that are still stored are no longer found'
EDITS = [('platform/sfw.h', '''		while (hashes[next_pos] != EMPTY_HASH && _get_probe_length(next_pos, hashes[next_pos], capacity, capacity_inv) != 0) {
			SWAP(hashes[next_pos], hashes[pos]);
			SWAP(elements[next_pos], elements[pos]);''', '''		while (hashes[next_pos] != EMPTY_HASH) {
			SWAP(hashes[next_pos], hashes[pos]);
			SWAP(elements[next_pos], elements[pos]);''')]
DEMO = r'''
#include "platform/sfw.h"
int main() {
	SFWCore::setup();
	HashMap<int, int> m;
	for (int i = 0; i < 400; ++i) m.set(i * 7, i);
	for (int i = 0; i < 400; i += 3) EXPECT(m.erase(i * 7));
	for (int i = 0; i < 400; ++i) {
		const int *p = m.getptr(i * 7);
		EXPECT((p != nullptr) == (i % 3 != 0));
		if (p) EXPECT(*p == i);
	}
	return 0;
}
'''
