PROPERTY = 'R02'
NEEDS = 'natural comparison with leading zeros in a number of the right operand'
BREAKS = 'leading zeros are skipped in the left operand only, so "a7" and "a007" no longer compare equal and the order is not antisymmetric'
EDITS = [('platform/sfw.cpp', '''				while (*that_substr == '0') {
					that_substr++;
				}
''', '')]
DEMO = r'''
#include "platform/sfw.h"
int main() {
	SFWCore::setup();
	EXPECT(String("a7").naturalnocasecmp_to("a007") == 0);
	EXPECT(String("a10").naturalnocasecmp_to("a009") == 1);
	EXPECT(String("a009").naturalnocasecmp_to("a10") == -1);
	return 0;
}
'''
