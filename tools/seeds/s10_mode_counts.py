PROPERTY = 'S01'
NEEDS = 'a sample whose most frequent value is followed, in order, by one of middle frequency'
BREAKS = 'the best count is not carried along, so any later value more frequent than the first one replaces the mode'
EDITS = [('core/stat.cpp', '''			max_num = element_num[x_set_ptr[i]];
			modes.clear();''', '\t\t\tmodes.clear();')]
DEMO = r'''
#include "core/stat.h"
int main() {
	SFWCore::setup();
	MLPPStat st;
	Ref<MLPPVector> v; v.instance();
	real_t d[] = { 1, 5, 5, 5, 9, 9 };
	for (real_t x : d) v->push_back(x);
	Ref<MLPPVector> m = st.mode(v);
	EXPECT(m->size() == 1 && m->element_get(0) == 5);
	return 0;
}
'''
