PROPERTY = 'R01'
NEEDS = 'moving a list element before the first one'
BREAKS = 'an element moved before the first is linked in, but the list still starts at the old first element'
EDITS = [('platform/sfw.h', '''		if (where->prev_ptr) {
			where->prev_ptr->next_ptr = value;
		} else {
			_data->first = value;
		};

		where->prev_ptr = value;
	};
''', '''		if (where->prev_ptr) {
			where->prev_ptr->next_ptr = value;
		}

		where->prev_ptr = value;
	};
''')]
DEMO = r'''
#include "platform/sfw.h"
int main() {
	SFWCore::setup();
	List<int> l;
	for (int i = 0; i < 4; ++i) l.push_back(i);
	l.move_before(l.back(), l.front());
	std::vector<int> v;
	for (List<int>::Element *e = l.front(); e; e = e->next()) v.push_back(e->get());
	int want[] = { 3, 0, 1, 2 };
	EXPECT(v.size() == 4);
	for (int i = 0; i < 4; ++i) EXPECT(v[i] == want[i]);
	return 0;
}
'''
