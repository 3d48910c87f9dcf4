PROPERTY = 'P02'
NEEDS = 'a text in which the same stop word stands twice in a row'
BREAKS = 'after a stop word was removed the word that moved into its place is skipped, so of a doubled stop word one stays'
EDITS = [('core/data.cpp', '''				segmented_data.remove(j);
				--j;''', '\t\t\t\tsegmented_data.remove(j);')]
DEMO = r'''#include "core/data.h"
int main() {
	SFWCore::setup();
	MLPPData d;
	d.load_default_stop_words();
	Vector<String> r = d.remove_stop_words("The cat and the dog");
	EXPECT(r.size() == 2 && r[0] == "cat" && r[1] == "dog");
	r = d.remove_stop_words("I said that that that was her cat");
	for (int i = 0; i < r.size(); i++) EXPECT(r[i] != "that");
	EXPECT(r.size() >= 1 && r[r.size() - 1] == "cat");
	return 0;
}
'''
