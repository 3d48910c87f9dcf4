PROPERTY = 'M06'
NEEDS = 'parameters with initial values that are appended to a file without a layer number'
BREAKS = 'without a layer number the file is replaced although appending was asked for, so the parameters saved before are lost'
EDITS = [('core/utilities.cpp', '''	if (app) {
		saveFile.open(fileName.c_str(), std::ios_base::app);''', '''	if (app && !layer_info.empty()) {
		saveFile.open(fileName.c_str(), std::ios_base::app);''', 2)]
DEMO = r'''#include "core/utilities.h"
#include <fstream>
#include <string>
int main() {
	SFWCore::setup();
	MLPPUtilities u;
	std::vector<real_t> a = { 1, 2, 3 };
	std::vector<real_t> b = { 4, 5 };
	u.saveParameters("parameters.txt", a, (real_t)6);
	u.saveParameters("parameters.txt", a, b, (real_t)7, true, 2);
	u.saveParameters("parameters.txt", b, a, (real_t)8, true);
	std::ifstream in("parameters.txt");
	std::string l;
	std::string all;
	while (std::getline(in, l)) {
		if (!l.empty() && isdigit((unsigned char)l[0])) {
			all += l + ",";
		}
	}
	EXPECT(all == "1,2,3,6,1,2,3,4,5,7,4,5,1,2,3,8,");
	return 0;
}
'''
