PROPERTY = 'U01'
NEEDS = 'matrix labels in the standard-vector interface and at least two left-over rows'
BREAKS = "the labels of the rows left over for the last batch are taken from the end backwards, so these rows get each other's labels"
EDITS = [('core/utilities.cpp', '\t\t\toutputMiniBatches[n_mini_batch - 1].push_back(outputSet[n / n_mini_batch * n_mini_batch + i]);', '\t\t\toutputMiniBatches[n_mini_batch - 1].push_back(outputSet[n - 1 - i]);', 2)]
DEMO = r'''#include "core/mlpp_matrix.h"
#include "core/mlpp_vector.h"
#include "core/utilities.h"
static Ref<MLPPVector> vec(std::vector<real_t> v) { Ref<MLPPVector> r; r.instance(); r->resize(v.size()); for (size_t i = 0; i < v.size(); i++) r->element_set(i, v[i]); return r; }
static Ref<MLPPMatrix> mat(int rows, int cols, std::vector<real_t> v) { Ref<MLPPMatrix> r; r.instance(); r->resize(Size2i(cols, rows)); for (int i = 0; i < rows * cols; i++) r->element_set(i / cols, i % cols, v[i]); return r; }
int main() {
	SFWCore::setup();
	for (int n = 4; n < 12; n++) {
		for (int b = 1; b <= 4; b++) {
			std::vector<std::vector<real_t>> x, y;
			for (int i = 0; i < n; i++) {
				x.push_back({ (real_t)i, (real_t)1 });
				y.push_back({ (real_t)(100 + i) });
			}
			auto r = MLPPUtilities::createMiniBatches(x, y, b);
			int row = 0;
			for (int k = 0; k < b; k++) {
				EXPECT(std::get<0>(r)[k].size() == std::get<1>(r)[k].size());
				for (size_t j = 0; j < std::get<0>(r)[k].size(); j++, row++) {
					EXPECT(std::get<0>(r)[k][j][0] == row);
					EXPECT(std::get<1>(r)[k][j][0] == 100 + row);
				}
			}
			EXPECT(row == n);
		}
	}
	return 0;
}
'''
