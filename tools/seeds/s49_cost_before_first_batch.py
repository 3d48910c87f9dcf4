PROPERTY = 'M04'
NEEDS = 'reports of mini-batch training of a support vector classifier with at least two batches'
BREAKS = 'the cost before the step is only computed for the first batch, so later reports state a wrong decrease'
EDITS = [('modules/svc/svc.cpp', '''			cost_prev = cost(z, current_output_batch_entry, _weights, _c);

''', '''			cost_prev = i == 0 ? cost(z, current_output_batch_entry, _weights, _c) : cost_prev;

''', 1)]
DEMO = r'''#include "core/mlpp_matrix.h"
#include "core/mlpp_vector.h"
#include "modules/svc/svc.h"
#include <unistd.h>
static Ref<MLPPVector> vec(std::vector<real_t> v) { Ref<MLPPVector> r; r.instance(); r->resize(v.size()); for (size_t i = 0; i < v.size(); i++) r->element_set(i, v[i]); return r; }
static Ref<MLPPMatrix> mat(int rows, int cols, std::vector<real_t> v) { Ref<MLPPMatrix> r; r.instance(); r->resize(Size2i(cols, rows)); for (int i = 0; i < rows * cols; i++) r->element_set(i / cols, i % cols, v[i]); return r; }
int main() {
	SFWCore::setup();
	// A learning rate of zero changes nothing, so no step lowers the cost.
	char name[] = "reportsXXXXXX";
	int fd = mkstemp(name);
	EXPECT(fd >= 0);
	fflush(stdout);
	int keep = dup(1);
	dup2(fd, 1);
	{
		Ref<MLPPSVC> s = memnew(MLPPSVC(mat(6, 2, { 1, 2, -3, 4, 5, 6, 7, -8, 0, 1, 2, 3 }), vec({ 1, -1, 1, -1, 1, -1 }), 1));
		s->train_mbgd(0, 2, 2, true);
	}
	fflush(stdout);
	dup2(keep, 1);
	FILE *f = fopen(name, "r");
	char line[4096];
	int reports = 0;
	bool good = true;
	while (fgets(line, sizeof line, f)) {
		const char *p = strstr(line, "minimized by ");
		if (p) {
			reports++;
			good = good && std::fabs(atof(p + 13)) < 1e-5;
		}
	}
	fclose(f);
	unlink(name);
	EXPECT(reports == 6);
	EXPECT(good);
	return 0;
}
'''
