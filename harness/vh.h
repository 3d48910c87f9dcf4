// Common part of the monitors: deterministic generation, result recording, double-precision
// reference containers and the error-log monitor.  See DESIGN.md, section "Machinery".
#pragma once
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "core/activation.h"
#include "core/convolutions.h"
#include "core/cost.h"
#include "core/data.h"
#include "core/lin_alg.h"
#include "core/mlpp_matrix.h"
#include "core/mlpp_tensor3.h"
#include "core/mlpp_vector.h"
#include "core/numerical_analysis.h"
#include "core/reg.h"
#include "core/stat.h"
#include "core/transforms.h"
#include "core/utilities.h"

namespace vh {

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}
	int range(int a, int b) { // inclusive
		return b <= a ? a : a + (int)(next() % (uint64_t)(b - a + 1));
	}
	bool chance(double p) { return uni(0, 1) < p; }
	double uni(double a, double b) { return a + (b - a) * ((next() >> 11) * (1.0 / 9007199254740992.0)); }
	float f(double a, double b) { return (float)uni(a, b); }
	template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};

struct Ctx {
	Rng rng;
	std::string unit;
	long case_no = 0;
	bool thorough = false;
	std::string where; // sub-label of the current step
	explicit Ctx(uint64_t seed) : rng(seed) {}

	void label(const std::string &l); // also published for crash attribution
	// records a violation; key = unit|label|kind
	void fail(const std::string &kind, const std::string &msg);
	// counts one judged observation; h describes what was observed (for distinctness)
	void obs(uint64_t h, bool nontrivial = true);
	void count(const char *what, long n = 1);
	void sample(const std::string &s);

	// judged comparisons
	bool eq(const std::string &kind, double got, double want, double rtol = 2e-5, double atol = 1e-6);
	bool check(const std::string &kind, bool ok, const std::string &msg = "");
};

typedef void (*UnitFn)(Ctx &);
struct Unit {
	const char *name;
	const char *prop;
	UnitFn fn;
	int quick, thorough;
	Unit *nextu;
	static Unit *head;
	Unit(const char *n, const char *p, UnitFn f, int q, int t) : name(n), prop(p), fn(f), quick(q), thorough(t) {
		nextu = head;
		head = this;
	}
};
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
// UNIT("C01", "vector.history", quick cases, thorough cases) { body using `Ctx &c` }
#define UNIT(prop, name, q, t)                                                     \
	static void VH_CAT(vh_unit_, __LINE__)(vh::Ctx & c);                           \
	static vh::Unit VH_CAT(vh_reg_, __LINE__)(name, prop, VH_CAT(vh_unit_, __LINE__), q, t); \
	static void VH_CAT(vh_unit_, __LINE__)(vh::Ctx & c)

// ---- error-log monitor (link-time wrapped logger) ----
extern std::atomic<long> g_errors;
inline long errors() { return g_errors.load(); }

// While set, the messages the library prints are collected here.
extern std::vector<std::string> *g_log;

// While non-zero, every std::random_device draw yields this value (so repeated noise is the same noise).
extern std::atomic<uint64_t> g_pin;
struct Pin {
	explicit Pin(uint64_t v) { g_pin = v | 1; }
	~Pin() { g_pin = 0; }
};

// While non-zero, draws of the calling thread come from a stream of its own, started at this value.
void thread_entropy(uint64_t seed);

// runs `rep` again and again and fails if every repetition leaves more allocated bytes, objects or slots than the one before
void repeat_case(Ctx &c, const std::function<void()> &rep);

// ---- reference containers ----
typedef std::vector<double> DV;
struct DM {
	int r = 0, co = 0;
	DV d;
	DM() {}
	DM(int rr, int cc, double v = 0) : r(rr), co(cc), d((size_t)rr * cc, v) {}
	double &at(int y, int x) { return d[(size_t)y * co + x]; }
	double at(int y, int x) const { return d[(size_t)y * co + x]; }
};
struct DT {
	int z = 0, r = 0, co = 0;
	DV d;
	DT() {}
	DT(int zz, int rr, int cc, double v = 0) : z(zz), r(rr), co(cc), d((size_t)zz * rr * cc, v) {}
	double &at(int k, int y, int x) { return d[((size_t)k * r + y) * co + x]; }
	double at(int k, int y, int x) const { return d[((size_t)k * r + y) * co + x]; }
};

typedef Ref<MLPPVector> RV;
typedef Ref<MLPPMatrix> RM;
typedef Ref<MLPPTensor3> RT;

RV mkv(const DV &v);
RM mkm(const DM &m);
RT mkt(const DT &t);
RV newv(int n = 0);
RM newm(int r = 0, int c = 0);
RT newt(int z = 0, int r = 0, int c = 0);
DV dv(const RV &v);
DM dm(const RM &m);
DT dt(const RT &t);

// value generators (floats stored exactly in doubles)
enum Kind { K_STD, K_POS, K_UNIT, K_SMALLINT, K_WIDE, K_NONZERO, K_MIX };
double gval(Rng &r, Kind k);
DV gv(Rng &r, int n, Kind k = K_STD);
DM gm(Rng &r, int rows, int cols, Kind k = K_STD);
DT gt(Rng &r, int z, int rows, int cols, Kind k = K_STD);

bool close(double a, double b, double rtol, double atol);
// compare whole objects; `kind` is the violation kind
bool cmpv(Ctx &c, const std::string &kind, const RV &got, const DV &want, double rtol = 2e-5, double atol = 1e-6);
bool cmpm(Ctx &c, const std::string &kind, const RM &got, const DM &want, double rtol = 2e-5, double atol = 1e-6);
bool cmpt(Ctx &c, const std::string &kind, const RT &got, const DT &want, double rtol = 2e-5, double atol = 1e-6);
// exact (bitwise value) comparison
bool samev(Ctx &c, const std::string &kind, const RV &got, const DV &want);
bool samem(Ctx &c, const std::string &kind, const RM &got, const DM &want);
bool samet(Ctx &c, const std::string &kind, const RT &got, const DT &want);

std::string str(const DV &v);
std::string str(const DM &m);
std::string strf(const char *fmt, ...);
uint64_t hsh(uint64_t h, uint64_t v);
uint64_t hsh(uint64_t h, const DV &v);
uint64_t hs(const std::string &s);

DM mul(const DM &a, const DM &b);
DM tr(const DM &a);
DV mulv(const DM &a, const DV &b);
double det_d(DM a); // Gaussian elimination with pivoting, double
DM inv_d(DM a);
void sym_eigen(DM a, DV &vals, DM &vecs); // Jacobi, columns are vectors, descending

} // namespace vh
using namespace vh;
