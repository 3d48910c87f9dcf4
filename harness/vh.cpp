#include "vh.h"
#include <cstdarg>
#include <fcntl.h>
#include <random>
#include <sys/mman.h>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

// Deterministic entropy: every std::random_device draw in the code under test comes from here.
static std::atomic<uint64_t> g_entropy{ 88172645463325252ULL };
static thread_local uint64_t tl_entropy = 0;
namespace vh {
std::atomic<uint64_t> g_pin{ 0 };
void thread_entropy(uint64_t seed) { tl_entropy = seed; }
}
namespace std {
random_device::result_type random_device::_M_getval() {
	if (uint64_t p = vh::g_pin.load()) return (result_type)p;
	uint64_t z;
	if (tl_entropy) z = tl_entropy += 0x9E3779B97F4A7C15ULL;
	else z = g_entropy.fetch_add(0x9E3779B97F4A7C15ULL) + 0x9E3779B97F4A7C15ULL;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
	return (result_type)(z ^ (z >> 31));
}
} // namespace std

namespace vh {
Unit *Unit::head = nullptr;
std::vector<std::string> *g_log = nullptr;
std::atomic<long> g_errors{ 0 };

struct Progress {
	int64_t case_no;
	char label[160];
};
static Progress *g_prog = nullptr;
static FILE *g_out = nullptr;
static std::set<uint64_t> g_sigs;
static std::map<std::string, long> g_counts;
static std::map<std::string, int> g_failed;
static std::vector<std::string> g_samples;
static long g_cases = 0, g_obs = 0;
static uint64_t g_unit_hash = 0;
static bool g_flushed = false;
static bool g_mute = false; // Z01 repeats the units of other properties and judges only what they leave behind

static std::string jesc(const std::string &s) {
	std::string o;
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
		else if (ch == '\n') o += "\\n";
		else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
		else o += ch;
	}
	return o;
}

void Ctx::label(const std::string &l) {
	where = l;
	if (g_prog) { strncpy(g_prog->label, l.c_str(), sizeof(g_prog->label) - 1); }
}
void Ctx::fail(const std::string &kind, const std::string &msg) {
	if (g_mute) return;
	std::string key = unit + "|" + where + "|" + kind;
	int n = ++g_failed[key];
	if (n <= 3) {
		fprintf(g_out, "{\"t\":\"fail\",\"key\":\"%s\",\"case\":%ld,\"msg\":\"%s\"}\n", jesc(key).c_str(), case_no, jesc(msg.substr(0, 1500)).c_str());
		fflush(g_out);
	}
}
void Ctx::obs(uint64_t h, bool nontrivial) {
	if (g_mute) return;
	g_obs++;
	if (nontrivial && g_sigs.size() < 400000) g_sigs.insert(hsh(g_unit_hash, h));
}
void Ctx::count(const char *what, long n) { if (!g_mute) g_counts[what] += n; }
void Ctx::sample(const std::string &s) {
	if (!g_mute && g_samples.size() < 2) g_samples.push_back(unit + "#" + std::to_string(case_no) + " " + where + ": " + s);
}
bool close(double a, double b, double rtol, double atol) {
	if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	if (std::isinf(a) || std::isinf(b)) return a == b;
	return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}
bool Ctx::eq(const std::string &kind, double got, double want, double rtol, double atol) {
	count("value_comparisons");
	if (vh::close(got, want, rtol, atol)) return true;
	fail(kind, strf("got %.9g, expected %.9g", got, want));
	return false;
}
bool Ctx::check(const std::string &kind, bool ok, const std::string &msg) {
	count("condition_checks");
	if (!ok) fail(kind, msg.empty() ? "condition does not hold" : msg);
	return ok;
}

std::string strf(const char *fmt, ...) {
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	return buf;
}
uint64_t hsh(uint64_t h, uint64_t v) {
	h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
	h *= 0xBF58476D1CE4E5B9ULL;
	return h ^ (h >> 29);
}
uint64_t hsh(uint64_t h, const DV &v) {
	for (double d : v) { uint64_t b; memcpy(&b, &d, 8); h = hsh(h, b); }
	return hsh(h, (uint64_t)v.size());
}
uint64_t hs(const std::string &s) {
	uint64_t h = 1469598103934665603ULL;
	for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ULL;
	return h;
}
std::string str(const DV &v) {
	std::string s = "[";
	for (size_t i = 0; i < v.size() && i < 40; i++) s += (i ? ", " : "") + strf("%.9g", v[i]);
	return s + (v.size() > 40 ? ", ...]" : "]");
}
std::string str(const DM &m) { return strf("%dx%d ", m.r, m.co) + str(m.d); }

RV newv(int n) { RV v; v.instance(); if (n) v->resize(n); return v; }
RM newm(int r, int cc) { RM m; m.instance(); if (r || cc) m->resize(Size2i(cc, r)); return m; }
RT newt(int z, int r, int cc) { RT t; t.instance(); if (z || r || cc) t->resize(Size3i(cc, r, z)); return t; }
RV mkv(const DV &v) {
	RV o = newv((int)v.size());
	for (size_t i = 0; i < v.size(); i++) o->ptrw()[i] = (real_t)v[i];
	return o;
}
RM mkm(const DM &m) {
	RM o = newm(m.r, m.co);
	for (size_t i = 0; i < m.d.size(); i++) o->ptrw()[i] = (real_t)m.d[i];
	return o;
}
RT mkt(const DT &t) {
	RT o = newt(t.z, t.r, t.co);
	for (size_t i = 0; i < t.d.size(); i++) o->ptrw()[i] = (real_t)t.d[i];
	return o;
}
DV dv(const RV &v) {
	DV o;
	if (!v.is_valid()) return o;
	for (int i = 0; i < v->size(); i++) o.push_back(v->ptr()[i]);
	return o;
}
DM dm(const RM &m) {
	DM o;
	if (!m.is_valid()) return o;
	o = DM(m->size().y, m->size().x);
	for (size_t i = 0; i < o.d.size(); i++) o.d[i] = m->ptr()[i];
	return o;
}
DT dt(const RT &t) {
	DT o;
	if (!t.is_valid()) return o;
	o = DT(t->size().z, t->size().y, t->size().x);
	for (size_t i = 0; i < o.d.size(); i++) o.d[i] = t->ptr()[i];
	return o;
}
double gval(Rng &r, Kind k) {
	float f = 0;
	switch (k) {
		case K_STD: f = r.chance(0.1) ? 0.0f : r.f(-5, 5); break;
		case K_POS: f = r.f(0.05, 6); break;
		case K_UNIT: f = r.f(0.02, 0.98); break;
		case K_SMALLINT: f = (float)r.range(-4, 4); break;
		case K_WIDE: { float m = r.f(-1, 1); f = std::ldexp(m, r.range(-12, 12)); } break;
		case K_NONZERO: f = r.f(0.1, 5) * (r.chance(0.5) ? 1 : -1); break;
		case K_MIX: return gval(r, (Kind)r.range(0, 5));
	}
	return f;
}
DV gv(Rng &r, int n, Kind k) { DV v(n); for (auto &x : v) x = gval(r, k); return v; }
DM gm(Rng &r, int rows, int cols, Kind k) { DM m(rows, cols); for (auto &x : m.d) x = gval(r, k); return m; }
DT gt(Rng &r, int z, int rows, int cols, Kind k) { DT t(z, rows, cols); for (auto &x : t.d) x = gval(r, k); return t; }

static bool cmpd(Ctx &c, const std::string &kind, const std::string &shape, const real_t *got, const DV &want, double rtol, double atol) {
	for (size_t i = 0; i < want.size(); i++) {
		if (!close(got[i], want[i], rtol, atol)) {
			DV g(want.size());
			for (size_t j = 0; j < want.size(); j++) g[j] = got[j];
			c.fail(kind, strf("%s element %zu is %.9g, expected %.9g; got ", shape.c_str(), i, (double)got[i], want[i]) + str(g) + " expected " + str(want));
			return false;
		}
	}
	c.count("elements_compared", (long)want.size());
	return true;
}
bool cmpv(Ctx &c, const std::string &kind, const RV &got, const DV &want, double rtol, double atol) {
	if (!got.is_valid()) { c.fail(kind, "no result (null), expected " + str(want)); return false; }
	if (got->size() != (int)want.size()) { c.fail(kind, strf("size %d, expected %zu; got ", got->size(), want.size()) + str(dv(got)) + " expected " + str(want)); return false; }
	return cmpd(c, kind, strf("vec%zu", want.size()), got->ptr(), want, rtol, atol);
}
bool cmpm(Ctx &c, const std::string &kind, const RM &got, const DM &want, double rtol, double atol) {
	if (!got.is_valid()) { c.fail(kind, "no result (null), expected " + str(want)); return false; }
	if (got->size().y != want.r || got->size().x != want.co) { c.fail(kind, strf("shape %dx%d, expected %dx%d", got->size().y, got->size().x, want.r, want.co)); return false; }
	return cmpd(c, kind, strf("mat%dx%d", want.r, want.co), got->ptr(), want.d, rtol, atol);
}
bool cmpt(Ctx &c, const std::string &kind, const RT &got, const DT &want, double rtol, double atol) {
	if (!got.is_valid()) { c.fail(kind, "no result (null)"); return false; }
	Size3i s = got->size();
	if (s.z != want.z || s.y != want.r || s.x != want.co) { c.fail(kind, strf("shape %dx%dx%d, expected %dx%dx%d (z,y,x)", s.z, s.y, s.x, want.z, want.r, want.co)); return false; }
	return cmpd(c, kind, strf("ten%dx%dx%d", want.z, want.r, want.co), got->ptr(), want.d, rtol, atol);
}
bool samev(Ctx &c, const std::string &k, const RV &g, const DV &w) { return cmpv(c, k, g, w, 0, 0); }
bool samem(Ctx &c, const std::string &k, const RM &g, const DM &w) { return cmpm(c, k, g, w, 0, 0); }
bool samet(Ctx &c, const std::string &k, const RT &g, const DT &w) { return cmpt(c, k, g, w, 0, 0); }

DM mul(const DM &a, const DM &b) {
	DM o(a.r, b.co);
	for (int i = 0; i < a.r; i++)
		for (int j = 0; j < b.co; j++) {
			double s = 0;
			for (int k = 0; k < a.co; k++) s += a.at(i, k) * b.at(k, j);
			o.at(i, j) = s;
		}
	return o;
}
DM tr(const DM &a) { DM o(a.co, a.r); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.co; j++) o.at(j, i) = a.at(i, j); return o; }
DV mulv(const DM &a, const DV &b) { DV o(a.r); for (int i = 0; i < a.r; i++) { double s = 0; for (int k = 0; k < a.co; k++) s += a.at(i, k) * b[k]; o[i] = s; } return o; }
double det_d(DM a) {
	double d = 1;
	int n = a.r;
	for (int i = 0; i < n; i++) {
		int p = i;
		for (int k = i; k < n; k++) if (std::fabs(a.at(k, i)) > std::fabs(a.at(p, i))) p = k;
		if (a.at(p, i) == 0) return 0;
		if (p != i) { d = -d; for (int j = 0; j < n; j++) std::swap(a.at(p, j), a.at(i, j)); }
		d *= a.at(i, i);
		for (int k = i + 1; k < n; k++) {
			double f = a.at(k, i) / a.at(i, i);
			for (int j = i; j < n; j++) a.at(k, j) -= f * a.at(i, j);
		}
	}
	return d;
}
DM inv_d(DM a) {
	int n = a.r;
	DM o(n, n);
	for (int i = 0; i < n; i++) o.at(i, i) = 1;
	for (int i = 0; i < n; i++) {
		int p = i;
		for (int k = i; k < n; k++) if (std::fabs(a.at(k, i)) > std::fabs(a.at(p, i))) p = k;
		for (int j = 0; j < n; j++) { std::swap(a.at(p, j), a.at(i, j)); std::swap(o.at(p, j), o.at(i, j)); }
		double f = a.at(i, i);
		for (int j = 0; j < n; j++) { a.at(i, j) /= f; o.at(i, j) /= f; }
		for (int k = 0; k < n; k++) if (k != i) {
			double g = a.at(k, i);
			for (int j = 0; j < n; j++) { a.at(k, j) -= g * a.at(i, j); o.at(k, j) -= g * o.at(i, j); }
		}
	}
	return o;
}
void sym_eigen(DM a, DV &vals, DM &vecs) {
	int n = a.r;
	vecs = DM(n, n);
	for (int i = 0; i < n; i++) vecs.at(i, i) = 1;
	for (int sweep = 0; sweep < 100; sweep++) {
		double off = 0;
		for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) off += a.at(i, j) * a.at(i, j);
		if (off < 1e-24) break;
		for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
			if (std::fabs(a.at(p, q)) < 1e-300) continue;
			double th = (a.at(q, q) - a.at(p, p)) / (2 * a.at(p, q));
			double t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
			double cs = 1 / std::sqrt(t * t + 1), sn = t * cs;
			for (int k = 0; k < n; k++) { double x = a.at(k, p), y = a.at(k, q); a.at(k, p) = cs * x - sn * y; a.at(k, q) = sn * x + cs * y; }
			for (int k = 0; k < n; k++) { double x = a.at(p, k), y = a.at(q, k); a.at(p, k) = cs * x - sn * y; a.at(q, k) = sn * x + cs * y; }
			for (int k = 0; k < n; k++) { double x = vecs.at(k, p), y = vecs.at(k, q); vecs.at(k, p) = cs * x - sn * y; vecs.at(k, q) = sn * x + cs * y; }
		}
	}
	std::vector<int> idx(n);
	for (int i = 0; i < n; i++) idx[i] = i;
	for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (a.at(idx[j], idx[j]) > a.at(idx[i], idx[i])) std::swap(idx[i], idx[j]);
	DM o(n, n);
	vals.resize(n);
	for (int i = 0; i < n; i++) { vals[i] = a.at(idx[i], idx[i]); for (int k = 0; k < n; k++) o.at(k, i) = vecs.at(k, idx[i]); }
	vecs = o;
}

static std::string g_out_path;
static void flush_end() {
	if (g_flushed || !g_out) return;
	g_flushed = true;
	if (FILE *sf = fopen((g_out_path + ".sig").c_str(), "wb")) {
		for (uint64_t v : g_sigs) fwrite(&v, 8, 1, sf);
		fclose(sf);
	}
	fprintf(g_out, "{\"t\":\"end\",\"cases\":%ld,\"obs\":%ld,\"distinct\":%zu,\"counts\":{", g_cases, g_obs, g_sigs.size());
	bool first = true;
	for (auto &kv : g_counts) { fprintf(g_out, "%s\"%s\":%ld", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
	fprintf(g_out, "},\"fails\":{");
	first = true;
	for (auto &kv : g_failed) { fprintf(g_out, "%s\"%s\":%d", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
	fprintf(g_out, "},\"samples\":[");
	for (size_t i = 0; i < g_samples.size(); i++) fprintf(g_out, "%s\"%s\"", i ? "," : "", jesc(g_samples[i].substr(0, 400)).c_str());
	fprintf(g_out, "]}\n");
	fflush(g_out);
}

// ---- Z01: what a repeated workload leaves behind ----
struct Left {
	int64_t v[4];
};
static const char *left_name[4] = { "allocated_bytes", "memory_counter", "live_objects", "pool_slots" };
static Left left_now() {
	Left l;
	l.v[0] = __sanitizer_get_current_allocated_bytes ? (int64_t)__sanitizer_get_current_allocated_bytes() : 0;
	l.v[1] = (int64_t)Memory::get_mem_usage();
	l.v[2] = ObjectDB::get_object_count();
	l.v[3] = MemoryPool::allocs_used;
	return l;
}
static uint64_t next_object_id() {
	Ref<Reference> r;
	r.instance();
	return r->get_instance_id();
}
void repeat_case(Ctx &c, const std::function<void()> &rep) {
	g_mute = true;
	rep();
	uint64_t id0 = next_object_id();
	rep();
	uint64_t id1 = next_object_id();
	Left a = left_now(), first = a;
	rep();
	Left b = left_now();
	int more = 0;
	auto grew = [](const Left &x, const Left &y) { for (int i = 0; i < 4; i++) if (y.v[i] > x.v[i]) return true; return false; };
	bool always[4];
	for (int i = 0; i < 4; i++) always[i] = b.v[i] > a.v[i];
	// a buffer that is grown now and then is not growth: only what is left by every single repetition counts
	for (Left x = a, y = b; grew(x, y) && more < 5; more++) {
		x = y;
		rep();
		y = left_now();
		for (int i = 0; i < 4; i++) always[i] &= y.v[i] > x.v[i];
		b = y;
	}
	g_mute = false;
	c.label("");
	for (int i = 0; i < 4; i++)
		c.check(left_name[i], !always[i], strf("%lld more after %d further repetitions of the same workload", (long long)(b.v[i] - first.v[i]), more + 1));
	c.count("repetitions", 3 + more);
	c.count("objects_created_and_dropped", (long)(id1 - id0 - 1) * (3 + more));
	c.obs(hsh(hs(c.unit), c.case_no), true);
}
} // namespace vh

// ---- wrapped logger entry points (ld --wrap) ----
#define WRAP(sym, args) extern "C" void __wrap_##sym args { vh::g_errors++; }
WRAP(_ZN7RLogger9log_errorEPKcS1_iS1_, (const char *, const char *, int, const char *))
WRAP(_ZN7RLogger9log_errorEPKcS1_iRK6String, (const char *, const char *, int, const String &))
WRAP(_ZN7RLogger13log_msg_errorEPKcS1_iS1_S1_, (const char *, const char *, int, const char *, const char *))
WRAP(_ZN7RLogger15log_index_errorEPKcS1_iiiS1_, (const char *, const char *, int, const int, const int, const char *))
WRAP(_ZN7RLogger15log_index_errorEPKcS1_iiiRK6String, (const char *, const char *, int, const int, const int, const String &))
#undef WRAP
static void said(const char *s) { if (vh::g_log) vh::g_log->push_back(s ? s : ""); }
static void said(const String &s) { if (vh::g_log) vh::g_log->push_back(s.utf8().get_data()); }
#define WRAP(sym, args) extern "C" void __wrap_##sym args { said(m); }
WRAP(_ZN7RLogger11log_messageEPKcS1_iS1_, (const char *, const char *, int, const char *m))
WRAP(_ZN7RLogger11log_messageEPKcS1_iRK6String, (const char *, const char *, int, const String &m))
WRAP(_ZN7RLogger11log_messageEPKc, (const char *m))
WRAP(_ZN7RLogger11log_messageERK6String, (const String &m))
// the text behind " M | file::function:line | "
extern "C" void __real__ZN7RLogger11log_ret_ptrEP6String(String *) __attribute__((weak)); // R11 links without the wraps
extern "C" void __wrap__ZN7RLogger11log_ret_ptrEP6String(String *p) {
	if (vh::g_log && p) {
		std::string t = p->utf8().get_data();
		size_t at = t.rfind(" | ");
		vh::g_log->push_back(at == std::string::npos ? t : t.substr(at + 3));
	}
	__real__ZN7RLogger11log_ret_ptrEP6String(p);
}

// usage: bin list PROP | bin run UNIT FROM TO SEED TIER OUT PROGRESS
int main(int argc, char **argv) {
	if (argc >= 3 && !strcmp(argv[1], "list")) {
		for (Unit *u = Unit::head; u; u = u->nextu)
			if (!strcmp(u->prop, argv[2])) printf("%s %d %d\n", u->name, u->quick, u->thorough);
		if (!strcmp(argv[2], "Z01"))
			for (Unit *u = Unit::head; u; u = u->nextu)
				if (strcmp(u->prop, "Z01")) printf("%s/%s %d %d\n", u->prop, u->name, std::max(3, u->quick / 60), std::max(6, u->quick / 2));
		return 0;
	}
	if (argc < 9 || strcmp(argv[1], "run")) return 64;
	std::string name = argv[2];
	long from = atol(argv[3]), to = atol(argv[4]);
	uint64_t seed = strtoull(argv[5], nullptr, 10);
	bool thorough = !strcmp(argv[6], "thorough");
	Unit *u = Unit::head;
	// "PROP/unit" repeats the cases of another property's unit
	bool repeat = name.size() > 4 && name[3] == '/';
	std::string uname = repeat ? name.substr(4) : name;
	while (u && (uname != u->name || (repeat && name.substr(0, 3) != u->prop))) u = u->nextu;
	if (!u) return 65;
	g_out = fopen(argv[7], "w");
	g_out_path = argv[7];
	int fd = open(argv[8], O_RDWR | O_CREAT, 0600);
	if (!g_out || fd < 0 || ftruncate(fd, sizeof(Progress))) return 66;
	g_prog = (Progress *)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (g_prog == MAP_FAILED) return 66;
	g_unit_hash = hs(name);
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(flush_end);
	int devnull = open("/dev/null", O_WRONLY);
	if (!getenv("VH_KEEP_STDOUT")) dup2(devnull, 1);
	SFWCore::setup();
	for (long i = from; i < to; i++) {
		Ctx c(hsh(hsh(seed, g_unit_hash), (uint64_t)i));
		c.unit = name;
		c.case_no = i;
		c.thorough = thorough;
		g_prog->case_no = i;
		c.label("");
		g_entropy.store(hsh(hsh(seed + 77, g_unit_hash), (uint64_t)i));
		if (!repeat) u->fn(c);
		else repeat_case(c, [&] {
			Ctx r(hsh(hsh(seed, hs(uname)), (uint64_t)i));
			r.unit = uname;
			r.case_no = i;
			g_entropy.store(hsh(hsh(seed + 77, hs(uname)), (uint64_t)i));
			u->fn(r);
		});
		g_cases++;
	}
	g_prog->case_no = to;
	flush_end();
	SFWCore::cleanup();
	fclose(g_out);
	return 0;
}
