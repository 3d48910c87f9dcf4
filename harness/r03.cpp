// R03: concurrent use of shared handles, copy-on-write buffers, interned names, locks and allocators under
// ThreadSanitizer, with delays injected at every atomic operation and lock call (ld --wrap), plus monitors of
// destruction counts, values and exclusion. Thread bodies only touch their own log; the main thread judges.
#include "vh.h"
#include "platform/sfw.h"
#include "modules/ann/ann.h"
#include "modules/auto_encoder/auto_encoder.h"
#include "modules/bernoulli_nb/bernoulli_nb.h"
#include "modules/gaussian_nb/gaussian_nb.h"
#include "modules/kmeans/kmeans.h"
#include "modules/knn/knn.h"
#include "modules/lin_reg/lin_reg.h"
#include "modules/log_reg/log_reg.h"
#include "modules/mann/mann.h"
#include "modules/mlp/mlp.h"
#include "modules/multinomial_nb/multinomial_nb.h"
#include "modules/pca/pca.h"
#include "modules/probit_reg/probit_reg.h"
#include "modules/softmax_net/softmax_net.h"
#include "modules/softmax_reg/softmax_reg.h"
#include "modules/svc/svc.h"
#include "modules/tanh_reg/tanh_reg.h"
#include "modules/uni_lin_reg/uni_lin_reg.h"
#include <array>
#include <deque>
#include <functional>
#include <pthread.h>
#include <sched.h>
#include <thread>
using namespace vh;

#define NOSAN __attribute__((no_sanitize("thread"), no_sanitize_thread))

namespace {
// ---- schedule perturbation; nothing here is visible to ThreadSanitizer ----
thread_local int tl_id = 0; // 0: main thread, not perturbed
thread_local uint32_t tl_rng = 1;
int g_mode = 0;
uint32_t g_tick = 0;
uint8_t g_order[1 << 14];
NOSAN uint32_t nrnd() {
	tl_rng ^= tl_rng << 13;
	tl_rng ^= tl_rng >> 17;
	tl_rng ^= tl_rng << 5;
	return tl_rng;
}
NOSAN void spin(uint32_t n) {
	for (uint32_t i = 0; i < n; i++) __asm__ volatile("pause" ::: "memory");
}
} // namespace
NOSAN void vp_nudge() {
	if (!tl_id) return;
	uint32_t t = __atomic_fetch_add(&g_tick, 1, __ATOMIC_RELAXED);
	g_order[t & (sizeof g_order - 1)] = (uint8_t)tl_id;
	uint32_t r = nrnd();
	switch (g_mode) {
		case 0: return;
		case 1:
			if (!(r & 7)) sched_yield();
			return;
		case 2:
			if (!(r & 3)) spin((r >> 8) & 255);
			return;
		case 3:
			if (!(r & 31)) spin((r >> 8) & 4095);
			else if (!(r & 15)) sched_yield();
			return;
		default: // one thread is slow at some places, the others run through
			if ((t >> 4) % 4 == (uint32_t)tl_id - 1) spin((r >> 8) & 511);
	}
}

#define W_RMW(N, T, op)                                                                  \
	extern "C" T __real___tsan_atomic##N##_##op(volatile T *, T, int);                     \
	extern "C" NOSAN T __wrap___tsan_atomic##N##_##op(volatile T *p, T v, int mo) {        \
		vp_nudge();                                                                          \
		T r = __real___tsan_atomic##N##_##op(p, v, mo);                                      \
		vp_nudge();                                                                          \
		return r;                                                                            \
	}
#define W_CAS(N, T, op)                                                                               \
	extern "C" int __real___tsan_atomic##N##_##op(volatile T *, T *, T, int, int);                      \
	extern "C" NOSAN int __wrap___tsan_atomic##N##_##op(volatile T *p, T *e, T v, int mo, int fmo) {    \
		vp_nudge();                                                                                       \
		int r = __real___tsan_atomic##N##_##op(p, e, v, mo, fmo);                                         \
		vp_nudge();                                                                                       \
		return r;                                                                                         \
	}
#define W_LOAD(N, T)                                                                 \
	extern "C" T __real___tsan_atomic##N##_load(const volatile T *, int);              \
	extern "C" NOSAN T __wrap___tsan_atomic##N##_load(const volatile T *p, int mo) {   \
		T r = __real___tsan_atomic##N##_load(p, mo);                                     \
		vp_nudge();                                                                      \
		return r;                                                                        \
	}
#define W_STORE(N, T)                                                                    \
	extern "C" void __real___tsan_atomic##N##_store(volatile T *, T, int);                 \
	extern "C" NOSAN void __wrap___tsan_atomic##N##_store(volatile T *p, T v, int mo) {    \
		vp_nudge();                                                                          \
		__real___tsan_atomic##N##_store(p, v, mo);                                           \
		vp_nudge();                                                                          \
	}
#define W_ALL(N, T)                                                                                                                          \
	W_RMW(N, T, fetch_add) W_RMW(N, T, fetch_sub) W_RMW(N, T, exchange) W_CAS(N, T, compare_exchange_strong) W_CAS(N, T, compare_exchange_weak) W_LOAD(N, T) W_STORE(N, T)
W_ALL(8, unsigned char)
W_ALL(32, unsigned int)
W_ALL(64, unsigned long)
#define W_LOCK(name, type)                                   \
	extern "C" int __real_##name(type *);                      \
	extern "C" NOSAN int __wrap_##name(type *m) {              \
		vp_nudge();                                              \
		int r = __real_##name(m);                                \
		vp_nudge();                                              \
		return r;                                                \
	}
W_LOCK(pthread_mutex_lock, pthread_mutex_t)
W_LOCK(pthread_mutex_unlock, pthread_mutex_t)
W_LOCK(pthread_mutex_trylock, pthread_mutex_t)
W_LOCK(pthread_rwlock_rdlock, pthread_rwlock_t)
W_LOCK(pthread_rwlock_wrlock, pthread_rwlock_t)
W_LOCK(pthread_rwlock_unlock, pthread_rwlock_t)

namespace {
uint32_t g_waiting = 0, g_phase = 0;
NOSAN void line_up(uint32_t n) { // aligns the threads without a happens-before edge
	uint32_t ph = __atomic_load_n(&g_phase, __ATOMIC_RELAXED);
	if (__atomic_add_fetch(&g_waiting, 1, __ATOMIC_RELAXED) == n) {
		__atomic_store_n(&g_waiting, 0, __ATOMIC_RELAXED);
		__atomic_add_fetch(&g_phase, 1, __ATOMIC_SEQ_CST);
		return;
	}
	uint32_t k = 0;
	while (__atomic_load_n(&g_phase, __ATOMIC_RELAXED) == ph)
		if (++k > 200) { sched_yield(); k = 0; }
}

typedef std::vector<std::string> Log;
struct Team {
	int n;
	std::vector<Log> logs;
	Team(Rng &r) : n(r.range(2, 4)), logs(n) { g_mode = r.range(0, 4); }
	// body(tid, rng, log)
	template <class F> void run(Ctx &c, F body) {
		g_tick = 0;
		std::vector<std::thread> th;
		std::vector<uint64_t> seeds;
		for (int i = 0; i < n; i++) seeds.push_back(c.rng.next());
		for (int i = 0; i < n; i++)
			th.emplace_back([&, i] {
				Rng r(seeds[i]);
				tl_rng = (uint32_t)seeds[i] | 1;
				line_up(n);
				tl_id = i + 1;
				body(i, r, logs[i]);
				tl_id = 0;
			});
		for (auto &t : th) t.join();
		uint32_t k = std::min<uint32_t>(g_tick, sizeof g_order);
		uint64_t h = n;
		int switches = 0;
		for (uint32_t i = 0; i < k; i++) {
			h = hsh(h, g_order[i]);
			switches += i && g_order[i] != g_order[i - 1];
		}
		c.obs(hsh(hs(c.unit), h), switches > 0); // one observed interleaving of atomic operations and lock calls
		c.count("atomic_or_lock_operations", g_tick);
		c.count("thread_switches_between_them", switches);
		for (auto &l : logs)
			for (auto &m : l) {
				size_t p = m.find(' ');
				c.fail(m.substr(0, p), m.substr(p + 1));
			}
		for (auto &l : logs) l.clear();
	}
};
#define TCHECK(log, kind, cond, ...) do { if (!(cond) && (log).size() < 20) (log).push_back(std::string(kind) + " " + strf(__VA_ARGS__)); } while (0)

// ---- shared objects ----
std::atomic<int> g_live{ 0 };
int live() { return g_live.load(std::memory_order_relaxed); }
struct Payload {
	int deaths = 0; // plain: a second destruction is a race or a count of two
};
class TObj : public Reference {
	SFW_OBJECT(TObj, Reference);

public:
	int magic = 0x5a17;
	int value = 0;
	Payload *pay = nullptr;
	TObj() { g_live.fetch_add(1, std::memory_order_relaxed); }
	~TObj() {
		magic = 0;
		if (pay) pay->deaths++;
		g_live.fetch_sub(1, std::memory_order_relaxed);
	}
};
typedef Ref<TObj> RO;

int ok_obj(const RO &r, int v) { return r.is_valid() && r->magic == 0x5a17 && r->value == v; }

void ref_op(Rng &r, Log &l, const RO &own, RO *loc, int nloc, int v) {
	int i = r.range(0, nloc - 1), j = r.range(0, nloc - 1);
	switch (r.range(0, 12)) {
		case 0: loc[i] = own; break;
		case 1: loc[i] = loc[j]; break;
		case 2: loc[i].unref(); break;
		case 3: {
			Ref<Reference> b = own;
			loc[j] = b;
			TCHECK(l, "base_handle", ok_obj(loc[j], v), "through Ref<Reference>");
		} break;
		case 4: {
			Variant a = own;
			Variant b = a;
			a = Variant();
			loc[j] = b;
			TCHECK(l, "variant_handle", ok_obj(loc[j], v), "through Variant");
		} break;
		case 5: {
			RefPtr p = own.get_ref_ptr(), q = p;
			loc[j] = q;
			TCHECK(l, "ref_ptr", ok_obj(loc[j], v), "through RefPtr");
		} break;
		case 6: {
			Array a;
			a.push_back(own);
			Array b = a.duplicate();
			a.clear();
			loc[j] = RO(b[0]);
			TCHECK(l, "array_handle", ok_obj(loc[j], v), "through Array");
		} break;
		case 7: {
			RO t = own;
			TCHECK(l, "payload", ok_obj(t, v) && t->reference_get_count() >= 2, "count %d", t->reference_get_count());
		} break;
		case 8: {
			Vector<RO> w;
			w.push_back(own);
			w.push_back(own);
			Vector<RO> x = w;
			x.write[0] = RO();
			loc[j] = x[1];
			TCHECK(l, "vector_of_handles", ok_obj(w[0], v) && x[0].is_null(), "vector of handles");
		} break;
		case 9: {
			RO n;
			n.instance();
			n->value = v + 1;
			RO n2 = n;
			n.unref();
			TCHECK(l, "private_object", ok_obj(n2, v + 1) && n2->reference_get_count() == 1, "count %d", n2->reference_get_count());
		} break;
		case 10: {
			RO t(own);
			RO s((TObj *)t.ptr()); // from a raw pointer that is already referenced
			TCHECK(l, "raw_pointer", ok_obj(s, v), "from raw pointer");
		} break;
		case 11: {
			RO t = own;
			TCHECK(l, "object_db", ObjectDB::get_instance(t->get_instance_id()) == t.ptr() && ObjectDB::instance_validate(t.ptr()), "instance %llu not found", (unsigned long long)t->get_instance_id());
		} break;
		default:
			for (int k = 0; k < nloc; k++) TCHECK(l, "local_payload", loc[k].is_null() || ok_obj(loc[k], v), "slot %d", k);
	}
}
} // namespace

// random sequences of handle operations on shared objects, then all handles are dropped
UNIT("R03", "handles", 400, 8000) {
	Rng &r = c.rng;
	int base = live(), dbase = ObjectDB::get_object_count();
	{
		Team t(r);
		int rounds = r.range(2, 10);
		bool shared_const = r.chance(0.3);
		std::vector<Payload> pay(rounds);
		std::vector<std::vector<RO>> own(t.n, std::vector<RO>(rounds));
		std::vector<RO> common(rounds);
		for (int k = 0; k < rounds; k++) {
			RO o;
			o.instance();
			o->value = 100 + k;
			o->pay = &pay[k];
			if (shared_const) common[k] = o;
			else for (int i = 0; i < t.n; i++) own[i][k] = o;
		}
		c.label(shared_const ? "one const handle" : "a handle each");
		t.run(c, [&](int id, Rng &q, Log &l) {
			for (int k = 0; k < rounds; k++) {
				RO loc[3];
				const RO &o = shared_const ? common[k] : own[id][k];
				int n = q.range(1, 12);
				for (int s = 0; s < n; s++) ref_op(q, l, o, loc, 3, 100 + k);
				if (!shared_const) {
					if (q.chance(0.5)) sched_yield();
					own[id][k].unref();
				}
			}
		});
		for (int k = 0; k < rounds; k++)
			if (shared_const) {
				c.check("count_after", common[k]->reference_get_count() == 1, strf("%d handles counted, one left", common[k]->reference_get_count()));
				c.check("alive_after", pay[k].deaths == 0, "object destroyed while a handle was left");
				common[k].unref();
			}
		for (int k = 0; k < rounds; k++) c.check("destroyed_once", pay[k].deaths == 1, strf("destroyed %d times", pay[k].deaths));
		c.count("objects_shared", rounds);
	}
	c.check("live_objects", live() == base, strf("%d objects left", live() - base));
	c.check("object_db_count", ObjectDB::get_object_count() == dbase, strf("%d entries left", ObjectDB::get_object_count() - dbase));
}

// every thread holds exactly one handle and drops it at the same moment
UNIT("R03", "last_handle", 400, 8000) {
	Rng &r = c.rng;
	int base = live();
	{
		Team t(r);
		int rounds = 40;
		std::vector<Payload> pay(rounds);
		std::vector<std::vector<RO>> own(t.n, std::vector<RO>(rounds));
		for (int k = 0; k < rounds; k++) {
			RO o;
			o.instance();
			o->value = k;
			o->pay = &pay[k];
			for (int i = 0; i < t.n; i++) own[i][k] = o;
		}
		int how = r.range(0, 3);
		c.label(strf("drop %d", how));
		t.run(c, [&](int id, Rng &q, Log &l) {
			for (int k = 0; k < rounds; k++) {
				line_up(t.n);
				switch (how) {
					case 0: own[id][k].unref(); break;
					case 1: own[id][k] = RO(); break;
					case 2: {
						RO copy = own[id][k];
						own[id][k].unref();
						TCHECK(l, "payload", ok_obj(copy, k), "round %d", k);
					} break;
					default: {
						Variant v = own[id][k];
						own[id][k].unref();
						RO back = v;
						TCHECK(l, "payload", ok_obj(back, k), "round %d", k);
					}
				}
			}
		});
		for (int k = 0; k < rounds; k++) c.check("destroyed_once", pay[k].deaths == 1, strf("destroyed %d times", pay[k].deaths));
		c.count("simultaneous_drops", rounds);
	}
	c.check("live_objects", live() == base, strf("%d objects left", live() - base));
}

// handles travel between threads through a locked queue
UNIT("R03", "handoff", 300, 6000) {
	Rng &r = c.rng;
	int base = live();
	{
		Team t(r);
		int per = r.range(5, 40);
		Mutex mx;
		SpinLock sl;
		bool use_spin = r.chance(0.5);
		c.label(use_spin ? "spin lock" : "mutex");
		std::deque<Variant> queue;
		std::vector<int> got(t.n * per, 0);
		std::vector<Payload> pay(t.n * per);
		t.run(c, [&](int id, Rng &q, Log &l) {
			int made = 0, idle = 0;
			while (made < per || idle < 3) {
				if (made < per && q.chance(0.6)) {
					RO o;
					o.instance();
					o->value = id * per + made;
					o->pay = &pay[o->value];
					made++;
					Variant v = o;
					if (use_spin) sl.lock(); else mx.lock();
					queue.push_back(v);
					if (use_spin) sl.unlock(); else mx.unlock();
				} else {
					Variant v;
					bool have = false;
					if (use_spin) sl.lock(); else mx.lock();
					if (!queue.empty()) {
						v = queue.front();
						queue.pop_front();
						have = true;
					}
					if (use_spin) sl.unlock(); else mx.unlock();
					if (!have) {
						idle++;
						continue;
					}
					idle = 0;
					RO o = v;
					TCHECK(l, "handed_object", o.is_valid() && o->magic == 0x5a17, "broken object");
					if (o.is_valid()) got[o->value]++;
				}
			}
		});
		for (auto &v : queue) {
			RO o = v;
			if (c.check("left_object", o.is_valid() && o->magic == 0x5a17, "broken object in the queue")) got[o->value]++;
		}
		queue.clear();
		for (size_t i = 0; i < got.size(); i++) {
			c.check("received_once", got[i] == 1, strf("object %zu received %d times", i, got[i]));
			c.check("destroyed_once", pay[i].deaths == 1, strf("object %zu destroyed %d times", i, pay[i].deaths));
		}
	}
	c.check("live_objects", live() == base, strf("%d objects left", live() - base));
}

namespace {
class PObj : public Object {
	SFW_OBJECT(PObj, Object);

public:
	int magic = 77;
};
} // namespace

// Variants that point to an object without reference count
UNIT("R03", "object_variants", 300, 6000) {
	Rng &r = c.rng;
	Team t(r);
	int rounds = 12;
	std::vector<PObj *> o(rounds);
	std::vector<Variant> kept(rounds);
	for (auto &x : o) x = memnew(PObj);
	bool first = r.chance(0.5); // some objects get their first Variant inside the threads
	for (int k = 0; k < rounds; k++) if (!first) kept[k] = Variant(o[k]);
	c.label(first ? "first variant in threads" : "variant exists");
	t.run(c, [&](int id, Rng &q, Log &l) {
		for (int k = 0; k < rounds; k++) {
			Variant v(o[k]);
			Variant w = v;
			v = Variant();
			Object *p = w;
			TCHECK(l, "pointer", p == o[k] && ((PObj *)p)->magic == 77, "round %d", k);
			Array a;
			a.push_back(w);
			w = Variant(5);
			Object *p2 = a[0];
			TCHECK(l, "pointer_in_array", p2 == o[k], "round %d", k);
			if (!first) {
				Variant y = kept[k];
				Object *p3 = y;
				TCHECK(l, "kept_pointer", p3 == o[k], "round %d", k);
			}
		}
	});
	for (int k = 0; k < rounds; k++) {
		if (kept[k].get_type() == Variant::NIL) kept[k] = Variant(o[k]);
		memdelete(o[k]);
		Object *p = kept[k];
		c.check("pointer_after_free", p == nullptr, "a Variant still leads to a freed object");
	}
}

// ---- copy-on-write buffers ----
namespace {
struct El {
	int *heap;
	El(int v = -1) : heap(new int(v)) { g_live.fetch_add(1, std::memory_order_relaxed); }
	El(const El &o) : heap(new int(*o.heap)) { g_live.fetch_add(1, std::memory_order_relaxed); }
	El &operator=(const El &o) { *heap = *o.heap; return *this; }
	~El() {
		delete heap;
		heap = nullptr;
		g_live.fetch_sub(1, std::memory_order_relaxed);
	}
	bool operator==(const El &o) const { return *heap == *o.heap; }
};
int val(const El &e) { return *e.heap; }
int val(int e) { return e; }
template <class T> bool same(const Vector<T> &v, const std::vector<int> &m) {
	if (v.size() != (int)m.size()) return false;
	for (int i = 0; i < v.size(); i++) if (val(v[i]) != m[i]) return false;
	return true;
}
template <class T> void vec_round(Ctx &c) {
	Rng &r = c.rng;
	Team t(r);
	int rounds = r.range(2, 12);
	std::vector<Vector<T>> master(rounds);
	std::vector<std::vector<int>> model(rounds);
	std::vector<std::vector<Vector<T>>> own(t.n, std::vector<Vector<T>>(rounds));
	bool shared = r.chance(0.4);
	for (int k = 0; k < rounds; k++) {
		int n = r.range(1, 9);
		for (int i = 0; i < n; i++) {
			model[k].push_back(r.range(0, 99));
			master[k].push_back(T(model[k].back()));
		}
		if (!shared) {
			for (int i = 0; i < t.n; i++) own[i][k] = master[k];
			master[k] = Vector<T>();
		}
	}
	c.label(shared ? "one const vector" : "a copy each");
	t.run(c, [&](int id, Rng &q, Log &l) {
		for (int k = 0; k < rounds; k++) {
			line_up(t.n);
			Vector<T> mine = shared ? master[k] : own[id][k];
			std::vector<int> m = model[k];
			if (!shared && q.chance(0.6)) own[id][k] = Vector<T>();
			int n = q.range(1, 6);
			for (int s = 0; s < n; s++) {
				int op = q.range(0, 8), x = q.range(100, 999);
				size_t i = m.empty() ? 0 : q.range(0, (int)m.size() - 1);
				switch (op) {
					case 0: mine.push_back(T(x)); m.push_back(x); break;
					case 1: if (!m.empty()) { mine.write[i] = T(x); m[i] = x; } break;
					case 2: if (!m.empty()) { mine.remove(i); m.erase(m.begin() + i); } break;
					case 3: mine.insert(i, T(x)); m.insert(m.begin() + i, x); break;
					case 4: {
						Vector<T> copy = mine;
						if (copy.size()) copy.write[0] = T(-5);
						copy.clear();
					} break;
					case 5: if (!m.empty()) { mine.set(i, T(x)); m[i] = x; } break;
					case 6: { int z = q.range(0, 7), old = m.size(); mine.resize(z); m.resize(z, -1); for (int e = old; e < z; e++) { mine.set(e, T(e)); m[e] = e; } } break;
					case 7: mine.fill(T(x)); for (auto &e : m) e = x; break;
					default: { Vector<T> o; o = mine; mine = o; }
				}
				TCHECK(l, "private_content", same(mine, m), "round %d operation %d", k, op);
			}
			if (shared) TCHECK(l, "shared_content", same(master[k], model[k]), "round %d", k);
			else if (own[id][k].size()) {
				TCHECK(l, "own_content", same(own[id][k], model[k]), "round %d", k);
				own[id][k] = Vector<T>();
			}
		}
	});
	if (shared) for (int k = 0; k < rounds; k++) c.check("master_content", same(master[k], model[k]), "the shared vector changed");
}
} // namespace
UNIT("R03", "vectors", 400, 8000) {
	int base = live();
	uint64_t mem = Memory::get_mem_usage();
	if (c.rng.chance(0.5)) vec_round<El>(c);
	else vec_round<int>(c);
	c.check("live_elements", live() == base, strf("%d elements left", live() - base));
	c.check("memory_counter", Memory::get_mem_usage() == mem, strf("%lld bytes counted as used after the buffers were freed", (long long)(Memory::get_mem_usage() - mem)));
}

UNIT("R03", "strings", 400, 8000) {
	Rng &r = c.rng;
	Team t(r);
	int rounds = r.range(3, 15);
	std::vector<String> master(rounds);
	std::vector<std::u32string> model(rounds);
	for (int k = 0; k < rounds; k++) {
		int n = r.range(1, 20);
		for (int i = 0; i < n; i++) model[k].push_back(r.chance(0.8) ? 'a' + r.range(0, 25) : 0x410 + r.range(0, 30));
		master[k] = String(model[k].c_str());
	}
	auto eq = [](const String &s, const std::u32string &m) {
		if (s.length() != (int)m.size()) return false;
		for (size_t i = 0; i < m.size(); i++) if (s[i] != m[i]) return false;
		return true;
	};
	t.run(c, [&](int id, Rng &q, Log &l) {
		for (int k = 0; k < rounds; k++) {
			String s = master[k];
			std::u32string m = model[k];
			line_up(t.n);
			for (int z = q.range(1, 5); z > 0; z--) {
				int i = m.empty() ? 0 : q.range(0, (int)m.size() - 1);
				int op = q.range(0, 7);
				switch (op) {
					case 0: s += "xy"; m += U"xy"; break;
					case 1: if (!m.empty()) { s[i] = 'Q'; m[i] = 'Q'; } break;
					case 2: s = s.substr(0, i); m = m.substr(0, i); break;
					case 3: { String u = s; u.clear(); u = "other"; } break;
					case 4: s = s + master[k]; m = m + model[k]; break;
					case 5: { Variant v = s; String b = v; TCHECK(l, "variant_string", eq(b, m), "round %d", k); } break;
					case 6: { CharString cs = s.utf8(); TCHECK(l, "utf8", eq(String::utf8(cs.get_data()), m), "round %d", k); } break;
					default: s = master[k]; m = model[k];
				}
				TCHECK(l, "private_content", eq(s, m), "round %d operation %d", k, op);
			}
			TCHECK(l, "shared_content", eq(master[k], model[k]) && master[k].hash() == String(model[k].c_str()).hash(), "round %d", k);
		}
	});
	for (int k = 0; k < rounds; k++) c.check("master_content", eq(master[k], model[k]), "the shared string changed");
}

namespace {
template <class T> void pool_round(Ctx &c) {
	Rng &r = c.rng;
	Team t(r);
	int rounds = r.range(2, 10);
	std::vector<PoolVector<T>> master(rounds);
	std::vector<std::vector<int>> model(rounds);
	std::vector<std::vector<PoolVector<T>>> own(t.n, std::vector<PoolVector<T>>(rounds));
	bool shared = r.chance(0.4);
	for (int k = 0; k < rounds; k++) {
		int n = r.range(1, 9);
		for (int i = 0; i < n; i++) {
			model[k].push_back(r.range(0, 99));
			master[k].push_back(T(model[k].back()));
		}
		if (!shared) {
			for (int i = 0; i < t.n; i++) own[i][k] = master[k];
			master[k] = PoolVector<T>();
		}
	}
	c.label(shared ? "one const pool vector" : "a copy each");
	auto same = [](const PoolVector<T> &v, const std::vector<int> &m) {
		if (v.size() != (int)m.size()) return false;
		typename PoolVector<T>::Read rd = v.read();
		for (size_t i = 0; i < m.size(); i++) if (val(rd[i]) != m[i]) return false;
		return true;
	};
	t.run(c, [&](int id, Rng &q, Log &l) {
		for (int k = 0; k < rounds; k++) {
			line_up(t.n);
			PoolVector<T> mine = shared ? master[k] : own[id][k];
			std::vector<int> m = model[k];
			if (!shared && q.chance(0.6)) own[id][k] = PoolVector<T>();
			int n = q.range(1, 6);
			for (int s = 0; s < n; s++) {
				int op = q.range(0, 6), x = q.range(100, 999);
				size_t i = m.empty() ? 0 : q.range(0, (int)m.size() - 1);
				switch (op) {
					case 0: mine.push_back(T(x)); m.push_back(x); break;
					case 1: if (!m.empty()) { typename PoolVector<T>::Write w = mine.write(); w[i] = T(x); m[i] = x; } break;
					case 2: if (!m.empty()) { mine.remove(i); m.erase(m.begin() + i); } break;
					case 3: mine.insert(i, T(x)); m.insert(m.begin() + i, x); break;
					case 4: { PoolVector<T> copy = mine; if (copy.size()) copy.set(0, T(-5)); copy = PoolVector<T>(); } break;
					case 5: if (!m.empty()) { mine.set(i, T(x)); m[i] = x; } break;
					default: { PoolVector<T> o; o = mine; mine = o; }
				}
				TCHECK(l, "private_content", same(mine, m), "round %d operation %d", k, op);
			}
			if (shared) TCHECK(l, "shared_content", same(master[k], model[k]), "round %d", k);
			else own[id][k] = PoolVector<T>();
		}
	});
	if (shared) for (int k = 0; k < rounds; k++) c.check("master_content", same(master[k], model[k]), "the shared pool vector changed");
}
} // namespace
UNIT("R03", "pool_vectors", 400, 8000) {
	int base = live();
	uint32_t slots = MemoryPool::allocs_used;
	size_t tm = MemoryPool::total_memory;
	if (c.rng.chance(0.5)) pool_round<El>(c);
	else pool_round<int>(c);
	c.check("live_elements", live() == base, strf("%d elements left", live() - base));
	c.check("pool_slots", MemoryPool::allocs_used == slots, strf("%d pool slots left in use", (int)(MemoryPool::allocs_used - slots)));
	c.check("pool_memory", MemoryPool::total_memory == tm, strf("%lld bytes left", (long long)(MemoryPool::total_memory - tm)));
}

// arrays, dictionaries and their handles
UNIT("R03", "containers", 300, 6000) {
	Rng &r = c.rng;
	Team t(r);
	int rounds = r.range(2, 8);
	std::vector<std::vector<Array>> oa(t.n, std::vector<Array>(rounds));
	std::vector<std::vector<Dictionary>> od(t.n, std::vector<Dictionary>(rounds));
	int base = live();
	std::vector<Payload> pay(rounds);
	std::vector<int> sz(rounds);
	for (int k = 0; k < rounds; k++) {
		Array a;
		Dictionary d;
		sz[k] = r.range(1, 8);
		for (int i = 0; i < sz[k]; i++) {
			a.push_back(i * 3);
			d[i] = String::num_int64(i * 7);
		}
		RO o;
		o.instance();
		o->value = k;
		o->pay = &pay[k];
		a.push_back(o);
		d["o"] = o;
		for (int i = 0; i < t.n; i++) { oa[i][k] = a; od[i][k] = d; }
	}
	t.run(c, [&](int id, Rng &q, Log &l) {
		for (int k = 0; k < rounds; k++) {
			line_up(t.n);
			Array a = oa[id][k];
			Dictionary d = od[id][k];
			const Array &ca = a;
			const Dictionary &cd = d;
			Variant va = a, vd = d;
			oa[id][k] = Array();
			od[id][k] = Dictionary();
			int i = q.range(0, sz[k] - 1);
			TCHECK(l, "array_value", ca.size() == sz[k] + 1 && (int)ca[i] == i * 3, "round %d", k);
			TCHECK(l, "dictionary_value", cd.size() == sz[k] + 1 && cd.has(i) && (String)cd[i] == String::num_int64(i * 7), "round %d", k);
			RO o = ca[sz[k]];
			TCHECK(l, "array_object", ok_obj(o, k), "round %d", k);
			Array a2 = va;
			Dictionary d2 = vd;
			TCHECK(l, "same_array", a2.id() == a.id() && d2.id() == d.id(), "round %d", k);
			Array copy = a2.duplicate();
			copy.push_back(5);
			copy[0] = "changed";
			Dictionary dcopy = d2.duplicate();
			dcopy[i] = "changed";
			dcopy["new"] = copy;
			TCHECK(l, "after_copy", a2.size() == sz[k] + 1 && d2.size() == sz[k] + 1, "round %d", k);
		}
	});
	for (int k = 0; k < rounds; k++) c.check("destroyed_once", pay[k].deaths == 1, strf("destroyed %d times", pay[k].deaths));
	c.check("live_objects", live() == base, strf("%d objects left", live() - base));
}

// ---- interned names ----
namespace {
const char *NAMES[] = { "alpha_r03", "beta_r03", "gamma_r03", "weights_r03", "q9", "input_set_r03", "layer_1_r03", "delta_r03", "a_rather_long_name_that_is_interned_too", "\xe4\xf6\xfc", "zeta_r03", "eta_r03" };
const int NN = sizeof NAMES / sizeof *NAMES;
} // namespace
UNIT("R03", "names", 500, 10000) {
	Rng &r = c.rng;
	uint64_t mem = Memory::get_mem_usage();
	{
		Team t(r);
		int ops = r.range(10, 80), spread = r.chance(0.5) ? 2 : NN;
		bool pinned = r.chance(0.2);
		StringName keep[NN];
		if (pinned) for (int i = 0; i < NN; i++) keep[i] = StringName(NAMES[i]);
		c.label(pinned ? "names kept alive" : "names come and go");
		t.run(c, [&](int id, Rng &q, Log &l) {
			StringName loc[4];
			int txt[4] = { -1, -1, -1, -1 };
			for (int s = 0; s < ops; s++) {
				int i = q.range(0, 3), j = q.range(0, 3), n = q.range(0, spread - 1);
				switch (q.range(0, 8)) {
					case 0: loc[i] = StringName(NAMES[n]); txt[i] = n; break;
					case 1: loc[i] = StringName(String(NAMES[n])); txt[i] = n; break;
					case 2: loc[i] = StringName(StaticCString::create(NAMES[n])); txt[i] = n; break;
					case 3: loc[i] = loc[j]; txt[i] = txt[j]; break;
					case 4: loc[i] = StringName(); txt[i] = -1; break;
					case 5: { Variant v = loc[i]; StringName b = v; TCHECK(l, "variant_name", b == loc[i], "through Variant"); } break;
					case 6: { StringName f = StringName::search(String(NAMES[n])); for (int k = 0; k < 4; k++) if (txt[k] == n) TCHECK(l, "search", f == loc[k], "search does not find the live name %d", n); } break;
					case 7: { StringName a(NAMES[n]); StringName b = a; if (pinned) TCHECK(l, "kept_name", a == keep[n], "name %d", n); TCHECK(l, "copy", a == b, "copy of name %d", n); } break;
					default: TCHECK(l, "text", txt[i] < 0 ? String(loc[i]).empty() : String(loc[i]) == String(NAMES[txt[i]]) && loc[i] == NAMES[txt[i]] && loc[i].hash() == String(NAMES[txt[i]]).hash(), "slot holds name %d", txt[i]);
				}
				TCHECK(l, "equality", (loc[i] == loc[j]) == (txt[i] == txt[j]), "names %d and %d", txt[i], txt[j]);
			}
		});
		// whatever happened, the table still maps text to one name
		for (int i = 0; i < NN; i++) {
			StringName a(NAMES[i]), b = StringName(String(NAMES[i]));
			c.check("table_after", a == b && String(a) == String(NAMES[i]), strf("name %d", i));
			if (pinned) c.check("kept_after", a == keep[i], strf("name %d", i));
		}
	}
	c.check("memory_counter", Memory::get_mem_usage() == mem, strf("%lld bytes left by dropped names", (long long)(Memory::get_mem_usage() - mem)));
	for (int i = 0; i < NN; i++) c.check("forgotten", StringName::search(String(NAMES[i])) == StringName(), strf("name %d is still interned", i));
}

// ---- locks ----
UNIT("R03", "locks", 300, 6000) {
	Rng &r = c.rng;
	Team t(r);
	Mutex mx;
	BinaryMutex bm;
	SpinLock sl;
	RWLock rw;
	struct { long a = 0, b = 0; } g[4];
	std::vector<std::array<long, 4>> add(t.n);
	for (auto &a : add) a.fill(0);
	int inside_w = 0, inside_r = 0; // accessed with relaxed atomics outside the sanitizer's view
	t.run(c, [&](int id, Rng &q, Log &l) {
		auto enter = [&](int k) { TCHECK(l, "exclusion", g[k].a == g[k].b, "lock %d let two threads in", k); g[k].a++; vp_nudge(); g[k].b++; add[id][k]++; };
		for (int s = 0; s < 60; s++) switch (q.range(0, 9)) {
			case 0: { MutexLock ml(mx); enter(0); } break;
			case 1: { // recursive
				mx.lock();
				mx.lock();
				enter(0);
				mx.unlock();
				enter(0);
				mx.unlock();
			} break;
			case 2: if (mx.try_lock() == OK) { enter(0); mx.unlock(); } break;
			case 3: { MutexLock ml(bm); enter(1); } break;
			case 4: if (bm.try_lock() == OK) { enter(1); bm.unlock(); } break;
			case 5: sl.lock(); enter(2); sl.unlock(); break;
			case 6: { RWLockWrite wl(rw); TCHECK(l, "writer_exclusion", __atomic_add_fetch(&inside_w, 1, __ATOMIC_RELAXED) == 1 && __atomic_load_n(&inside_r, __ATOMIC_RELAXED) == 0, "writer not alone"); enter(3); __atomic_sub_fetch(&inside_w, 1, __ATOMIC_RELAXED); } break;
			case 7: if (rw.write_try_lock() == OK) { enter(3); rw.write_unlock(); } break;
			case 8: { RWLockRead rl(rw); __atomic_add_fetch(&inside_r, 1, __ATOMIC_RELAXED); TCHECK(l, "reader_exclusion", g[3].a == g[3].b && __atomic_load_n(&inside_w, __ATOMIC_RELAXED) == 0, "reader saw a writer"); vp_nudge(); __atomic_sub_fetch(&inside_r, 1, __ATOMIC_RELAXED); } break;
			default: if (rw.read_try_lock() == OK) { TCHECK(l, "reader_exclusion", g[3].a == g[3].b, "reader saw a writer"); rw.read_unlock(); }
		}
	});
	for (int k = 0; k < 4; k++) {
		long want = 0;
		for (auto &a : add) want += a[k];
		c.check("count", g[k].a == want && g[k].b == want, strf("lock %d: %ld of %ld increments", k, g[k].a, want));
	}
	c.check("free_after", mx.try_lock() == OK && bm.try_lock() == OK && rw.write_try_lock() == OK, "a lock is still held");
	mx.unlock();
	bm.unlock();
	rw.write_unlock();
}

// a held lock refuses others, a shared one admits readers
UNIT("R03", "lock_states", 100, 2000) {
	Rng &r = c.rng;
	Mutex mx;
	BinaryMutex bm;
	RWLock rw;
	int how = r.range(0, 4);
	c.label(strf("held %d", how));
	if (how == 0) mx.lock();
	if (how == 1) bm.lock();
	if (how == 2) rw.write_lock();
	if (how >= 3) rw.read_lock();
	int res[6] = { 0 };
	std::thread th([&] {
		auto tryit = [&](int i, Error e) { res[i] = e == OK ? 1 : e == ERR_BUSY ? 2 : 3; };
		tryit(0, mx.try_lock());
		if (res[0] == 1) mx.unlock();
		tryit(1, bm.try_lock());
		if (res[1] == 1) bm.unlock();
		tryit(2, rw.write_try_lock());
		if (res[2] == 1) rw.write_unlock();
		tryit(3, rw.read_try_lock());
		if (res[3] == 1) rw.read_unlock();
	});
	th.join();
	int want[4] = { how == 0 ? 2 : 1, how == 1 ? 2 : 1, how >= 2 ? 2 : 1, how == 2 ? 2 : 1 };
	const char *nm[] = { "mutex_try", "binary_mutex_try", "write_try", "read_try" };
	for (int i = 0; i < 4; i++) c.check(nm[i], res[i] == want[i], strf("state %d: result %d expected %d", how, res[i], want[i]));
	if (how == 0) mx.unlock();
	if (how == 1) bm.unlock();
	if (how == 2) rw.write_unlock();
	if (how >= 3) rw.read_unlock();
	c.obs(hsh(9, how), true);
}

// ---- atomics ----
UNIT("R03", "atomics", 300, 6000) {
	Rng &r = c.rng;
	Team t(r);
	SafeNumeric<uint32_t> inc(5), dec(1000), best(0), gate(3);
	SafeNumeric<int64_t> sum(0);
	SafeRefCount rc;
	rc.init((uint32_t)t.n);
	SafeFlag flag;
	int message = 0;
	std::vector<std::vector<uint32_t>> seen(t.n), seen2(t.n), seend(t.n);
	std::vector<uint32_t> mx(t.n, 0);
	std::vector<int64_t> total(t.n, 0);
	std::vector<int> last(t.n, 0), refs(t.n, 0);
	int ops = r.range(5, 40);
	t.run(c, [&](int id, Rng &q, Log &l) {
		if (id == 0) {
			message = 42; // published by the flag
			flag.set();
		}
		for (int s = 0; s < ops; s++) {
			seen[id].push_back(inc.increment());
			seen[id].push_back(inc.postincrement() + 1);
			seend[id].push_back(dec.decrement());
			seend[id].push_back(dec.postdecrement() - 1);
			int64_t d = q.range(-1000, 1000);
			if (q.chance(0.5)) sum.add(d); else sum.sub(-d);
			total[id] += d;
			uint32_t x = q.range(0, 1 << 20);
			uint32_t got = best.exchange_if_greater(x);
			TCHECK(l, "exchange_if_greater", got >= x, "%u after offering %u", got, x);
			mx[id] = std::max(mx[id], x);
			TCHECK(l, "best_monotone", best.get() >= mx[id], "%u below %u", best.get(), mx[id]);
			uint32_t z = gate.conditional_increment();
			TCHECK(l, "conditional_increment", z > 3, "%u", z);
			gate.decrement();
			if (flag.is_set()) TCHECK(l, "published", message == 42, "flag set, message %d", message);
			if (rc.ref()) { refs[id]++; TCHECK(l, "unref_not_last", !rc.unref(), "last reference reported while others exist"); }
			else TCHECK(l, "ref_alive", false, "live count refused");
		}
		last[id] = rc.unref();
	});
	auto distinct = [&](const char *kind, std::vector<std::vector<uint32_t>> &v, long lo, long hi) {
		std::set<uint32_t> a;
		size_t n = 0;
		for (auto &x : v) { a.insert(x.begin(), x.end()); n += x.size(); }
		c.check(kind, a.size() == n && (long)*a.begin() == lo && (long)*a.rbegin() == hi, strf("%zu results, %zu distinct, range %u to %u, expected %ld to %ld", n, a.size(), *a.begin(), *a.rbegin(), lo, hi));
	};
	long k = 2L * ops * t.n;
	distinct("increments", seen, 6, 5 + k);
	distinct("decrements", seend, 1000 - k, 999);
	int64_t want = 0;
	uint32_t wb = 0;
	int lasts = 0;
	for (int i = 0; i < t.n; i++) { want += total[i]; wb = std::max(wb, mx[i]); lasts += last[i]; }
	c.check("sum", sum.get() == want, strf("%lld expected %lld", (long long)sum.get(), (long long)want));
	c.check("maximum", best.get() == wb, strf("%u expected %u", best.get(), wb));
	c.check("gate", gate.get() == 3, strf("%u", gate.get()));
	c.check("one_last", lasts == 1, strf("%d threads were told they dropped the last reference", lasts));
	c.check("dead", !rc.ref() && rc.get() == 0, "a dead count was revived");
}

// a count that has reached zero stays dead, and one owner is told so, under a race of ref and unref
UNIT("R03", "refcount_race", 300, 6000) {
	Rng &r = c.rng;
	Team t(r);
	const int rounds = 30;
	std::vector<SafeRefCount> rc(rounds);
	for (auto &x : rc) x.init(1);
	std::vector<std::vector<int>> last(t.n, std::vector<int>(rounds, 0));
	t.run(c, [&](int id, Rng &q, Log &l) {
		for (int k = 0; k < rounds; k++) {
			line_up(t.n);
			if (id == 0) last[id][k] += rc[k].unref();
			else
				for (int s = 0; s < 3; s++)
					if (rc[k].ref()) last[id][k] += rc[k].unref();
		}
	});
	for (int k = 0; k < rounds; k++) {
		int n = 0;
		for (int i = 0; i < t.n; i++) n += last[i][k];
		c.check("one_last", n == 1, strf("%d threads were told they dropped the last reference", n));
		c.check("dead", rc[k].get() == 0 && !rc[k].ref(), "count not zero");
	}
}

// ---- allocators ----
UNIT("R03", "allocators", 300, 6000) {
	Rng &r = c.rng;
	int base = live();
	uint64_t mem = Memory::get_mem_usage();
	{
		Team t(r);
		PagedAllocator<El, true> pa(r.range(1, 16));
		int ops = r.range(20, 120);
		bool raw = r.chance(0.4);
		c.label(raw ? "memalloc" : "paged");
		t.run(c, [&](int id, Rng &q, Log &l) {
			std::vector<std::pair<El *, int>> mine;
			std::vector<std::pair<uint8_t *, int>> blocks;
			for (int s = 0; s < ops; s++) {
				if (raw) {
					if (blocks.empty() || q.chance(0.5)) {
						int n = q.range(1, 200);
						uint8_t *p = (uint8_t *)memalloc(n);
						memset(p, id + 1, n);
						blocks.push_back({ p, n });
					} else {
						int i = q.range(0, (int)blocks.size() - 1);
						auto b = blocks[i];
						if (q.chance(0.4)) {
							int n = q.range(1, 300);
							blocks[i].first = (uint8_t *)memrealloc(b.first, n);
							for (int k = 0; k < std::min(n, b.second); k++) TCHECK(l, "block", blocks[i].first[k] == id + 1, "block damaged");
							memset(blocks[i].first, id + 1, n);
							blocks[i].second = n;
							continue;
						}
						for (int k = 0; k < b.second; k++) TCHECK(l, "block", b.first[k] == id + 1, "block damaged");
						memfree(b.first);
						blocks.erase(blocks.begin() + i);
					}
				} else if (mine.empty() || q.chance(0.55)) {
					El *e = pa.alloc();
					int v = id * 1000 + s;
					*e->heap = v;
					mine.push_back({ e, v });
				} else {
					int i = q.range(0, (int)mine.size() - 1);
					TCHECK(l, "element", val(*mine[i].first) == mine[i].second, "element changed by another thread");
					pa.free(mine[i].first);
					mine.erase(mine.begin() + i);
				}
			}
			for (auto &m : mine) {
				TCHECK(l, "element", val(*m.first) == m.second, "element changed by another thread");
				pa.free(m.first);
			}
			for (auto &b : blocks) memfree(b.first);
		});
		long e0 = errors();
		pa.reset();
		c.check("all_free", errors() == e0, "the allocator counts elements as used after all were freed");
		El *again[20];
		std::set<El *> d;
		for (auto &e : again) { e = pa.alloc(); d.insert(e); }
		c.check("distinct_after", d.size() == 20, "one element handed out twice");
		for (auto &e : again) pa.free(e);
	}
	c.check("live_elements", live() == base, strf("%d elements left", live() - base));
	c.check("memory_counter", Memory::get_mem_usage() == mem, strf("%lld bytes left", (long long)(Memory::get_mem_usage() - mem)));
}

// ---- objects created and looked up concurrently ----
UNIT("R03", "object_db", 300, 6000) {
	Rng &r = c.rng;
	int dbase = ObjectDB::get_object_count();
	{
		Team t(r);
		int per = r.range(5, 60);
		RO shared;
		shared.instance();
		ObjectID sid = shared->get_instance_id();
		std::vector<std::vector<ObjectID>> ids(t.n);
		t.run(c, [&](int id, Rng &q, Log &l) {
			std::vector<RO> mine;
			for (int s = 0; s < per; s++) {
				RO o;
				o.instance();
				ids[id].push_back(o->get_instance_id());
				TCHECK(l, "lookup_own", ObjectDB::get_instance(o->get_instance_id()) == o.ptr(), "own object not found");
				TCHECK(l, "lookup_shared", ObjectDB::get_instance(sid) == shared.ptr() && ObjectDB::instance_validate((Object *)shared.ptr()), "shared object not found");
				TCHECK(l, "count", ObjectDB::get_object_count() >= dbase + 2, "%d objects counted", ObjectDB::get_object_count());
				if (q.chance(0.5)) mine.push_back(o);
				else {
					ObjectID gone = o->get_instance_id();
					o.unref();
					TCHECK(l, "lookup_gone", ObjectDB::get_instance(gone) == nullptr, "destroyed object found");
				}
			}
		});
		std::set<ObjectID> all;
		size_t n = 0;
		for (auto &v : ids) { all.insert(v.begin(), v.end()); n += v.size(); }
		c.check("unique_ids", all.size() == n && !all.count(sid), strf("%zu objects, %zu ids", n, all.size()));
	}
	c.check("object_db_count", ObjectDB::get_object_count() == dbase, strf("%d entries left", ObjectDB::get_object_count() - dbase));
}

// ---- the platform's thread class ----
namespace {
struct Job {
	Thread::ID inside = 0;
	int in = 0, out = 0;
	bool was_main = true;
};
void job_main(void *p) {
	Job *j = (Job *)p;
	j->inside = Thread::get_caller_id();
	j->was_main = Thread::is_main_thread();
	j->out = j->in * 2;
}
} // namespace
UNIT("R03", "threads", 200, 4000) {
	Rng &r = c.rng;
	int n = r.range(1, 4), rounds = r.range(1, 4);
	Thread th[4];
	Job job[4];
	c.check("main", Thread::is_main_thread() && Thread::get_caller_id() == Thread::get_main_id(), "main thread not recognised");
	for (int k = 0; k < rounds; k++) {
		for (int i = 0; i < n; i++) {
			job[i] = Job();
			job[i].in = r.range(0, 1000);
			c.check("not_started", !th[i].is_started(), "");
			th[i].start(job_main, &job[i]);
			c.check("started", th[i].is_started(), "");
		}
		std::set<Thread::ID> ids;
		for (int i = 0; i < n; i++) {
			Thread::ID id = th[i].get_id();
			th[i].wait_to_finish();
			c.check("finished", !th[i].is_started(), "");
			c.check("result", job[i].out == job[i].in * 2 && !job[i].was_main, strf("got %d for %d", job[i].out, job[i].in));
			c.check("caller_id", job[i].inside == id, "the thread did not see the id its handle has");
			ids.insert(id);
		}
		c.check("unique_ids", (int)ids.size() == n && !ids.count(Thread::get_main_id()), "");
		c.obs(hsh(hsh(c.case_no, k), n), true);
	}
}

// ---- independent models ----
namespace {
struct Task {
	int kind;
	uint64_t seed;
	RM x, my;
	RV y, yc, x1;
	int epochs;
};
template <class M> void three(M &m, const Task &t, int mode) {
	if (mode == 0) m.gradient_descent(0.01, t.epochs, false);
	else if (mode == 1) m.sgd(0.01, t.epochs, false);
	else m.mbgd(0.01, t.epochs, 2, false);
}
template <class M> DV vec_model(M m, const Task &t) {
	DV o = dv(m->model_set_test(t.x));
	o.push_back(m->score());
	return o;
}
DV run_task(const Task &t) {
	thread_entropy(t.seed | 1);
	DV out;
	typedef MLPPActivation A;
	switch (t.kind) {
		case 0: { Ref<MLPPLinReg> m(memnew(MLPPLinReg(t.x, t.y, MLPPReg::REGULARIZATION_TYPE_RIDGE, 0.1, 0.5))); three(*m.ptr(), t, t.seed % 3); out = vec_model(m, t); } break;
		case 1: { Ref<MLPPLogReg> m(memnew(MLPPLogReg(t.x, t.yc))); three(*m.ptr(), t, t.seed % 3); out = vec_model(m, t); } break;
		case 2: { Ref<MLPPTanhReg> m(memnew(MLPPTanhReg(t.x, t.yc))); m->train_gradient_descent(0.01, t.epochs, false); out = vec_model(m, t); } break;
		case 3: { Ref<MLPPProbitReg> m(memnew(MLPPProbitReg(t.x, t.yc))); m->train_gradient_descent(0.01, t.epochs, false); out = vec_model(m, t); } break;
		case 4: { Ref<MLPPSoftmaxReg> m(memnew(MLPPSoftmaxReg(t.x, t.my))); m->train_gradient_descent(0.01, t.epochs, false); out = dm(m->model_set_test(t.x)).d; } break;
		case 5: { Ref<MLPPMLP> m(memnew(MLPPMLP(t.x, t.yc, 3))); three(*m.ptr(), t, t.seed % 3); out = vec_model(m, t); } break;
		case 6: { Ref<MLPPSoftmaxNet> m(memnew(MLPPSoftmaxNet(t.x, t.my, 3))); m->train_gradient_descent(0.01, t.epochs, false); out = dm(m->model_set_test(t.x)).d; } break;
		case 7: {
			Ref<MLPPANN> m(memnew(MLPPANN(t.x, t.yc)));
			m->add_layer(3, A::ACTIVATION_FUNCTION_SIGMOID);
			m->add_layer(2, A::ACTIVATION_FUNCTION_TANH);
			m->add_output_layer(A::ACTIVATION_FUNCTION_SIGMOID, MLPPCost::COST_TYPE_LOGISTIC_LOSS);
			three(*m.ptr(), t, t.seed % 3);
			out = vec_model(m, t);
		} break;
		case 8: {
			Ref<MLPPMANN> m(memnew(MLPPMANN(t.x, t.my)));
			m->add_layer(3, A::ACTIVATION_FUNCTION_SIGMOID);
			m->add_output_layer(A::ACTIVATION_FUNCTION_SIGMOID, MLPPCost::COST_TYPE_MSE);
			m->gradient_descent(0.01, t.epochs, false);
			out = dm(m->model_set_test(t.x)).d;
		} break;
		case 9: { Ref<MLPPKMeans> m(memnew(MLPPKMeans())); m->set_input_set(t.x); m->set_k(2); m->set_mean_type(MLPPKMeans::MEAN_TYPE_KMEANSPP); m->initialize(); m->train(t.epochs, false); m->model_set_test(t.x); // seeded by the clock: watched for races only
			m->set_k(1); m->initialize(); m->train(t.epochs, false); out = dm(m->model_set_test(t.x)).d; } break;
		case 10: { Ref<MLPPKNN> m(memnew(MLPPKNN())); m->set_input_set(t.x); m->set_output_set(t.yc); m->set_k(3); PoolIntArray a = m->model_set_test(t.x); for (int i = 0; i < a.size(); i++) out.push_back(a[i]); } break;
		case 11: { Ref<MLPPPCA> m(memnew(MLPPPCA(t.x, 2))); out = dm(m->principal_components()).d; } break;
		case 12: { Ref<MLPPSVC> m(memnew(MLPPSVC(t.x, t.yc, 1.0))); m->train_gradient_descent(0.01, t.epochs, false); out = vec_model(m, t); } break;
		case 13: { Ref<MLPPGaussianNB> m(memnew(MLPPGaussianNB(t.x, t.yc, 2))); out = dv(m->model_set_test(t.x)); } break;
		case 14: { Ref<MLPPAutoEncoder> m(memnew(MLPPAutoEncoder(t.x, 2))); three(*m.ptr(), t, t.seed % 3); out = dm(m->model_set_test(t.x)).d; } break;
		case 15: { Ref<MLPPUniLinReg> m(memnew(MLPPUniLinReg(t.x1, t.y))); m->train(); out = dv(m->model_set_test(t.x1)); } break;
		default: {
			RM g = t.x->transposen()->multn(t.x);
			out = dm(g).d;
			out.push_back(g->det(g->size().x));
		}
	}
	thread_entropy(0);
	return out;
}
const int TASKS = 17;
} // namespace

// models trained in parallel threads give what they give alone, on their own or on shared data
UNIT("R03", "models", 160, 3000) {
	Rng &r = c.rng;
	Team t(r);
	bool shared = r.chance(0.5);
	int per = r.range(1, 3), rows = r.range(4, 7), cols = r.range(2, 3);
	std::vector<Task> tasks(t.n * per);
	for (size_t i = 0; i < tasks.size(); i++) {
		Task &k = tasks[i];
		k.kind = r.chance(0.2) && i ? tasks[0].kind : r.range(0, TASKS - 1);
		k.seed = r.next();
		k.epochs = r.range(1, 4);
		if (shared && i) { Task s = tasks[0]; k.x = s.x; k.y = s.y; k.yc = s.yc; k.my = s.my; k.x1 = s.x1; }
		else {
			k.x = mkm(gm(r, rows, cols, K_STD));
			k.y = mkv(gv(r, rows, K_STD));
			k.x1 = mkv(gv(r, rows, K_STD));
			DV yc(rows);
			DM my(rows, 2);
			for (int q = 0; q < rows; q++) { yc[q] = q < 2 ? q : r.range(0, 1); my.at(q, (int)yc[q]) = 1; }
			k.yc = mkv(yc);
			k.my = mkm(my);
		}
	}
	c.label(shared ? "shared data" : "own data");
	std::vector<DV> alone(tasks.size()), par(tasks.size());
	for (size_t i = 0; i < tasks.size(); i++) alone[i] = run_task(tasks[i]);
	DM before = dm(tasks[0].x);
	t.run(c, [&](int id, Rng &q, Log &l) {
		for (int k = 0; k < per; k++) par[id * per + k] = run_task(tasks[id * per + k]);
	});
	for (size_t i = 0; i < tasks.size(); i++) {
		bool ok = alone[i].size() == par[i].size();
		for (size_t k = 0; ok && k < par[i].size(); k++) ok = close(par[i][k], alone[i][k], 0, 0) || (std::isnan(par[i][k]) && std::isnan(alone[i][k]));
		c.check(strf("model_%d", tasks[i].kind).c_str(), ok, "in parallel " + str(par[i]) + " alone " + str(alone[i]));
		c.count(strf("model_%d", tasks[i].kind).c_str());
	}
	c.check("input", dm(tasks[0].x).d == before.d, "the shared input changed");
}
