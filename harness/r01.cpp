// R01: platform containers against standard-library models: random edit histories over several handles,
// with copies taken at random points.  Every element type owns heap memory in at least one instantiation,
// so AddressSanitizer and a live-object counter judge construction, relocation and destruction too.
#include "vh.h"
#include "platform/sfw.h"
#include <algorithm>
#include <deque>
using namespace vh;

namespace {

std::string g_at; // current step, for messages

// ---- element types ----
struct Tr { // owns memory; ordered by key only (tag distinguishes equal keys)
	static std::atomic<long> live;
	int *p;
	int tag;
	Tr() : p(new int(-1)), tag(-1) { live++; }
	Tr(int k, int t) : p(new int(k)), tag(t) { live++; }
	Tr(const Tr &o) : p(new int(*o.p)), tag(o.tag) { live++; }
	Tr &operator=(const Tr &o) {
		int v = *o.p;
		int t = o.tag;
		*p = v;
		tag = t;
		return *this;
	}
	~Tr() {
		*p = -77;
		delete p;
		p = nullptr;
		live--;
	}
	bool operator<(const Tr &o) const { return *p < *o.p; }
	bool operator>(const Tr &o) const { return *p > *o.p; }
	bool operator==(const Tr &o) const { return *p == *o.p && tag == o.tag; }
	bool operator!=(const Tr &o) const { return !(*this == o); }
};
std::atomic<long> Tr::live(0);

template <class T> struct E;
template <> struct E<int> {
	static int mk(int v) { return v; }
	static int un(const int &t) { return t; }
	static int ord(int v) { return v; }
	static const char *name() { return "int"; }
};
template <> struct E<uint8_t> {
	static uint8_t mk(int v) { return (uint8_t)(v % 200); }
	static int un(const uint8_t &t) { return t; }
	static int ord(int v) { return v; }
	static const char *name() { return "u8"; }
};
template <> struct E<double> {
	static double mk(int v) { return v * 0.5; }
	static int un(const double &t) { return (int)(t * 2); }
	static int ord(int v) { return v; }
	static const char *name() { return "double"; }
};
template <> struct E<String> {
	static String mk(int v) {
		char b[64];
		snprintf(b, 64, v % 3 ? "key%06d" : "key%06d-with-a-longer-tail", v);
		return String(b);
	}
	static int un(const String &t) {
		if (t.length() < 9) return -1;
		int v = 0;
		for (int i = 3; i < 9; i++) v = v * 10 + (int)(t[i] - '0');
		return v;
	}
	static int ord(int v) { return v; }
	static const char *name() { return "String"; }
};
template <> struct E<Tr> {
	static Tr mk(int v) { return Tr(v / 4, v % 4); }
	static int un(const Tr &t) { return *t.p < 0 ? -1 : *t.p * 4 + t.tag; }
	static int ord(int v) { return v / 4; }
	static const char *name() { return "tracked"; }
};
int norm(int v, E<uint8_t> *) { return v % 200; }
template <class X> int norm(int v, X *) { return v; }
template <class T> int nv(int v) { return norm(v, (E<T> *)nullptr); }

typedef std::vector<int> M;
std::string ms(const M &m) {
	std::string s = "[";
	for (size_t i = 0; i < m.size() && i < 24; i++) s += strf("%d ", m[i]);
	if (m.size() > 24) s += "...";
	return s + "]";
}

template <class T> bool sortedness(Ctx &c, const char *kind, const M &got, const M &before) {
	for (size_t i = 1; i < got.size(); i++)
		if (E<T>::ord(got[i]) < E<T>::ord(got[i - 1])) {
			c.fail(kind, "not ordered after sort: " + ms(got) + " from " + ms(before));
			return false;
		}
	M a = got, b = before;
	std::sort(a.begin(), a.end());
	std::sort(b.begin(), b.end());
	if (a != b) {
		c.fail(kind, "sort lost or duplicated elements: " + ms(got) + " from " + ms(before));
		return false;
	}
	return true;
}

// ---- sequences: Vector, PoolVector, LocalVector, TightLocalVector ----
template <class T> M rd(const Vector<T> &v) {
	M m;
	for (int i = 0; i < v.size(); i++) m.push_back(E<T>::un(v[i]));
	return m;
}
template <class T> M rd(const PoolVector<T> &v) {
	M m;
	typename PoolVector<T>::Read r = v.read();
	for (int i = 0; i < v.size(); i++) m.push_back(E<T>::un(r[i]));
	return m;
}
template <class T> M rd(const LocalVector<T> &v) {
	M m;
	for (uint32_t i = 0; i < v.size(); i++) m.push_back(E<T>::un(v[i]));
	return m;
}
template <class T> M rd(const TightLocalVector<T> &v) {
	M m;
	for (uint32_t i = 0; i < v.size(); i++) m.push_back(E<T>::un(v[i]));
	return m;
}

template <class S> bool same(Ctx &c, const char *kind, const S &s, const M &m) {
	M g = rd(s);
	if (g != m || (int)s.size() != (int)m.size() || s.empty() != m.empty()) {
		c.fail(kind, strf("%s: got size %d ", g_at.c_str(), (int)s.size()) + ms(g) + " want " + ms(m));
		return false;
	}
	return true;
}
uint64_t h1(uint64_t v) { return v; }
uint64_t h1(const char *s) { return hs(std::string(s)); }
template <class... A> uint64_t hx(A... a) {
	uint64_t h = 1469598103934665603ULL;
	for (uint64_t v : { h1(a)... }) h = (h ^ v) * 1099511628211ULL;
	return h;
}
uint64_t mh(const M &m) {
	uint64_t h = 1469598103934665603ULL;
	for (int x : m) h = (h ^ (uint64_t)(uint32_t)x) * 1099511628211ULL;
	return h ^ m.size();
}

int growsize(Rng &r, int cur) {
	switch (r.range(0, 5)) {
		case 0: return r.range(0, 4);
		case 1: return cur + r.range(0, 3);
		case 2: return cur > 0 ? r.range(0, cur) : 0;
		case 3: return r.range(0, 40);
		case 4: return 1 << r.range(0, 6);
		default: return (1 << r.range(0, 6)) + 1;
	}
}

// ---- Vector<T> ----
template <class T> void vector_hist(Ctx &c) {
	long live0 = Tr::live;
	{
		const int H = 3;
		Vector<T> v[H];
		M m[H];
		int steps = c.rng.range(10, c.thorough ? 80 : 45);
		int vals = c.rng.chance(0.5) ? 12 : 190;
		for (int s = 0; s < steps; s++) {
			int k = c.rng.range(0, H - 1), o = c.rng.range(0, H - 1);
			int x = nv<T>(c.rng.range(0, vals));
			int n = m[k].size();
			int op = c.rng.range(0, 23);
			g_at = strf("step %d op %d", s, op);
			static const char *names[] = { "push_back", "insert", "remove", "erase", "resize", "set", "write", "ptrw", "fill", "invert", "append_array", "sort", "ordered_insert", "find", "slice", "assign", "copy_ctor", "clear", "refused", "self_elem", "bytes", "sort_custom", "push_back", "insert" };
			c.label(names[op]);
			switch (op) {
				case 0:
				case 22: {
					if (v[k].push_back(E<T>::mk(x))) c.fail("result", "push_back reported failure");
					m[k].push_back(x);
				} break;
				case 1:
				case 23: {
					int p = c.rng.range(0, n);
					if (v[k].insert(p, E<T>::mk(x)) != OK) c.fail("result", "insert in range refused");
					m[k].insert(m[k].begin() + p, x);
				} break;
				case 2:
					if (n) {
						int p = c.rng.range(0, n - 1);
						v[k].remove(p);
						m[k].erase(m[k].begin() + p);
					}
					break;
				case 3: {
					if (n && c.rng.chance(0.7)) x = m[k][c.rng.range(0, n - 1)];
					auto it = std::find(m[k].begin(), m[k].end(), x);
					bool want = it != m[k].end();
					if (want) m[k].erase(it);
					c.check("result", v[k].erase(E<T>::mk(x)) == want, "erase return value");
				} break;
				case 4: {
					int ns = growsize(c.rng, n);
					if (v[k].resize(ns) != OK) c.fail("result", "resize refused");
					if (ns < n) m[k].resize(ns);
					for (int i = n; i < ns; i++) {
						int y = nv<T>(c.rng.range(0, vals));
						if (c.rng.chance(0.5)) v[k].write[i] = E<T>::mk(y);
						else v[k].set(i, E<T>::mk(y));
						m[k].push_back(y);
					}
				} break;
				case 5:
					if (n) {
						int p = c.rng.range(0, n - 1);
						v[k].set(p, E<T>::mk(x));
						m[k][p] = x;
					}
					break;
				case 6:
					if (n) {
						int p = c.rng.range(0, n - 1);
						v[k].write[p] = E<T>::mk(x);
						m[k][p] = x;
					}
					break;
				case 7:
					if (n) {
						int p = c.rng.range(0, n - 1);
						T *w = v[k].ptrw();
						w[p] = E<T>::mk(x);
						m[k][p] = x;
					}
					break;
				case 8:
					v[k].fill(E<T>::mk(x));
					std::fill(m[k].begin(), m[k].end(), x);
					break;
				case 9:
					v[k].invert();
					std::reverse(m[k].begin(), m[k].end());
					break;
				case 10:
					if (n + m[o].size() < 300) {
						v[k].append_array(v[o]);
						M t = m[o];
						m[k].insert(m[k].end(), t.begin(), t.end());
					}
					break;
				case 11: {
					M before = m[k];
					v[k].sort();
					M g = rd(v[k]);
					if (!sortedness<T>(c, "sort", g, before)) return;
					m[k] = g;
				} break;
				case 21: {
					struct Desc {
						bool operator()(const T &a, const T &b) const { return b < a; }
					};
					M before = m[k];
					v[k].template sort_custom<Desc>();
					M g = rd(v[k]), rv = g;
					std::reverse(rv.begin(), rv.end());
					if (!sortedness<T>(c, "sort_custom", rv, before)) return;
					m[k] = g;
				} break;
				case 12: {
					bool sorted = true;
					for (int i = 1; i < n; i++) sorted &= E<T>::ord(m[k][i - 1]) <= E<T>::ord(m[k][i]);
					int p = 0;
					while (p < n && !(E<T>::ord(x) < E<T>::ord(m[k][p]))) p++;
					(void)sorted;
					v[k].ordered_insert(E<T>::mk(x));
					m[k].insert(m[k].begin() + p, x);
				} break;
				case 13: {
					int from = c.rng.range(-1, n + 1);
					if (n && c.rng.chance(0.7)) x = m[k][c.rng.range(0, n - 1)];
					int want = -1;
					if (from >= 0)
						for (int i = from; i < n; i++)
							if (m[k][i] == x) {
								want = i;
								break;
							}
					int got = v[k].find(E<T>::mk(x), from);
					c.check("result", got == want, strf("find from %d: got %d want %d", from, got, want));
				} break;
				case 14: {
					int b = c.rng.range(-n - 2, n + 2), e = c.rng.chance(0.2) ? INT32_MAX : c.rng.range(-n - 2, n + 2);
					int bb = std::max(-n, std::min(b, n)), ee = std::max(-n, std::min(e, n));
					if (bb < 0) bb += n;
					if (ee < 0) ee += n;
					Vector<T> r = v[k].slice(b, e);
					M w;
					if (bb <= ee) w.assign(m[k].begin() + bb, m[k].begin() + ee);
					same(c, "slice", r, w);
					if (c.rng.chance(0.3)) {
						v[o] = r;
						m[o] = w;
					}
				} break;
				case 15:
					v[k] = v[o];
					m[k] = M(m[o]);
					break;
				case 16: {
					Vector<T> t(v[k]);
					M tm = m[k];
					t.push_back(E<T>::mk(x));
					if (n) t.write[0] = E<T>::mk(x);
					tm.push_back(x);
					tm[0] = x;
					same(c, "copy", t, tm);
					v[o] = t;
					m[o] = tm;
				} break;
				case 17:
					v[k].clear();
					m[k].clear();
					break;
				case 18: {
					v[k].remove(n + c.rng.range(0, 3));
					v[k].remove(-1 - c.rng.range(0, 3));
					c.check("result", v[k].insert(n + 1 + c.rng.range(0, 3), E<T>::mk(x)) != OK && v[k].insert(-1, E<T>::mk(x)) != OK && v[k].resize(-1 - c.rng.range(0, 5)) != OK, "out-of-range request accepted");
				} break;
				case 19:
					if (n) { // arguments that refer to the container's own elements
						int i = c.rng.range(0, n - 1), p = c.rng.range(0, n);
						const Vector<T> &cv = v[k];
						int y = m[k][i];
						switch (c.rng.range(0, 4)) {
							case 0:
								v[k].push_back(cv[i]);
								m[k].push_back(y);
								break;
							case 1:
								v[k].insert(p, cv[i]);
								m[k].insert(m[k].begin() + p, y);
								break;
							case 2:
								v[k].set(n - 1, cv[i]);
								m[k][n - 1] = y;
								break;
							case 3: {
								bool eq = true;
								for (int q = 0; q < n; q++) eq &= m[k][q] == y;
								(void)eq;
								T keep = cv[i];
								v[k].fill(keep);
								std::fill(m[k].begin(), m[k].end(), y);
							} break;
							default:
								v[k].erase(T(cv[i]));
								m[k].erase(std::find(m[k].begin(), m[k].end(), y));
						}
					}
					break;
				case 20:
					if (std::is_trivially_copyable<T>::value) {
						Vector<uint8_t> b = v[k].to_byte_array();
						c.check("result", b.size() == (int)(n * sizeof(T)) && (n == 0 || memcmp(b.ptr(), v[k].ptr(), b.size()) == 0), "to_byte_array content");
					}
					break;
			}
			for (int i = 0; i < H; i++)
				if (!same(c, i == k || i == o ? "content" : "copy_changed", v[i], m[i])) return;
			c.obs(hx(mh(m[k]), op, E<T>::name()), n > 0);
		}
		c.count(E<T>::name());
	}
	c.label("destroy");
	c.check("live_objects", Tr::live == live0, strf("%ld element objects alive after all containers are gone", Tr::live - live0));
}

UNIT("R01", "vector.int", 900, 12000) { vector_hist<int>(c); }
UNIT("R01", "vector.string", 700, 9000) { vector_hist<String>(c); }
UNIT("R01", "vector.tracked", 700, 9000) { vector_hist<Tr>(c); }

// ---- PoolVector<T> ----
template <class T> void pool_hist(Ctx &c) {
	long live0 = Tr::live;
	uint32_t used0 = MemoryPool::allocs_used;
	{
		const int H = 3;
		PoolVector<T> v[H];
		M m[H];
		int steps = c.rng.range(10, c.thorough ? 80 : 45);
		int vals = c.rng.chance(0.5) ? 12 : 190;
		for (int s = 0; s < steps; s++) {
			int k = c.rng.range(0, H - 1), o = c.rng.range(0, H - 1);
			int x = nv<T>(c.rng.range(0, vals));
			int n = m[k].size();
			int op = c.rng.range(0, 21);
			static const char *names[] = { "push_back", "insert", "remove", "append", "resize", "set", "write", "held_read", "fill", "invert", "append_array", "sort", "find", "rfind", "count", "subarray", "assign", "copy_ctor", "clear", "refused", "held_lock", "fill_with" };
			c.label(names[op]);
			g_at = strf("step %d op %s", s, names[op]);
			switch (op) {
				case 0:
					v[k].push_back(E<T>::mk(x));
					m[k].push_back(x);
					break;
				case 1: {
					int p = c.rng.range(0, n);
					if (v[k].insert(p, E<T>::mk(x)) != OK) c.fail("result", "insert in range refused");
					m[k].insert(m[k].begin() + p, x);
				} break;
				case 2:
					if (n) {
						int p = c.rng.range(0, n - 1);
						v[k].remove(p);
						m[k].erase(m[k].begin() + p);
					}
					break;
				case 3:
					v[k].append(E<T>::mk(x));
					m[k].push_back(x);
					break;
				case 4: {
					int ns = growsize(c.rng, n);
					if (v[k].resize(ns) != OK) c.fail("result", "resize refused");
					if (ns < n) m[k].resize(ns);
					for (int i = n; i < ns; i++) {
						int y = nv<T>(c.rng.range(0, vals));
						v[k].set(i, E<T>::mk(y));
						m[k].push_back(y);
					}
				} break;
				case 5:
					if (n) {
						int p = c.rng.range(0, n - 1);
						v[k].set(p, E<T>::mk(x));
						m[k][p] = x;
					}
					break;
				case 6:
					if (n) {
						typename PoolVector<T>::Write w = v[k].write();
						for (int q = c.rng.range(1, 4); q > 0; q--) {
							int p = c.rng.range(0, n - 1);
							w[p] = E<T>::mk(x);
							m[k][p] = x;
						}
						if (c.rng.chance(0.3)) w.release();
					}
					break;
				case 7:
					if (n && k != o) { // a reader of one copy keeps its view while the other copy is edited
						v[o] = v[k];
						m[o] = m[k];
						typename PoolVector<T>::Read r = v[o].read();
						int p = c.rng.range(0, n - 1);
						v[k].set(p, E<T>::mk(x));
						m[k][p] = x;
						M seen;
						for (int i = 0; i < n; i++) seen.push_back(E<T>::un(r[i]));
						c.check("reader_view", seen == m[o], "a held reader saw an edit of another copy");
						c.check("result", v[o].is_locked(), "is_locked with a reader held");
					}
					break;
				case 8:
					v[k].fill(E<T>::mk(x));
					std::fill(m[k].begin(), m[k].end(), x);
					break;
				case 9:
					v[k].invert();
					std::reverse(m[k].begin(), m[k].end());
					break;
				case 10:
					if (n + m[o].size() < 300) {
						v[k].append_array(v[o]);
						M t = m[o];
						m[k].insert(m[k].end(), t.begin(), t.end());
					}
					break;
				case 11: {
					M before = m[k];
					v[k].sort();
					M g = rd(v[k]);
					if (!sortedness<T>(c, "sort", g, before)) return;
					m[k] = g;
				} break;
				case 12: {
					int from = c.rng.range(-1, n + 1);
					if (n && c.rng.chance(0.7)) x = m[k][c.rng.range(0, n - 1)];
					int want = -1;
					if (from >= 0)
						for (int i = from; i < n; i++)
							if (m[k][i] == x) {
								want = i;
								break;
							}
					int got = v[k].find(E<T>::mk(x), from);
					bool has = std::find(m[k].begin(), m[k].end(), x) != m[k].end();
					c.check("result", got == want, strf("find from %d: got %d want %d", from, got, want));
					c.check("result", v[k].has(E<T>::mk(x)) == has && v[k].contains(E<T>::mk(x)) == has, "has/contains");
				} break;
				case 13: {
					int from = c.rng.range(-n, n - 1);
					if (n && c.rng.chance(0.7)) x = m[k][c.rng.range(0, n - 1)];
					int f = from < 0 ? from + n : from, want = -1;
					if (n)
						for (int i = f; i >= 0; i--)
							if (m[k][i] == x) {
								want = i;
								break;
							}
					int got = v[k].rfind(E<T>::mk(x), from);
					if (n) c.check("result", got == want, strf("rfind from %d: got %d want %d", from, got, want));
				} break;
				case 14: {
					if (n && c.rng.chance(0.7)) x = m[k][c.rng.range(0, n - 1)];
					int got = v[k].count(E<T>::mk(x));
					c.check("result", got == (int)std::count(m[k].begin(), m[k].end(), x), "count");
				} break;
				case 15:
					if (n) {
						int a = c.rng.range(-n, n - 1), b = c.rng.range(-n, n - 1);
						int aa = a < 0 ? a + n : a, bb = b < 0 ? b + n : b;
						if (aa <= bb) {
							PoolVector<T> r = v[k].subarray(a, b);
							M w(m[k].begin() + aa, m[k].begin() + bb + 1);
							same(c, "subarray", r, w);
							if (c.rng.chance(0.3)) {
								v[o] = r;
								m[o] = w;
							}
						}
					}
					break;
				case 16:
					v[k] = v[o];
					m[k] = M(m[o]);
					break;
				case 17: {
					PoolVector<T> t(v[k]);
					M tm = m[k];
					t.push_back(E<T>::mk(x));
					t.set(0, E<T>::mk(x));
					tm.push_back(x);
					tm[0] = x;
					same(c, "copy", t, tm);
					v[o] = t;
					m[o] = tm;
				} break;
				case 18:
					v[k].clear();
					m[k].clear();
					break;
				case 19:
					v[k].remove(n + c.rng.range(0, 3));
					v[k].remove(-1);
					v[k].set(n, E<T>::mk(x));
					v[k].set(-1, E<T>::mk(x));
					c.check("result", v[k].insert(n + 1, E<T>::mk(x)) != OK && v[k].insert(-1, E<T>::mk(x)) != OK && v[k].resize(-2) != OK, "out-of-range request accepted");
					break;
				case 20:
					if (n) {
						v[k].set(n - 1, v[k].get(n - 1)); // from here on the buffer is this handle's own
						{
							typename PoolVector<T>::Read r = v[k].read();
							typename PoolVector<T>::Read r2 = r;
							c.check("result", v[k].resize(n + 1) != OK, "resize accepted while locked");
							if (x & 1) v[k].push_back(E<T>::mk(x));
							else c.check("result", v[k].insert(0, E<T>::mk(x)) != OK, "insert accepted while locked");
							c.check("result", E<T>::un(r2[n - 1]) == m[k][n - 1], "reader content");
						}
						{ // a reader of a copy does not lock this handle
							PoolVector<T> other = v[k];
							typename PoolVector<T>::Read r = other.read();
							if (x & 2) {
								v[k].push_back(E<T>::mk(x));
								m[k].push_back(x);
							} else {
								c.check("result", v[k].insert(0, E<T>::mk(x)) == OK, "insert refused while a copy is read");
								m[k].insert(m[k].begin(), x);
							}
							c.check("result", other.size() == n && E<T>::un(r[n - 1]) == m[k][x & 2 ? n - 1 : n], "reader of the copy");
						}
						c.check("result", !v[k].is_locked(), "still locked after the reader is gone");
					}
					break;
				case 21: {
					List<T> l;
					M w;
					for (int q = c.rng.range(1, 8); q > 0; q--) {
						int y = nv<T>(c.rng.range(0, vals));
						l.push_back(E<T>::mk(y));
						w.push_back(y);
					}
					v[k].fill_with(l);
					m[k] = w;
				} break;
			}
			for (int i = 0; i < H; i++)
				if (!same(c, i == k || i == o ? "content" : "copy_changed", v[i], m[i])) return;
			if (m[k].size()) {
				int p = c.rng.range(0, (int)m[k].size() - 1);
				c.check("get", E<T>::un(v[k].get(p)) == m[k][p] && E<T>::un(v[k][p]) == m[k][p], "get/operator[]");
			}
			c.obs(hx(mh(m[k]), op, E<T>::name()), n > 0);
		}
	}
	c.label("destroy");
	c.check("live_objects", Tr::live == live0, strf("%ld element objects alive after all containers are gone", Tr::live - live0));
	c.check("pool_slots", MemoryPool::allocs_used == used0, strf("%d pool slots in use, %d before", (int)MemoryPool::allocs_used, (int)used0));
}
UNIT("R01", "pool.int", 800, 10000) { pool_hist<int>(c); }
UNIT("R01", "pool.u8", 300, 5000) { pool_hist<uint8_t>(c); }
UNIT("R01", "pool.string", 700, 9000) { pool_hist<String>(c); }
UNIT("R01", "pool.tracked", 700, 9000) { pool_hist<Tr>(c); }

// ---- LocalVector / TightLocalVector ----
template <class L, class T> void local_hist(Ctx &c) {
	long live0 = Tr::live;
	{
		const int H = 3;
		L v[H];
		M m[H];
		int steps = c.rng.range(10, c.thorough ? 80 : 45);
		int vals = c.rng.chance(0.5) ? 12 : 190;
		for (int s = 0; s < steps; s++) {
			int k = c.rng.range(0, H - 1), o = c.rng.range(0, H - 1);
			int x = nv<T>(c.rng.range(0, vals));
			int n = m[k].size();
			int op = c.rng.range(0, 21);
			static const char *names[] = { "push_back", "insert", "remove", "remove_unordered", "erase", "erase_multiple_unordered", "resize", "set", "reserve", "fill", "invert", "sort", "ordered_insert", "find", "to_vector", "to_pool", "from_vector", "from_pool", "assign", "copy_ctor", "clear", "reset" };
			c.label(names[op]);
			g_at = strf("step %d op %s", s, names[op]);
			switch (op) {
				case 0:
					v[k].push_back(E<T>::mk(x));
					m[k].push_back(x);
					break;
				case 1: {
					int p = c.rng.range(0, n);
					v[k].insert(p, E<T>::mk(x));
					m[k].insert(m[k].begin() + p, x);
					v[k].insert(m[k].size() + 1, E<T>::mk(x)); // refused
				} break;
				case 2:
					v[k].remove(n + c.rng.range(0, 3)); // refused
					if (n) {
						int p = c.rng.range(0, n - 1);
						v[k].remove(p);
						m[k].erase(m[k].begin() + p);
					}
					break;
				case 3:
					if (n) {
						int p = c.rng.range(0, n - 1);
						v[k].remove_unordered(p);
						m[k][p] = m[k].back();
						m[k].pop_back();
					}
					break;
				case 4: {
					if (n && c.rng.chance(0.7)) x = m[k][c.rng.range(0, n - 1)];
					auto it = std::find(m[k].begin(), m[k].end(), x);
					if (it != m[k].end()) m[k].erase(it);
					v[k].erase(E<T>::mk(x));
				} break;
				case 5: {
					if (n && c.rng.chance(0.7)) x = m[k][c.rng.range(0, n - 1)];
					int want = std::count(m[k].begin(), m[k].end(), x);
					int got = v[k].erase_multiple_unordered(E<T>::mk(x));
					c.check("result", got == want, strf("erase_multiple_unordered removed %d, wanted %d", got, want));
					M g = rd(v[k]), a = g, b;
					for (int y : m[k])
						if (y != x) b.push_back(y);
					std::sort(a.begin(), a.end());
					std::sort(b.begin(), b.end());
					c.check("erase_multiple", a == b, "remaining elements differ");
					m[k] = g;
				} break;
				case 6: {
					int ns = growsize(c.rng, n);
					v[k].resize(ns);
					if (ns < n) m[k].resize(ns);
					for (int i = n; i < ns; i++) {
						int y = nv<T>(c.rng.range(0, vals));
						v[k][i] = E<T>::mk(y);
						m[k].push_back(y);
					}
				} break;
				case 7:
					if (n) {
						int p = c.rng.range(0, n - 1);
						v[k][p] = E<T>::mk(x);
						m[k][p] = x;
					}
					break;
				case 8: {
					int want = growsize(c.rng, n) + 1;
					v[k].reserve(want);
					c.check("result", (int)v[k].get_capacity() >= want || std::is_same<L, LocalVector<T>>::value, "capacity below the reserved size");
				} break;
				case 9:
					v[k].fill(E<T>::mk(x));
					std::fill(m[k].begin(), m[k].end(), x);
					break;
				case 10:
					v[k].invert();
					std::reverse(m[k].begin(), m[k].end());
					break;
				case 11: {
					M before = m[k];
					v[k].sort();
					M g = rd(v[k]);
					if (!sortedness<T>(c, "sort", g, before)) return;
					m[k] = g;
				} break;
				case 12: {
					int p = 0;
					while (p < n && !(E<T>::ord(x) < E<T>::ord(m[k][p]))) p++;
					v[k].ordered_insert(E<T>::mk(x));
					m[k].insert(m[k].begin() + p, x);
				} break;
				case 13: {
					int from = c.rng.range(0, n + 1);
					if (n && c.rng.chance(0.7)) x = m[k][c.rng.range(0, n - 1)];
					int want = -1;
					for (int i = from; i < n; i++)
						if (m[k][i] == x) {
							want = i;
							break;
						}
					int got = (int)v[k].find(E<T>::mk(x), from);
					c.check("result", got == want, strf("find from %d: got %d want %d", from, got, want));
				} break;
				case 14: {
					Vector<T> t = v[k];
					same(c, "to_vector", t, m[k]);
					t.push_back(E<T>::mk(x));
					if (n) t.write[0] = E<T>::mk(x);
				} break;
				case 15: {
					PoolVector<T> t = v[k];
					same(c, "to_pool", t, m[k]);
					t.push_back(E<T>::mk(x));
					if (n) t.set(0, E<T>::mk(x));
				} break;
				case 16: {
					Vector<T> t;
					for (int y : m[o]) t.push_back(E<T>::mk(y));
					if (c.rng.chance(0.5)) {
						v[k] = t;
					} else {
						L q(t);
						v[k] = q;
					}
					m[k] = M(m[o]);
				} break;
				case 17: {
					PoolVector<T> t;
					for (int y : m[o]) t.push_back(E<T>::mk(y));
					if (c.rng.chance(0.5)) {
						v[k] = t;
					} else {
						L q(t);
						v[k] = q;
					}
					m[k] = M(m[o]);
				} break;
				case 18:
					v[k] = v[o];
					m[k] = M(m[o]);
					break;
				case 19: {
					L t(v[k]);
					M tm = m[k];
					t.push_back(E<T>::mk(x));
					t[0] = E<T>::mk(x);
					tm.push_back(x);
					tm[0] = x;
					same(c, "copy", t, tm);
				} break;
				case 20:
					v[k].clear();
					m[k].clear();
					break;
				case 21:
					v[k].reset();
					m[k].clear();
					c.check("result", v[k].get_capacity() == 0, "capacity after reset");
					break;
			}
			for (int i = 0; i < H; i++)
				if (!same(c, i == k || i == o ? "content" : "copy_changed", v[i], m[i])) return;
			c.check("capacity", (int)v[k].get_capacity() >= (int)m[k].size(), "capacity below size");
			c.obs(hx(mh(m[k]), op, E<T>::name()), n > 0);
		}
	}
	c.label("destroy");
	c.check("live_objects", Tr::live == live0, strf("%ld element objects alive after all containers are gone", Tr::live - live0));
}
UNIT("R01", "local.int", 500, 6000) { local_hist<LocalVector<int>, int>(c); }
UNIT("R01", "local.string", 500, 6000) { local_hist<LocalVector<String>, String>(c); }
UNIT("R01", "local.tracked", 500, 6000) { local_hist<LocalVector<Tr>, Tr>(c); }
UNIT("R01", "tight.int", 500, 6000) { local_hist<TightLocalVector<int>, int>(c); }
UNIT("R01", "tight.string", 500, 6000) { local_hist<TightLocalVector<String>, String>(c); }
UNIT("R01", "tight.tracked", 500, 6000) { local_hist<TightLocalVector<Tr>, Tr>(c); }

// ---- List ----
template <class T> M rdl(Ctx &c, List<T> &l) {
	M f, b;
	for (typename List<T>::Element *e = l.front(); e; e = e->next()) {
		f.push_back(E<T>::un(e->get()));
		if (f.size() > 4000) {
			c.fail("structure", "forward iteration does not end");
			return f;
		}
	}
	for (typename List<T>::Element *e = l.back(); e; e = e->prev()) {
		b.push_back(E<T>::un(e->get()));
		if (b.size() > 4000) {
			c.fail("structure", "backward iteration does not end");
			return f;
		}
	}
	std::reverse(b.begin(), b.end());
	if (f != b) c.fail("structure", "forward and backward iteration disagree: " + ms(f) + " / " + ms(b));
	if ((int)f.size() != l.size() || f.empty() != l.empty()) c.fail("structure", strf("size() %d, %d elements reachable", l.size(), (int)f.size()));
	return f;
}
template <class T> typename List<T>::Element *at(List<T> &l, int i) {
	typename List<T>::Element *e = l.front();
	while (i-- > 0) e = e->next();
	return e;
}
template <class T> void list_hist(Ctx &c) {
	long live0 = Tr::live;
	{
		const int H = 3;
		List<T> v[H];
		M m[H];
		int steps = c.rng.range(10, c.thorough ? 80 : 45);
		int vals = c.rng.chance(0.5) ? 12 : 190;
		for (int s = 0; s < steps; s++) {
			int k = c.rng.range(0, H - 1), o = c.rng.range(0, H - 1);
			int x = nv<T>(c.rng.range(0, vals));
			int n = m[k].size();
			int op = c.rng.range(0, 21);
			static const char *names[] = { "push_back", "push_front", "pop_back", "pop_front", "insert_after", "insert_before", "erase_element", "erase_value", "swap", "move_to_back", "move_to_front", "move_before", "move_before_end", "invert", "sort", "sort_inplace", "find", "index", "assign", "copy_ctor", "clear", "set" };
			c.label(names[op]);
			g_at = strf("step %d op %s", s, names[op]);
			int i = n ? c.rng.range(0, n - 1) : 0, j = n ? c.rng.range(0, n - 1) : 0;
			switch (op) {
				case 0:
					c.check("result", E<T>::un(v[k].push_back(E<T>::mk(x))->get()) == x, "returned element");
					m[k].push_back(x);
					break;
				case 1:
					c.check("result", E<T>::un(v[k].push_front(E<T>::mk(x))->get()) == x, "returned element");
					m[k].insert(m[k].begin(), x);
					break;
				case 2:
					v[k].pop_back();
					if (n) m[k].pop_back();
					break;
				case 3:
					v[k].pop_front();
					if (n) m[k].erase(m[k].begin());
					break;
				case 4:
					if (n && c.rng.chance(0.9)) {
						v[k].insert_after(at(v[k], i), E<T>::mk(x));
						m[k].insert(m[k].begin() + i + 1, x);
					} else {
						v[k].insert_after(nullptr, E<T>::mk(x));
						m[k].push_back(x);
					}
					break;
				case 5:
					if (n && c.rng.chance(0.9)) {
						v[k].insert_before(at(v[k], i), E<T>::mk(x));
						m[k].insert(m[k].begin() + i, x);
					} else {
						v[k].insert_before(nullptr, E<T>::mk(x));
						m[k].push_back(x);
					}
					break;
				case 6:
					if (n) {
						if (n > 1 && c.rng.chance(0.5)) at(v[k], i)->erase();
						else c.check("result", v[k].erase(at(v[k], i)), "erase(element) result");
						m[k].erase(m[k].begin() + i);
					}
					break;
				case 7: {
					if (n && c.rng.chance(0.7)) x = m[k][i];
					auto it = std::find(m[k].begin(), m[k].end(), x);
					bool want = it != m[k].end();
					if (want) m[k].erase(it);
					c.check("result", v[k].erase(E<T>::mk(x)) == want, "erase(value) result");
				} break;
				case 8:
					if (n) {
						v[k].swap(at(v[k], i), at(v[k], j));
						std::swap(m[k][i], m[k][j]);
					}
					break;
				case 9:
					if (n) {
						v[k].move_to_back(at(v[k], i));
						int y = m[k][i];
						m[k].erase(m[k].begin() + i);
						m[k].push_back(y);
					}
					break;
				case 10:
					if (n) {
						v[k].move_to_front(at(v[k], i));
						int y = m[k][i];
						m[k].erase(m[k].begin() + i);
						m[k].insert(m[k].begin(), y);
					}
					break;
				case 11:
					if (n && i != j) {
						v[k].move_before(at(v[k], i), at(v[k], j));
						int y = m[k][i];
						m[k].erase(m[k].begin() + i);
						m[k].insert(m[k].begin() + (i < j ? j - 1 : j), y);
					}
					break;
				case 12:
					if (n) {
						v[k].move_before(at(v[k], i), nullptr);
						int y = m[k][i];
						m[k].erase(m[k].begin() + i);
						m[k].push_back(y);
					}
					break;
				case 13:
					v[k].invert();
					std::reverse(m[k].begin(), m[k].end());
					break;
				case 14:
				case 15: {
					M before = m[k];
					if (op == 14) v[k].sort();
					else v[k].template sort_custom_inplace<Comparator<T>>();
					M g = rdl(c, v[k]);
					if (!sortedness<T>(c, "sort", g, before)) return;
					m[k] = g;
				} break;
				case 16: {
					if (n && c.rng.chance(0.7)) x = m[k][i];
					typename List<T>::Element *e = v[k].find(E<T>::mk(x)), *w = nullptr;
					for (int q = 0; q < n && !w; q++)
						if (m[k][q] == x) w = at(v[k], q);
					c.check("result", e == w, "find");
				} break;
				case 17:
					if (n) {
						const List<T> &cl = v[k];
						c.check("result", E<T>::un(v[k][i]) == m[k][i] && E<T>::un(cl[j]) == m[k][j], "operator[]");
					}
					break;
				case 18:
					v[k] = v[o];
					m[k] = M(m[o]);
					break;
				case 19: {
					List<T> t(v[k]);
					M tm = m[k];
					t.push_back(E<T>::mk(x));
					tm.push_back(x);
					t.front()->set(E<T>::mk(x));
					tm[0] = x;
					c.check("copy", rdl(c, t) == tm, "content of an edited copy");
				} break;
				case 20:
					v[k].clear();
					m[k].clear();
					break;
				case 21:
					if (n) {
						at(v[k], i)->get() = E<T>::mk(x);
						m[k][i] = x;
					}
					break;
			}
			for (int q = 0; q < H; q++) {
				M g = rdl(c, v[q]);
				if (g != m[q]) {
					c.fail(q == k || q == o ? "content" : "copy_changed", g_at + ": got " + ms(g) + " want " + ms(m[q]));
					return;
				}
			}
			c.obs(hx(mh(m[k]), op, E<T>::name()), n > 0);
		}
	}
	c.label("destroy");
	c.check("live_objects", Tr::live == live0, strf("%ld element objects alive after all containers are gone", Tr::live - live0));
}
UNIT("R01", "list.int", 600, 8000) { list_hist<int>(c); }
UNIT("R01", "list.tracked", 600, 8000) { list_hist<Tr>(c); }

// ---- maps ----
struct CollideHasher {
	static uint32_t hash(const int p) { return (uint32_t)(p % 5); } // includes the reserved value 0
};
struct SameHasher {
	static uint32_t hash(const int) { return 0; }
};
struct Ent {
	int k, v;
	bool operator==(const Ent &o) const { return k == o.k && v == o.v; }
};
typedef std::vector<Ent> MM;
std::string mms(const MM &m) {
	std::string s = "{";
	for (size_t i = 0; i < m.size() && i < 16; i++) s += strf("%d:%d ", m[i].k, m[i].v);
	return s + "}";
}
int fnd(const MM &m, int k) {
	for (size_t i = 0; i < m.size(); i++)
		if (m[i].k == k) return i;
	return -1;
}
enum Order { INSERTION, SORTED, NONE };

// adaptors: list of (key,value) in iteration order plus named operations
template <class K, class V, class H> struct AHash {
	typedef HashMap<K, V, H> C;
	static void clear(C &h) { h.clear(); }
	static const Order order = INSERTION;
	static MM rd(Ctx &c, C &h) {
		MM f, b;
		for (auto *e = h.front(); e; e = e->next) f.push_back(Ent{ E<K>::un(e->key()), E<V>::un(e->value()) });
		for (auto *e = h.back(); e; e = e->prev) b.push_back(Ent{ E<K>::un(e->key()), E<V>::un(e->get()) });
		std::reverse(b.begin(), b.end());
		if (!(f == b)) c.fail("structure", "forward and backward iteration disagree");
		List<K> l;
		h.get_key_list(&l);
		size_t i = 0;
		bool ok = (size_t)l.size() == f.size();
		for (auto *e = l.front(); e && ok; e = e->next()) ok = E<K>::un(e->get()) == f[i++].k;
		c.check("keys", ok, "get_key_list differs from iteration");
		const K *kk = nullptr;
		i = 0;
		while ((kk = h.next(kk))) {
			if (i >= f.size() || E<K>::un(*kk) != f[i].k) {
				c.fail("keys", "next() differs from iteration");
				break;
			}
			i++;
		}
		c.check("keys", i == f.size(), "next() ended early");
		return f;
	}
	static int sz(C &h) { return h.size(); }
	static bool empty(C &h) { return h.empty(); }
	static void put(Ctx &c, C &h, const K &k, const V &v) {
		auto *e = c.rng.chance(0.5) ? h.insert(k, v) : h.set(k, v);
		c.check("result", e && E<V>::un(e->value()) == E<V>::un(v), "element returned by insert");
	}
	static bool erase(C &h, const K &k) { return h.erase(k); }
	static V *ptr(C &h, const K &k) { return h.getptr(k); }
	static bool has(Ctx &c, C &h, const K &k) {
		const C &ch = h;
		bool r = h.has(k);
		c.check("result", (h.find(k) != nullptr) == r && (ch.find(k) != nullptr) == r && (ch.getptr(k) != nullptr) == r && (h.get_element(k) != nullptr) == r, "has/find/getptr disagree");
		if (r) c.check("result", &h.get(k) == h.getptr(k) && &ch[k] == ch.getptr(k), "get and operator[]");
		return r;
	}
	static void special(Ctx &c, C &h, MM &m, int x, int y) {
		if (c.rng.chance(0.5)) {
			h.reserve(c.rng.range(1, 120));
			return;
		}
		int i = fnd(m, x);
		h.insert(E<K>::mk(x), E<V>::mk(y), true);
		if (i >= 0) m[i].v = y;
		else m.insert(m.begin(), Ent{ x, y });
	}
};
template <class K, class V, class H> struct AOG {
	typedef OGHashMap<K, V, H> C;
	static void clear(C &h) { h.clear(); }
	static const Order order = NONE;
	static MM rd(Ctx &c, C &h) {
		MM f;
		const K *kk = nullptr;
		while ((kk = h.next(kk))) {
			f.push_back(Ent{ E<K>::un(*kk), E<V>::un(h.get(*kk)) });
			if (f.size() > 5000) {
				c.fail("structure", "next() does not end");
				break;
			}
		}
		List<K> l;
		h.get_key_list(&l);
		c.check("keys", (size_t)l.size() == f.size(), "get_key_list size");
		std::vector<const typename C::Pair *> arr(f.size() + 1, nullptr);
		h.get_key_value_ptr_array(arr.data());
		for (size_t i = 0; i < f.size(); i++)
			if (!arr[i] || E<K>::un(arr[i]->key) != f[i].k || E<V>::un(arr[i]->data) != f[i].v) {
				c.fail("keys", "pair array differs from next()");
				break;
			}
		return f;
	}
	static int sz(C &h) { return h.size(); }
	static bool empty(C &h) { return h.empty(); }
	static void put(Ctx &c, C &h, const K &k, const V &v) {
		auto *e = h.set(k, v);
		c.check("result", e && E<V>::un(e->value()) == E<V>::un(v) && E<K>::un(e->key()) == E<K>::un(k), "element returned by set");
	}
	static bool erase(C &h, const K &k) { return h.erase(k); }
	static V *ptr(C &h, const K &k) { return h.getptr(k); }
	static bool has(Ctx &c, C &h, const K &k) {
		const C &ch = h;
		bool r = h.has(k);
		c.check("result", (h.find(k) != nullptr) == r && (ch.find(k) != nullptr) == r && (ch.getptr(k) != nullptr) == r, "has/find/getptr disagree");
		if (r) c.check("result", &h.get(k) == h.getptr(k) && &ch[k] == ch.getptr(k), "get and operator[]");
		return r;
	}
	static void special(Ctx &, C &, MM &, int, int) {}
};
template <class K, class V, class H> struct AOrd {
	typedef OrderedHashMap<K, V, H> C;
	static void clear(C &h) { h.clear(); }
	static const Order order = INSERTION;
	static MM rd(Ctx &c, C &h) {
		MM f, b;
		const C &ch = h;
		for (typename C::Element e = h.front(); e; e = e.next()) f.push_back(Ent{ E<K>::un(e.key()), E<V>::un(e.value()) });
		for (typename C::ConstElement e = ch.back(); e; e = e.prev()) b.push_back(Ent{ E<K>::un(e.key()), E<V>::un(e.get()) });
		std::reverse(b.begin(), b.end());
		if (!(f == b)) c.fail("structure", "forward and backward iteration disagree");
		return f;
	}
	static int sz(C &h) { return h.size(); }
	static bool empty(C &h) { return h.empty(); }
	static void put(Ctx &c, C &h, const K &k, const V &v) {
		typename C::Element e = h.insert(k, v);
		c.check("result", bool(e) && E<V>::un(e.value()) == E<V>::un(v) && E<K>::un(e.key()) == E<K>::un(k), "element returned by insert");
	}
	static bool erase(C &h, const K &k) {
		if (E<K>::un(k) % 2 && h.has(k)) {
			typename C::Element e = h.find(k);
			h.erase(e);
			return !e;
		}
		return h.erase(k);
	}
	static V *ptr(C &h, const K &k) {
		typename C::Element e = h.find(k);
		return e ? &e.value() : nullptr;
	}
	static bool has(Ctx &c, C &h, const K &k) {
		const C &ch = h;
		bool r = h.has(k);
		c.check("result", bool(h.find(k)) == r && bool(ch.find(k)) == r, "has/find disagree");
		if (r) c.check("result", &ch[k] == &ch.find(k).value(), "operator[]");
		return r;
	}
	static void special(Ctx &, C &, MM &, int, int) {}
};
template <class K, class V, class H> struct ARB {
	typedef RBMap<K, V> C;
	static void clear(C &h) { h.clear(); }
	static const Order order = SORTED;
	static MM rd(Ctx &c, C &h) {
		MM f, b;
		for (auto *e = h.front(); e; e = e->next()) f.push_back(Ent{ E<K>::un(e->key()), E<V>::un(e->value()) });
		for (auto *e = h.back(); e; e = e->prev()) b.push_back(Ent{ E<K>::un(e->key()), E<V>::un(e->get()) });
		std::reverse(b.begin(), b.end());
		if (!(f == b)) c.fail("structure", "forward and backward iteration disagree");
		int d = h.calculate_depth();
		c.check("balance", f.empty() || d <= 2 * std::log2((double)f.size() + 1) + 1, strf("depth %d for %d elements", d, (int)f.size()));
		return f;
	}
	static int sz(C &h) { return h.size(); }
	static bool empty(C &h) { return h.empty(); }
	static void put(Ctx &c, C &h, const K &k, const V &v) {
		auto *e = h.insert(k, v);
		c.check("result", e && E<V>::un(e->value()) == E<V>::un(v) && E<K>::un(e->key()) == E<K>::un(k), "element returned by insert");
	}
	static bool erase(C &h, const K &k) {
		if (E<K>::un(k) % 2 && h.has(k)) {
			h.erase(h.find(k));
			return true;
		}
		return h.erase(k);
	}
	static V *ptr(C &h, const K &k) {
		auto *e = h.find(k);
		return e ? &e->value() : nullptr;
	}
	static bool has(Ctx &c, C &h, const K &k) {
		const C &ch = h;
		bool r = h.has(k);
		c.check("result", (ch.find(k) != nullptr) == r, "has/find disagree");
		if (r) c.check("result", &ch[k] == &ch.find(k)->value(), "operator[]");
		return r;
	}
	static void special(Ctx &c, C &h, MM &m, int x, int) { // find_closest: greatest key not above
		int want = -1;
		for (auto &e : m)
			if (e.k <= x && e.k > want) want = e.k;
		auto *e = h.find_closest(E<K>::mk(x));
		c.check("find_closest", (e ? E<K>::un(e->key()) : -1) == want, strf("find_closest(%d) -> %d, want %d", x, e ? E<K>::un(e->key()) : -1, want));
	}
};
template <class K, class V, class H> struct AVM {
	typedef VMap<K, V> C;
	static void clear(C &h) {
		C e;
		h = e;
	}
	static const Order order = SORTED;
	static MM rd(Ctx &c, C &h) {
		MM f;
		const C &ch = h;
		for (int i = 0; i < h.size(); i++) {
			f.push_back(Ent{ E<K>::un(ch.getk(i)), E<V>::un(ch.getv(i)) });
			c.check("result", ch.get_array()[i].key == ch.getk(i), "get_array");
		}
		return f;
	}
	static int sz(C &h) { return h.size(); }
	static bool empty(C &h) { return h.empty(); }
	static void put(Ctx &c, C &h, const K &k, const V &v) {
		int p = h.insert(k, v);
		const C &ch = h;
		c.check("result", p >= 0 && p < h.size() && E<K>::un(ch.getk(p)) == E<K>::un(k), "position returned by insert");
	}
	static bool erase(C &h, const K &k) {
		int n = h.size();
		h.erase(k);
		return h.size() < n;
	}
	static V *ptr(C &h, const K &k) {
		int i = h.find(k);
		return i < 0 ? nullptr : &h.getv(i);
	}
	static bool has(Ctx &c, C &h, const K &k) {
		const C &ch = h;
		bool r = h.has(k);
		c.check("result", (h.find(k) >= 0) == r, "has/find disagree");
		if (r) c.check("result", &ch[k] == &ch.getv(h.find(k)), "operator[]");
		return r;
	}
	static void special(Ctx &c, C &h, MM &m, int x, int) {
		int i = h.find_nearest(E<K>::mk(x)), want = 0;
		for (auto &e : m) want += e.k < x;
		c.check("find_nearest", i == (m.empty() ? -1 : want), strf("find_nearest(%d) -> %d, want %d", x, i, want));
	}
};

template <class A, class K, class V> void map_hist(Ctx &c) {
	long live0 = Tr::live;
	{
		typedef typename A::C C;
		const int H = 3;
		C v[H];
		MM m[H];
		int steps = c.rng.range(15, c.thorough ? 160 : 90);
		int keys = c.rng.chance(0.4) ? 9 : (c.rng.chance(0.5) ? 40 : 400);
		for (int s = 0; s < steps; s++) {
			int k = c.rng.range(0, H - 1), o = c.rng.range(0, H - 1);
			if (c.rng.chance(0.6)) k = 0;
			int x = c.rng.range(0, keys), y = c.rng.range(0, 500);
			int n = m[k].size();
			if (n && c.rng.chance(0.3)) x = m[k][c.rng.range(0, n - 1)].k;
			int op = c.rng.range(0, 15);
			static const char *names[] = { "insert", "insert", "insert", "index_write", "erase", "erase", "edit_through_ptr", "lookup", "lookup", "special", "assign", "copy_ctor", "clear", "burst_insert", "burst_erase", "insert" };
			c.label(names[op]);
			g_at = strf("step %d op %s", s, names[op]);
			auto put = [&](C &h, MM &mm, int kk, int vv) {
				A::put(c, h, E<K>::mk(kk), E<V>::mk(vv));
				int i = fnd(mm, kk);
				if (i >= 0) mm[i].v = vv;
				else mm.push_back(Ent{ kk, vv });
			};
			auto del = [&](C &h, MM &mm, int kk) {
				int i = fnd(mm, kk);
				bool r = A::erase(h, E<K>::mk(kk));
				c.check("result", r == (i >= 0), strf("erase(%d) returned %d", kk, (int)r));
				if (i >= 0) mm.erase(mm.begin() + i);
			};
			switch (op) {
				case 0:
				case 1:
				case 2:
				case 15: put(v[k], m[k], x, y); break;
				case 3: {
					v[k][E<K>::mk(x)] = E<V>::mk(y);
					int i = fnd(m[k], x);
					if (i >= 0) m[k][i].v = y;
					else m[k].push_back(Ent{ x, y });
				} break;
				case 4:
				case 5: del(v[k], m[k], x); break;
				case 6: {
					int i = fnd(m[k], x);
					V *p = A::ptr(v[k], E<K>::mk(x));
					c.check("result", (p != nullptr) == (i >= 0), "pointer lookup");
					if (p && i >= 0) {
						*p = E<V>::mk(y);
						m[k][i].v = y;
					}
				} break;
				case 7:
				case 8:
					c.check("result", A::has(c, v[k], E<K>::mk(x)) == (fnd(m[k], x) >= 0), strf("has(%d)", x));
					break;
				case 9: A::special(c, v[k], m[k], x, y); break;
				case 10:
					v[k] = v[o];
					m[k] = MM(m[o]);
					break;
				case 11: {
					C t(v[k]);
					MM tm = m[k];
					put(t, tm, x, y);
					del(t, tm, c.rng.range(0, keys));
					MM g = A::rd(c, t);
					if (A::order == INSERTION) c.check("copy", g == tm, "content of an edited copy " + mms(g) + " want " + mms(tm));
				} break;
				case 12:
					if (c.rng.chance(0.3)) {
						A::clear(v[k]);
						m[k].clear();
					}
					break;
				case 13:
					for (int q = c.rng.range(1, 40); q > 0; q--) put(v[k], m[k], c.rng.range(0, keys), c.rng.range(0, 500));
					break;
				case 14:
					for (int q = c.rng.range(1, 30); q > 0 && m[k].size(); q--) del(v[k], m[k], m[k][c.rng.range(0, (int)m[k].size() - 1)].k);
					break;
			}
			for (int q = 0; q < H; q++) {
				MM g = A::rd(c, v[q]), w = m[q];
				if (A::order != INSERTION) {
					std::sort(w.begin(), w.end(), [](const Ent &a, const Ent &b) { return a.k < b.k; });
					if (A::order == NONE) std::sort(g.begin(), g.end(), [](const Ent &a, const Ent &b) { return a.k < b.k; });
				}
				if (!(g == w) || A::sz(v[q]) != (int)w.size() || A::empty(v[q]) != w.empty()) {
					c.fail(q == k || q == o ? "content" : "copy_changed", g_at + strf(": size %d got ", A::sz(v[q])) + mms(g) + " want " + mms(w));
					return;
				}
			}
			uint64_t h = 7;
			for (auto &e : m[k]) h = h * 31 + e.k * 1000 + e.v;
			c.obs(hx(h, op, n), n > 0);
		}
	}
	c.label("destroy");
	c.check("live_objects", Tr::live == live0, strf("%ld element objects alive after all containers are gone", Tr::live - live0));
}
struct DH : HashMapHasherDefault {};
UNIT("R01", "hashmap.int", 300, 4000) { map_hist<AHash<int, int, HashMapHasherDefault>, int, int>(c); }
UNIT("R01", "hashmap.collide", 300, 4000) { map_hist<AHash<int, Tr, CollideHasher>, int, Tr>(c); }
UNIT("R01", "hashmap.onehash", 100, 1500) { map_hist<AHash<int, int, SameHasher>, int, int>(c); }
UNIT("R01", "hashmap.string", 250, 3000) { map_hist<AHash<String, Tr, HashMapHasherDefault>, String, Tr>(c); }
UNIT("R01", "oghashmap.int", 250, 3000) { map_hist<AOG<int, int, HashMapHasherDefault>, int, int>(c); }
UNIT("R01", "oghashmap.collide", 250, 3000) { map_hist<AOG<int, Tr, CollideHasher>, int, Tr>(c); }
UNIT("R01", "oghashmap.string", 200, 3000) { map_hist<AOG<String, String, HashMapHasherDefault>, String, String>(c); }
UNIT("R01", "orderedmap.int", 250, 3000) { map_hist<AOrd<int, int, HashMapHasherDefault>, int, int>(c); }
UNIT("R01", "orderedmap.collide", 250, 3000) { map_hist<AOrd<int, Tr, CollideHasher>, int, Tr>(c); }
UNIT("R01", "orderedmap.string", 200, 3000) { map_hist<AOrd<String, Tr, HashMapHasherDefault>, String, Tr>(c); }
UNIT("R01", "rbmap.int", 300, 4000) { map_hist<ARB<int, int, void>, int, int>(c); }
UNIT("R01", "rbmap.string", 250, 3000) { map_hist<ARB<String, Tr, void>, String, Tr>(c); }
UNIT("R01", "vmap.int", 250, 3000) { map_hist<AVM<int, int, void>, int, int>(c); }
UNIT("R01", "vmap.string", 200, 3000) { map_hist<AVM<String, Tr, void>, String, Tr>(c); }

// special floating-point keys: zero of either sign is one key, every NaN is one key
UNIT("R01", "hashmap.float_keys", 200, 3000) {
	HashMap<double, int> h;
	HashSet<float> hsx;
	std::map<int, int> m; // canonical id -> value
	std::set<int> ms2;
	auto key = [&](int id, double &d) {
		if (id == 0) d = c.rng.chance(0.5) ? 0.0 : -0.0;
		else if (id == 1) {
			uint64_t b = 0x7ff8000000000000ULL | (c.rng.next() & 0xffffff) | (c.rng.chance(0.5) ? 1ULL << 63 : 0);
			memcpy(&d, &b, 8);
		} else if (id == 2) d = INFINITY;
		else if (id == 3) d = -INFINITY;
		else d = (id - 10) * 0.25;
	};
	for (int s = 0; s < 60; s++) {
		int id = c.rng.range(0, 20), v = c.rng.range(0, 99);
		double d;
		key(id == 10 ? 0 : id, d);
		int cid = id == 10 ? 0 : id;
		c.label(strf("key%d", std::min(id, 4)));
		switch (c.rng.range(0, 3)) {
			case 0:
				h.insert(d, v);
				m[cid] = v;
				hsx.insert((float)d);
				ms2.insert(cid);
				break;
			case 1:
				c.check("erase", h.erase(d) == (m.erase(cid) > 0), "erase result");
				c.check("erase", hsx.erase((float)d) == (ms2.erase(cid) > 0), "set erase result");
				break;
			default: {
				const int *p = h.getptr(d);
				auto it = m.find(cid);
				c.check("lookup", (p != nullptr) == (it != m.end()) && (!p || *p == it->second), strf("lookup of %g", d));
				c.check("lookup", hsx.has((float)d) == (ms2.count(cid) > 0), strf("set lookup of %g", d));
			}
		}
		c.check("size", h.size() == m.size() && hsx.size() == ms2.size(), "size");
		c.obs(hx(id, s, (int)m.size()));
	}
}

// ---- sets ----
template <class S> struct AS;
template <class K, class H> struct AS<HashSet<K, H>> {
	typedef HashSet<K, H> C;
	static const bool sorted = false;
	static M rd(Ctx &c, C &h) {
		M f, b;
		for (typename C::Iterator i = h.begin(); i; ++i) f.push_back(E<K>::un(*i));
		for (typename C::Iterator i = h.last(); i; --i) b.push_back(E<K>::un(i.key()));
		std::reverse(b.begin(), b.end());
		c.check("structure", f == b, "forward and backward iteration disagree");
		return f;
	}
	static void ins(Ctx &c, C &h, const K &k) {
		typename C::Iterator i = h.insert(k);
		c.check("result", i.valid() && E<K>::un(*i) == E<K>::un(k), "iterator returned by insert");
	}
	static bool has(Ctx &c, C &h, const K &k) {
		bool r = h.has(k);
		typename C::Iterator i = h.find(k);
		c.check("result", bool(i) == r && (!r || E<K>::un(*i) == E<K>::un(k)) && (r || i == h.end()), "find");
		return r;
	}
	static bool erase(Ctx &c, C &h, const K &k) {
		if (c.rng.chance(0.3) && h.has(k)) {
			h.remove(h.find(k));
			return true;
		}
		return h.erase(k);
	}
	static bool empty(C &h) { return h.is_empty(); }
	static void clear(Ctx &c, C &h) {
		if (c.rng.chance(0.5)) h.clear();
		else h.reset();
	}
	static void special(Ctx &c, C &h, M &, int) { h.reserve(c.rng.range(1, 120)); }
};
template <class K> struct AS<RBSet<K>> {
	typedef RBSet<K> C;
	static const bool sorted = true;
	static M rd(Ctx &c, C &h) {
		M f, b;
		for (auto *e = h.front(); e; e = e->next()) f.push_back(E<K>::un(e->get()));
		for (auto *e = h.back(); e; e = e->prev()) b.push_back(E<K>::un(e->get()));
		std::reverse(b.begin(), b.end());
		c.check("structure", f == b, "forward and backward iteration disagree");
		int d = h.calculate_depth();
		c.check("balance", f.empty() || d <= 2 * std::log2((double)f.size() + 1) + 1, strf("depth %d for %d elements", d, (int)f.size()));
		return f;
	}
	static void ins(Ctx &c, C &h, const K &k) {
		auto *e = h.insert(k);
		c.check("result", e && E<K>::un(e->get()) == E<K>::un(k), "element returned by insert");
	}
	static bool has(Ctx &c, C &h, const K &k) {
		const C &ch = h;
		c.check("result", (ch.find(k) != nullptr) == h.has(k), "find");
		return h.has(k);
	}
	static bool erase(Ctx &c, C &h, const K &k) {
		if (c.rng.chance(0.3) && h.has(k)) {
			h.erase(h.find(k));
			return true;
		}
		return h.erase(k);
	}
	static bool empty(C &h) { return h.empty(); }
	static void clear(Ctx &, C &h) { h.clear(); }
	static void special(Ctx &c, C &h, M &m, int x) {
		int want = -1;
		for (int y : m)
			if (y >= x && (want < 0 || y < want)) want = y;
		auto *e = h.lower_bound(E<K>::mk(x));
		c.check("lower_bound", (e ? E<K>::un(e->get()) : -1) == want, strf("lower_bound(%d) -> %d want %d", x, e ? E<K>::un(e->get()) : -1, want));
	}
};
template <class K> struct AS<VSet<K>> {
	typedef VSet<K> C;
	static const bool sorted = true;
	static M rd(Ctx &, C &h) {
		M f;
		const C &ch = h;
		for (int i = 0; i < h.size(); i++) f.push_back(E<K>::un(ch[i]));
		return f;
	}
	static void ins(Ctx &, C &h, const K &k) { h.insert(k); }
	static bool has(Ctx &c, C &h, const K &k) {
		c.check("result", (h.find(k) >= 0) == h.has(k), "find");
		return h.has(k);
	}
	static bool erase(Ctx &, C &h, const K &k) {
		int n = h.size();
		h.erase(k);
		return h.size() < n;
	}
	static bool empty(C &h) { return h.empty(); }
	static void clear(Ctx &, C &h) {
		C e;
		h = e;
	}
	static void special(Ctx &, C &, M &, int) {}
};
template <class S, class K> void set_hist(Ctx &c) {
	typedef AS<S> A;
	long live0 = Tr::live;
	{
		const int H = 3;
		S v[H];
		M m[H];
		int steps = c.rng.range(15, c.thorough ? 160 : 90);
		int keys = c.rng.chance(0.4) ? 9 : (c.rng.chance(0.5) ? 40 : 400);
		for (int s = 0; s < steps; s++) {
			int k = c.rng.range(0, H - 1), o = c.rng.range(0, H - 1);
			if (c.rng.chance(0.6)) k = 0;
			int n = m[k].size();
			int x = c.rng.range(0, keys);
			if (n && c.rng.chance(0.3)) x = m[k][c.rng.range(0, n - 1)];
			int op = c.rng.range(0, 11);
			static const char *names[] = { "insert", "insert", "insert", "erase", "erase", "lookup", "special", "assign", "copy_ctor", "clear", "burst_insert", "burst_erase" };
			c.label(names[op]);
			g_at = strf("step %d op %s", s, names[op]);
			auto ins = [&](S &h, M &mm, int kk) {
				A::ins(c, h, E<K>::mk(kk));
				if (std::find(mm.begin(), mm.end(), kk) == mm.end()) mm.push_back(kk);
			};
			auto del = [&](S &h, M &mm, int kk) {
				auto it = std::find(mm.begin(), mm.end(), kk);
				c.check("result", A::erase(c, h, E<K>::mk(kk)) == (it != mm.end()), "erase result");
				if (it != mm.end()) mm.erase(it);
			};
			switch (op) {
				case 0:
				case 1:
				case 2: ins(v[k], m[k], x); break;
				case 3:
				case 4: del(v[k], m[k], x); break;
				case 5: c.check("result", A::has(c, v[k], E<K>::mk(x)) == (std::find(m[k].begin(), m[k].end(), x) != m[k].end()), strf("has(%d)", x)); break;
				case 6: A::special(c, v[k], m[k], x); break;
				case 7:
					v[k] = v[o];
					m[k] = M(m[o]);
					break;
				case 8: {
					S t(v[k]);
					M tm = m[k];
					ins(t, tm, x);
					if (c.rng.chance(0.5)) {
						v[o] = t;
						m[o] = tm;
					}
				} break;
				case 9:
					if (c.rng.chance(0.3)) {
						A::clear(c, v[k]);
						m[k].clear();
					}
					break;
				case 10:
					for (int q = c.rng.range(1, 40); q > 0; q--) ins(v[k], m[k], c.rng.range(0, keys));
					break;
				case 11:
					for (int q = c.rng.range(1, 30); q > 0 && m[k].size(); q--) del(v[k], m[k], m[k][c.rng.range(0, (int)m[k].size() - 1)]);
					break;
			}
			for (int q = 0; q < H; q++) {
				M g = A::rd(c, v[q]), w = m[q];
				std::sort(w.begin(), w.end());
				if (!A::sorted) std::sort(g.begin(), g.end());
				if (g != w || (int)v[q].size() != (int)w.size() || A::empty(v[q]) != w.empty()) {
					c.fail(q == k || q == o ? "content" : "copy_changed", g_at + strf(": size %d got ", (int)v[q].size()) + ms(g) + " want " + ms(w));
					return;
				}
			}
			c.obs(hx(mh(m[k]), op), n > 0);
		}
	}
	c.label("destroy");
	c.check("live_objects", Tr::live == live0, strf("%ld element objects alive after all containers are gone", Tr::live - live0));
}
struct TrHasher {
	static uint32_t hash(const Tr &t) { return (uint32_t)(E<Tr>::un(t) % 7); }
};
UNIT("R01", "hashset.int", 300, 4000) { set_hist<HashSet<int>, int>(c); }
UNIT("R01", "hashset.string", 250, 3000) { set_hist<HashSet<String>, String>(c); }
UNIT("R01", "hashset.tracked", 250, 3000) { set_hist<HashSet<Tr, TrHasher>, Tr>(c); }
UNIT("R01", "hashset.collide", 250, 3000) { set_hist<HashSet<int, CollideHasher>, int>(c); }
UNIT("R01", "rbset.int", 300, 4000) { set_hist<RBSet<int>, int>(c); }
UNIT("R01", "rbset.string", 250, 3000) { set_hist<RBSet<String>, String>(c); }
UNIT("R01", "vset.int", 200, 3000) { set_hist<VSet<int>, int>(c); }
UNIT("R01", "vset.string", 200, 3000) { set_hist<VSet<String>, String>(c); }

// ---- RingBuffer ----
template <class T> void ring_hist(Ctx &c) {
	long live0 = Tr::live;
	{
		int power = c.rng.range(1, 6);
		RingBuffer<T> b(power);
		std::deque<int> m;
		int steps = c.rng.range(20, 90);
		for (int s = 0; s < steps; s++) {
			int cap = (1 << power) - 1, n = m.size();
			int x = c.rng.range(0, 190);
			int op = c.rng.range(0, 10);
			static const char *names[] = { "write", "write", "read", "write_block", "read_block", "peek_block", "copy", "find", "advance_read", "decrease_write", "grow" };
			c.label(names[op]);
			switch (op) {
				case 0:
				case 1: {
					bool ok = b.write(E<T>::mk(x)) == OK;
					c.check("result", ok == (n < cap), strf("write with %d of %d used", n, cap));
					if (n < cap) m.push_back(x);
				} break;
				case 2:
					if (n) {
						T t = b.read();
						c.check("read", E<T>::un(t) == m.front(), strf("read %d want %d", E<T>::un(t), m.front()));
						m.pop_front();
					} else {
						b.read(); // refused, changes nothing
					}
					break;
				case 3: {
					int k = c.rng.range(0, cap + 3);
					std::vector<T> buf;
					M vals;
					for (int i = 0; i < k; i++) {
						vals.push_back(c.rng.range(0, 190));
						buf.push_back(E<T>::mk(vals.back()));
					}
					int w = b.write(buf.data(), k);
					c.check("result", w == std::min(k, cap - n), strf("wrote %d of %d with %d free", w, k, cap - n));
					for (int i = 0; i < std::min(k, cap - n); i++) m.push_back(vals[i]);
				} break;
				case 4:
				case 5: {
					int k = c.rng.range(0, cap + 3);
					std::vector<T> buf(k, E<T>::mk(0));
					int r = b.read(buf.data(), k, op == 4);
					c.check("result", r == std::min(k, n), strf("read %d of %d with %d stored", r, k, n));
					for (int i = 0; i < std::min({ k, n, r }); i++) c.check("read", E<T>::un(buf[i]) == m[i], "block content");
					if (op == 4)
						for (int i = 0; i < std::min(k, n); i++) m.pop_front();
				} break;
				case 6: {
					int off = c.rng.range(0, n), k = c.rng.range(0, cap + 3);
					std::vector<T> buf(k + 1, E<T>::mk(0));
					int want = std::min(k, n - off);
					int r = b.copy(buf.data(), off, k);
					c.check("result", r == want, strf("copy(offset %d, size %d) with %d stored returned %d, want %d", off, k, n, r, want));
					for (int i = 0; i < std::min(r, want); i++) c.check("copy", E<T>::un(buf[i]) == m[off + i], "copied content");
				} break;
				case 7: {
					int off = c.rng.range(0, n), k = c.rng.range(0, cap + 3);
					if (n && c.rng.chance(0.7)) x = m[c.rng.range(0, n - 1)];
					int want = -1;
					for (int i = 0; i < std::min(k, n - off) && want < 0; i++)
						if (m[off + i] == x) want = i;
					int r = b.find(E<T>::mk(x), off, k);
					c.check("find", r == want, strf("find(offset %d, size %d) with %d stored returned %d, want %d", off, k, n, r, want));
				} break;
				case 8: {
					int k = c.rng.range(0, cap + 2);
					c.check("result", b.advance_read(k) == std::min(k, n), "advance_read result");
					for (int i = 0; i < std::min(k, n); i++) m.pop_front();
				} break;
				case 9: {
					int k = c.rng.range(0, cap + 2);
					c.check("result", b.decrease_write(k) == std::min(k, n), "decrease_write result");
					for (int i = 0; i < std::min(k, n); i++) m.pop_back();
				} break;
				case 10:
					if (c.rng.chance(0.2)) {
						b.clear();
						m.clear();
					} else if (power < 8 && c.rng.chance(0.5)) {
						power += c.rng.range(1, 2);
						b.resize(power);
					}
					break;
			}
			int cap2 = (1 << power) - 1;
			c.check("space", b.data_left() == (int)m.size() && b.space_left() == cap2 - (int)m.size() && b.size() == cap2 + 1, strf("data_left %d space_left %d size %d, stored %d of %d", b.data_left(), b.space_left(), b.size(), (int)m.size(), cap2));
			std::vector<T> all(m.size() + 1, E<T>::mk(0));
			int r = b.read(all.data(), (int)m.size(), false);
			bool ok = r == (int)m.size();
			for (size_t i = 0; i < m.size() && ok; i++) ok = E<T>::un(all[i]) == m[i];
			if (!c.check("content", ok, "stored sequence differs")) return;
			c.obs(hx(mh(M(m.begin(), m.end())), op, power), n > 0);
		}
	}
	c.label("destroy");
	c.check("live_objects", Tr::live == live0, "live elements after destruction");
}
UNIT("R01", "ring.int", 500, 8000) { ring_hist<int>(c); }
UNIT("R01", "ring.tracked", 300, 5000) { ring_hist<Tr>(c); }

// ---- PagedAllocator: live blocks never overlap and keep their content ----
UNIT("R01", "paged", 300, 4000) {
	long live0 = Tr::live;
	{
		PagedAllocator<Tr> a(c.rng.chance(0.5) ? 1 << c.rng.range(0, 4) : c.rng.range(1, 9));
		std::vector<std::pair<Tr *, int>> live;
		for (int s = 0; s < 150; s++) {
			c.label("alloc_free");
			if (live.empty() || c.rng.chance(0.55)) {
				Tr *t = a.alloc();
				int v = c.rng.range(0, 900);
				for (auto &p : live)
					if (p.first == t) c.fail("overlap", "an allocated block was handed out twice");
				*t = E<Tr>::mk(v);
				live.push_back({ t, v });
			} else {
				int i = c.rng.range(0, (int)live.size() - 1);
				a.free(live[i].first);
				live.erase(live.begin() + i);
			}
			bool ok = true;
			for (auto &p : live) ok &= E<Tr>::un(*p.first) == p.second;
			if (!c.check("content", ok, "block content changed")) break;
			c.obs(hx((int)live.size(), s));
		}
		for (auto &p : live) a.free(p.first);
		if (c.rng.chance(0.5)) a.reset();
	}
	c.check("live_objects", Tr::live == live0, "live elements after destruction");
}

// ---- SortArray ----
M pattern(Rng &r, int n) {
	M a(n);
	int kind = r.range(0, 9);
	for (int i = 0; i < n; i++) {
		switch (kind) {
			case 0: a[i] = r.range(0, 1 << 20); break;
			case 1: a[i] = i; break;
			case 2: a[i] = n - i; break;
			case 3: a[i] = r.range(0, 3); break;
			case 4: a[i] = 5; break;
			case 5: a[i] = std::min(i, n - i); break;
			case 6: a[i] = (i * 7919) % (n + 1); break;
			case 7: a[i] = i % 2 ? i : n - i; break;
			case 8: a[i] = 0; break;
			default: a[i] = i + (r.chance(0.05) ? r.range(-5, 5) : 0);
		}
	}
	if (kind == 8 && n >= 4) { // median-of-three killer: drives the partition depth past its limit
		int k = n / 2;
		for (int i = 1; i <= k; i++) {
			if (i % 2) {
				a[i - 1] = i;
				if (i < n) a[i] = k + i;
			}
			if (k + i - 1 < n) a[k + i - 1] = 2 * i;
		}
	}
	return a;
}
// An adversary that decides values lazily so that every pivot choice is bad (McIlroy).
struct Anti {
	static std::vector<int> *val;
	static int gas, nsolid, cand;
	static int cmp(int x, int y) {
		auto &v = *val;
		if (v[x] == gas && v[y] == gas) {
			if (x == cand) v[x] = nsolid++;
			else v[y] = nsolid++;
		}
		if (v[x] == gas) cand = x;
		else if (v[y] == gas) cand = y;
		return v[x] - v[y];
	}
	bool operator()(const int &a, const int &b) const { return cmp(a, b) < 0; }
};
std::vector<int> *Anti::val;
int Anti::gas, Anti::nsolid, Anti::cand;

struct LessCount {
	static long n;
	bool operator()(const int &a, const int &b) const {
		n++;
		return a < b;
	}
};
long LessCount::n;

M killer(int n, bool nth, int k) { // input on which the partitioning of SortArray degenerates
	std::vector<int> val(n, n), ptr(n);
	for (int i = 0; i < n; i++) ptr[i] = i;
	Anti::val = &val;
	Anti::gas = n;
	Anti::nsolid = 0;
	Anti::cand = 0;
	SortArray<int, Anti, false> s;
	if (nth) s.nth_element(0, n, k, ptr.data());
	else s.sort(ptr.data(), n);
	for (int i = 0; i < n; i++)
		if (val[i] == n) val[i] = Anti::nsolid++;
	return M(val);
}

UNIT("R01", "sort.int", 1500, 20000) {
	int n = c.rng.chance(0.1) ? c.rng.range(200, c.thorough ? 5000 : 1500) : c.rng.range(0, 120);
	bool adv = n > 20 && c.rng.chance(0.2);
	M a = adv ? killer(n, false, 0) : pattern(c.rng, n);
	M b = a, w = a;
	std::sort(w.begin(), w.end());
	c.label(adv ? "adversarial" : "sort");
	SortArray<int, LessCount> s;
	LessCount::n = 0;
	s.sort(b.data(), n);
	c.check("sort", b == w, "sorted content " + ms(b) + " from " + ms(a));
	if (n > 1) c.check("complexity", LessCount::n <= 8.0 * n * (std::log2((double)n) + 2), strf("%ld comparisons for %d elements", LessCount::n, n));
	c.obs(hx(mh(a), 1), n > 1);
	// part of an array
	c.label("sort_range");
	int lo = c.rng.range(0, n), hi = c.rng.range(lo, n);
	b = a;
	w = a;
	std::sort(w.begin() + lo, w.begin() + hi);
	s.sort_range(lo, hi, b.data());
	c.check("sort", b == w, strf("range %d..%d of %d: ", lo, hi, n) + ms(b) + " from " + ms(a));
	c.obs(hx(mh(a), 2, lo, hi), hi - lo > 1);
	if (n) {
		c.label("partial_sort");
		int mid = c.rng.range(1, n);
		b = a;
		w = a;
		std::sort(w.begin(), w.end());
		s.partial_sort(0, n, mid, b.data());
		M bs(b.begin(), b.begin() + mid), ws(w.begin(), w.begin() + mid), bb = b;
		std::sort(bb.begin(), bb.end());
		c.check("partial_sort", bs == ws && bb == w, strf("first %d of %d", mid, n));
		c.label("heap");
		b = a;
		s.make_heap(0, n, b.data());
		c.check("heap", std::is_heap(b.begin(), b.end()), "make_heap");
		s.sort_heap(0, n, b.data());
		c.check("heap", b == w, "sort_heap");
		c.obs(hx(mh(a), 3, mid), n > 1);
	}
}
UNIT("R01", "sort.nth", 1500, 20000) {
	int n = c.rng.chance(0.1) ? c.rng.range(200, c.thorough ? 5000 : 1500) : c.rng.range(1, 120);
	int k = c.rng.range(0, n - 1);
	bool adv = n > 8 && c.rng.chance(0.3);
	M a = adv ? killer(n, true, k) : pattern(c.rng, n);
	c.label(adv ? "adversarial" : "nth");
	M b = a, w = a;
	std::sort(w.begin(), w.end());
	SortArray<int, LessCount> s;
	s.nth_element(0, n, k, b.data());
	M bb = b;
	std::sort(bb.begin(), bb.end());
	c.check("conserve", bb == w, "elements lost or duplicated");
	bool ok = b[k] == w[k];
	for (int i = 0; i < n; i++) ok &= i < k ? b[i] <= b[k] : b[i] >= b[k];
	c.check("nth_element", ok, strf("n=%d nth=%d: position holds %d, the order statistic is %d", n, k, b[k], w[k]));
	c.obs(hx(mh(a), 4, k), n > 1);
}
UNIT("R01", "sort.tracked", 500, 6000) {
	long live0 = Tr::live;
	{
		int n = c.rng.range(0, 150);
		M a = pattern(c.rng, n);
		for (int &x : a) x = ((x % 400) + 400) % 400;
		std::vector<Tr> t;
		for (int x : a) t.push_back(E<Tr>::mk(x));
		SortArray<Tr> s;
		c.label("sort");
		s.sort(t.data(), n);
		M g;
		for (auto &x : t) g.push_back(E<Tr>::un(x));
		sortedness<Tr>(c, "sort", g, a);
		c.obs(hx(mh(a), 5), n > 1);
	}
	c.check("live_objects", Tr::live == live0, "live elements after sorting");
}
} // namespace
