// C01: edit histories of MLPPVector against a std::vector model.
#include "vh.h"
#include <algorithm>

typedef std::vector<float> FV;

static float nextval(Rng &r) {
	// small alphabet so that equal values, sorted runs and duplicates are frequent
	switch (r.range(0, 3)) {
		case 0: return (float)r.range(-3, 3);
		case 1: return r.f(-10, 10);
		case 2: return (float)r.range(0, 1);
		default: return std::ldexp(r.f(-1, 1), r.range(-20, 20));
	}
}
static FV nextlist(Rng &r, int maxn) {
	FV v(r.chance(0.15) ? 0 : r.range(1, maxn));
	for (auto &x : v) x = nextval(r);
	return v;
}
static Vector<real_t> ev(const FV &v) {
	Vector<real_t> o;
	o.resize(v.size());
	for (size_t i = 0; i < v.size(); i++) o.write[i] = v[i];
	return o;
}
static PoolRealArray pv(const FV &v) {
	PoolRealArray o;
	o.resize(v.size());
	PoolRealArray::Write w = o.write();
	for (size_t i = 0; i < v.size(); i++) w[i] = v[i];
	return o;
}
static DV D(const FV &v) { return DV(v.begin(), v.end()); }
static RV R(const FV &v) { return mkv(D(v)); }

static void look(Ctx &c, RV v, const FV &m) {
	if (!samev(c, "content", v, D(m))) return;
	c.check("empty", v->empty() == m.empty());
	Rng &r = c.rng;
	std::string w = c.where;
	// every read path reports the same content
	switch (r.range(0, 8)) {
		case 0: {
			PoolRealArray a = v->to_pool_vector();
			bool ok = a.size() == (int)m.size();
			for (int i = 0; ok && i < a.size(); i++) ok = a[i] == m[i];
			c.check("read.to_pool_vector", ok);
		} break;
		case 1: {
			PoolRealArray a = v->get_data();
			bool ok = a.size() == (int)m.size();
			for (int i = 0; ok && i < a.size(); i++) ok = a[i] == m[i];
			c.check("read.get_data", ok);
		} break;
		case 2:
			for (size_t i = 0; i < m.size(); i++) {
				bool ok = v->element_get(i) == m[i] && (*v.ptr())[i] == m[i] && v->element_get_ref(i) == m[i];
				const MLPPVector *cv = v.ptr();
				ok = ok && (*cv)[i] == m[i] && cv->element_get_ref(i) == m[i] && cv->ptr()[i] == m[i];
				if (!c.check("read.element", ok)) break;
			}
			break;
		case 3: {
			float q = m.empty() || r.chance(0.3) ? nextval(r) : m[r.range(0, m.size() - 1)];
			int from = r.range(0, (int)m.size());
			int want = -1;
			for (size_t i = from; i < m.size(); i++) if (m[i] == q) { want = i; break; }
			int got = v->find(q, from);
			c.check("find", got == want, strf("find(%g,%d) gave %d, expected %d in ", q, from, got, want) + str(D(m)));
		} break;
		case 4: {
			RV d = r.chance(0.5) ? v->duplicate_fast() : R(m);
			c.check("equal", v->is_equal_approx(d) && d->is_equal_approx(v), "is_equal_approx says a copy differs");
			if (!m.empty()) {
				int i = r.range(0, m.size() - 1);
				float old = m[i];
				d->element_set(i, old + 1 + std::fabs(old));
				c.check("unequal", !v->is_equal_approx(d) && !d->is_equal_approx(v), strf("is_equal_approx misses a difference at %d of %zu", i, m.size()));
			}
			d->push_back(1);
			c.check("unequal.size", !v->is_equal_approx(d) && !d->is_equal_approx(v));
			samev(c, "copy.independent", v, D(m));
		} break;
		case 5: {
			if (m.empty()) break;
			FV s = m;
			float mx = *std::max_element(s.begin(), s.end()), mn = *std::min_element(s.begin(), s.end());
			c.check("max_element", v->max_element() == mx && m[v->max_element_index()] == mx);
			c.check("min_element", v->min_element() == mn && m[v->min_element_index()] == mn);
		} break;
		case 6:
			if (!m.empty()) {
				Vector<real_t> a = v->to_vector();
				bool ok = a.size() == (int)m.size();
				for (int i = 0; ok && i < a.size(); i++) ok = a[i] == m[i];
				c.check("read.to_vector", ok);
				std::vector<real_t> b = v->to_std_vector();
				c.check("read.to_std_vector", b == m);
			}
			break;
		default: break;
	}
	(void)w;
}

static int g_nops = 34;
// performs one random edit on both; returns name
static std::string edit(Ctx &c, RV &v, FV &m, std::vector<std::pair<RV, FV>> &copies) {
	Rng &r = c.rng;
	int n = m.size();
	switch (r.range(0, g_nops - 1)) {
		case 0: case 1: case 2: { c.label("push_back"); float x = nextval(r); v->push_back(x); m.push_back(x); } break;
		case 3: { c.label("append"); FV o = nextlist(r, 6); v->append_mlpp_vector(R(o)); m.insert(m.end(), o.begin(), o.end()); } break;
		case 4: if (n < 60) { c.label("append.self"); v->append_mlpp_vector(v); FV o = m; m.insert(m.end(), o.begin(), o.end()); } break;
		case 5: case 6: if (n) { c.label("remove"); int i = r.range(0, n - 1); v->remove(i); m.erase(m.begin() + i); } break;
		case 7: case 8: if (n) {
			c.label("remove_unordered");
			int i = r.chance(0.3) ? n - 1 : r.range(0, n - 1);
			v->remove_unordered(i); m[i] = m.back(); m.pop_back();
		} break;
		case 9: case 10: {
			c.label("erase");
			float x = n && r.chance(0.8) ? m[r.range(0, n - 1)] : nextval(r);
			v->erase(x);
			auto it = std::find(m.begin(), m.end(), x);
			if (it != m.end()) m.erase(it);
		} break;
		case 11: case 12: {
			c.label("erase_multiple_unordered");
			float x = n && r.chance(0.8) ? m[r.range(0, n - 1)] : nextval(r);
			int got = v->erase_multiple_unordered(x), want = 0;
			for (size_t i = 0; i < m.size();) {
				if (m[i] == x) { m[i] = m.back(); m.pop_back(); want++; } else i++;
			}
			c.check("count", got == want, strf("erased %d, expected %d", got, want));
		} break;
		case 13: { c.label("invert"); v->invert(); std::reverse(m.begin(), m.end()); } break;
		case 14: { c.label("resize.shrink"); int k = r.range(0, n); v->resize(k); m.resize(k); } break;
		case 15: {
			c.label("resize.grow");
			int k = n + r.range(0, 8);
			v->resize(k);
			c.check("size", v->size() == k);
			// the new elements are unspecified until written
			for (int i = n; i < k; i++) { float x = nextval(r); v->element_set(i, x); m.push_back(x); }
		} break;
		case 16: { c.label("fill"); float x = nextval(r); v->fill(x); std::fill(m.begin(), m.end(), x); } break;
		case 17: case 18: case 19: {
			c.label("insert");
			int i = r.chance(0.2) ? (r.chance(0.5) ? 0 : n) : r.range(0, n);
			float x = nextval(r);
			v->insert(i, x); m.insert(m.begin() + i, x);
		} break;
		case 20: { c.label("sort"); v->sort(); std::sort(m.begin(), m.end()); } break;
		case 21: case 22: {
			bool sorted = r.chance(0.6);
			c.label("ordered_insert");
			if (sorted) { v->sort(); std::sort(m.begin(), m.end()); }
			float x = n && r.chance(0.3) ? m[r.range(0, n - 1)] : nextval(r);
			v->ordered_insert(x);
			size_t i = 0;
			while (i < m.size() && !(x < m[i])) i++;
			m.insert(m.begin() + i, x);
		} break;
		case 23: if (n) { c.label("element_set"); int i = r.range(0, n - 1); float x = nextval(r);
			switch (r.range(0, 3)) { case 0: v->element_set(i, x); break; case 1: (*v.ptr())[i] = x; break; case 2: v->element_get_ref(i) = x; break; default: v->ptrw()[i] = x; }
			m[i] = x; } break;
		case 24: { c.label("set_from_mlpp_vector"); FV o = nextlist(r, 12); RV s = R(o); v->set_from_mlpp_vector(s); m = o; s->push_back(3); s->fill(7); } break;
		case 25: { c.label("set_from_mlpp_vectorr"); FV o = nextlist(r, 12); RV s = R(o); v->set_from_mlpp_vectorr(*s.ptr()); m = o; s->fill(7); } break;
		case 26: { c.label("set_from_vector"); FV o = nextlist(r, 12); v->set_from_vector(ev(o)); m = o; } break;
		case 27: { c.label("set_from_pool_vector"); FV o = nextlist(r, 12); v->set_from_pool_vector(pv(o)); m = o; } break;
		case 28: { c.label("set_data"); FV o = nextlist(r, 12); v->set_data(pv(o)); m = o; } break;
		case 29: { c.label("set_from_std_vector"); FV o = nextlist(r, 12); v->set_from_std_vector(o); m = o; } break;
		case 30: { c.label("set_from.self"); v->set_from_mlpp_vector(v); } break;
		case 31: {
			c.label("flatten_vectors");
			Vector<Ref<MLPPVector>> l; FV w;
			int k = r.range(0, 4);
			for (int i = 0; i < k; i++) { FV o = nextlist(r, 4); l.push_back(R(o)); w.insert(w.end(), o.begin(), o.end()); }
			RV f = v->flatten_vectorsn(l);
			samev(c, "new", f, D(w));
			samev(c, "source", v, D(m));
			v->flatten_vectors(l); m = w;
		} break;
		case 32: { c.label(r.chance(0.5) ? "clear" : "reset"); if (c.where == "clear") v->clear(); else v->reset(); m.clear(); } break;
		case 33: {
			c.label("construct");
			FV o = r.chance(0.5) ? m : nextlist(r, 10);
			RV nv;
			switch (r.range(0, 5)) {
				case 0: nv = RV(memnew(MLPPVector(ev(o)))); break;
				case 1: nv = RV(memnew(MLPPVector(pv(o)))); break;
				case 2: nv = RV(memnew(MLPPVector(o.data(), (int)o.size()))); break;
				case 3: nv = RV(memnew(MLPPVector(o))); break;
				case 4: nv = RV(memnew(MLPPVector(*v.ptr()))); o = m; break;
				default: nv = v->duplicate_fast(); o = m; break;
			}
			// the old object lives on as a copy that later edits must not touch
			copies.push_back({ v, m });
			v = nv; m = o;
		} break;
	}
	return c.where;
}

UNIT("C01", "vector.history", 16000, 400000) {
	Rng &r = c.rng;
	RV v = newv();
	FV m;
	std::vector<std::pair<RV, FV>> copies;
	int steps = r.range(5, 60);
	uint64_t h = 0;
	for (int s = 0; s < steps; s++) {
		long e0 = errors();
		std::string op = edit(c, v, m, copies);
		if (!c.check("no_error", errors() == e0, "a valid edit was refused")) return;
		c.count(("op." + op).c_str());
		h = hsh(hsh(h, hs(op)), D(m));
		c.obs(h, !m.empty());
		if (!samev(c, "content", v, D(m))) return;
		{ std::string l = c.where; c.label("read"); look(c, v, m); c.label(l); }
		if (dv(v) != D(m)) return; // the model is out of step: reported above
		if (r.chance(0.1)) copies.push_back({ v->duplicate_fast(), m });
		if (!copies.empty() && r.chance(0.3)) {
			auto &cp = copies[r.range(0, copies.size() - 1)];
			std::string l = c.where;
			c.label("old copy after " + l);
			samev(c, "copy", cp.first, D(cp.second));
			c.label(l);
		}
		if (copies.size() > 6) copies.erase(copies.begin());
	}
	c.label("end");
	for (auto &cp : copies) samev(c, "copy", cp.first, D(cp.second));
	c.sample(strf("%d edits, final ", steps) + str(D(m)));
}

// equality with explicit tolerances
UNIT("C01", "vector.equality", 4000, 100000) {
	Rng &r = c.rng;
	int n = r.range(1, 12);
	DV a = gv(r, n, K_STD);
	RV x = mkv(a);
	double tol = r.pick(std::vector<double>{ 1e-5, 1e-3, 0.1, 1 });
	int i = r.range(0, n - 1);
	c.label("tolerance");
	RV y = mkv(a);
	y->element_set(i, (float)(a[i] + tol * r.uni(0.1, 0.8) * (r.chance(0.5) ? 1 : -1)));
	bool near_ok = std::fabs((double)y->element_get(i) - a[i]) < 0.9 * tol;
	if (near_ok) c.check("within", x->is_equal_approx(y, tol), strf("difference below the tolerance %g judged unequal", tol));
	y->element_set(i, (float)(a[i] + tol * r.uni(1.5, 10) * (r.chance(0.5) ? 1 : -1)));
	c.check("beyond", !x->is_equal_approx(y, tol), strf("difference at %d of %d beyond the tolerance %g judged equal", i, n, tol));
	c.check("self", x->is_equal_approx(x, tol));
	c.obs(hsh(hsh(i, n), a));
	// growing a vector keeps what was there
	c.label("resize.keep");
	int k = n + r.range(1, 40);
	x->resize(k);
	bool ok = x->size() == k;
	for (int j = 0; ok && j < n; j++) ok = x->element_get(j) == (float)a[j];
	c.check("prefix", ok, "resize to a larger size lost elements");
	x->resize(n);
	samev(c, "shrink", x, a);
	c.label("create");
	int q = r.range(0, 20), kk = r.range(-5, 5);
	samev(c, "zero", MLPPVector::create_vec_zero(q), DV(q, 0));
	samev(c, "one", MLPPVector::create_vec_one(q), DV(q, 1));
	samev(c, "full", MLPPVector::create_vec_full(q, kk), DV(q, kk));
	samev(c, "vecn_zero", x->vecn_zero(q), DV(q, 0));
	samev(c, "vecn_one", x->vecn_one(q), DV(q, 1));
	samev(c, "vecn_full", x->vecn_full(q, kk), DV(q, kk));
}
