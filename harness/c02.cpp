// C02: edit histories of MLPPMatrix against a row-table model.
#include "vh.h"
#include <algorithm>

static double val(Rng &r) { return r.chance(0.4) ? (double)r.range(-3, 3) : (double)r.f(-10, 10); }
static DM rm(Rng &r, int a, int b) { DM m(a, b); for (auto &x : m.d) x = val(r); return m; }
static DV rv(Rng &r, int n) { DV v(n); for (auto &x : v) x = val(r); return v; }
static Vector<real_t> ev(const double *p, int n) { Vector<real_t> o; o.resize(n); for (int i = 0; i < n; i++) o.write[i] = p[i]; return o; }
static PoolRealArray pv(const double *p, int n) { PoolRealArray o; o.resize(n); PoolRealArray::Write w = o.write(); for (int i = 0; i < n; i++) w[i] = p[i]; return o; }
static DV row(const DM &m, int y) { return DV(m.d.begin() + (size_t)y * m.co, m.d.begin() + (size_t)(y + 1) * m.co); }
template <class A> static bool eqa(const A &a, const double *p, int n) { if ((int)a.size() != n) return false; for (int i = 0; i < n; i++) if (a[i] != (real_t)p[i]) return false; return true; }

static void look(Ctx &c, RM v, const DM &m) {
	if (!samem(c, "content", v, m)) return;
	Rng &r = c.rng;
	c.check("counts", v->empty() == m.d.empty() && v->data_size() == (int)m.d.size());
	switch (r.range(0, 8)) {
		case 0:
			for (int y = 0; y < m.r; y++) {
				const double *p = m.d.data() + (size_t)y * m.co;
				c.check("read.row_get_vector", eqa(v->row_get_vector(y), p, m.co));
				c.check("read.row_get_pool_vector", eqa(v->row_get_pool_vector(y), p, m.co));
				samev(c, "read.row_get_mlpp_vector", v->row_get_mlpp_vector(y), row(m, y));
				RV t = newv(r.range(0, 5));
				v->row_get_into_mlpp_vector(y, t);
				samev(c, "read.row_get_into", t, row(m, y));
			}
			break;
		case 1: {
			bool ok = true;
			const MLPPMatrix *cm = v.ptr();
			for (int y = 0; ok && y < m.r; y++)
				for (int x = 0; ok && x < m.co; x++) {
					int i = v->calculate_index(y, x);
					real_t w = m.at(y, x);
					ok = i == y * m.co + x && v->element_get(y, x) == w && v->element_get_index(i) == w && (*v.ptr())[i] == w && (*cm)[i] == w && cm->ptr()[i] == w;
				}
			c.check("read.element", ok);
		} break;
		case 2: {
			Array a = v->get_data();
			bool ok = a.size() == 2;
			if (ok) {
				Size2i s = a[0];
				PoolRealArray p = a[1];
				ok = s.x == m.co && s.y == m.r && eqa(p, m.d.data(), m.d.size());
			}
			c.check("read.get_data", ok);
		} break;
		case 3:
			if (!m.d.empty()) c.check("read.flat", eqa(v->to_flat_vector(), m.d.data(), m.d.size()) && eqa(v->to_flat_pool_vector(), m.d.data(), m.d.size()) && eqa(v->to_flat_std_vector(), m.d.data(), m.d.size()));
			break;
		case 4: {
			std::vector<std::vector<real_t>> s = v->to_std_vector();
			bool ok = (int)s.size() == m.r;
			for (int y = 0; ok && y < m.r; y++) ok = eqa(s[y], m.d.data() + (size_t)y * m.co, m.co);
			c.check("read.to_std_vector", ok);
		} break;
		case 5: {
			RM d = r.chance(0.5) ? v->duplicate_fast() : mkm(m);
			c.check("equal", v->is_equal_approx(d) && d->is_equal_approx(v));
			if (!m.d.empty()) {
				int i = r.range(0, m.d.size() - 1);
				d->element_set_index(i, (real_t)(m.d[i] + 1 + std::fabs(m.d[i])));
				c.check("unequal", !v->is_equal_approx(d) && !d->is_equal_approx(v), strf("difference at %d of %zu not seen", i, m.d.size()));
				samem(c, "copy.independent", v, m);
				if (m.r != m.co) {
					RM t = mkm(m);
					t->resize(Size2i(m.r, m.co));
					c.check("unequal.shape", !v->is_equal_approx(t), "same storage, different shape judged equal");
				}
			}
		} break;
		case 6:
			if (!m.d.empty()) samev(c, "read.flatten", v->flatten(), m.d);
			break;
		default: break;
	}
}

static void edit(Ctx &c, RM &v, DM &m, std::vector<std::pair<RM, DM>> &copies) {
	Rng &r = c.rng;
	int op = r.range(0, 31);
	auto addrow = [&](const DV &a) { if (m.co == 0) { m.co = a.size(); } m.d.insert(m.d.end(), a.begin(), a.end()); m.r++; };
	bool fresh = m.co == 0 && m.r == 0;
	int w = m.co ? m.co : r.range(1, 5);
	bool canadd = m.co > 0 || fresh;
	switch (op) {
		case 0: case 1: if (canadd) { c.label("row_add"); DV a = rv(r, w); v->row_add(ev(a.data(), w)); addrow(a); } break;
		case 2: case 3: if (canadd) { c.label("row_add_pool_vector"); DV a = rv(r, w); v->row_add_pool_vector(pv(a.data(), w)); addrow(a); } break;
		case 4: case 5: if (canadd) { c.label("row_add_mlpp_vector"); DV a = rv(r, w); RV s = mkv(a); v->row_add_mlpp_vector(s); s->fill(9); addrow(a); } break;
		case 6: if (canadd) { c.label("rows_add"); DM o = rm(r, r.range(0, 4), w); RM s = mkm(o); v->rows_add_mlpp_matrix(s); s->fill(9); for (int i = 0; i < o.r; i++) addrow(row(o, i)); } break;
		case 7: if (m.r && m.r < 12 && m.co) { c.label("rows_add.self"); v->rows_add_mlpp_matrix(v); DM o = m; for (int i = 0; i < o.r; i++) addrow(row(o, i)); } break;
		case 8: case 9: if (m.r && m.co) {
			c.label("row_remove");
			int y = r.range(0, m.r - 1);
			v->row_remove(y);
			m.d.erase(m.d.begin() + (size_t)y * m.co, m.d.begin() + (size_t)(y + 1) * m.co); m.r--;
		} break;
		case 10: case 11: if (m.r && m.co) {
			c.label("row_remove_unordered");
			int y = r.chance(0.3) ? m.r - 1 : r.range(0, m.r - 1);
			v->row_remove_unordered(y);
			DV l = row(m, m.r - 1);
			std::copy(l.begin(), l.end(), m.d.begin() + (size_t)y * m.co);
			m.d.resize(m.d.size() - m.co); m.r--;
		} break;
		case 12: case 13: if (m.r && m.co) {
			c.label("row_swap");
			int a = r.range(0, m.r - 1), b = r.range(0, m.r - 1);
			v->row_swap(a, b);
			for (int x = 0; x < m.co; x++) std::swap(m.at(a, x), m.at(b, x));
		} break;
		case 14: {
			c.label("resize.same_count_or_less");
			int ny = r.range(0, m.r), nx = r.range(0, m.co);
			if (r.chance(0.3)) { ny = m.co; nx = m.r; }
			v->resize(Size2i(nx, ny));
			m.d.resize((size_t)nx * ny); m.r = ny; m.co = nx;
		} break;
		case 15: {
			c.label("resize.grow");
			int ny = r.range(1, 7), nx = r.range(1, 7);
			size_t k = m.d.size();
			v->resize(Size2i(nx, ny));
			m.d.resize((size_t)nx * ny); m.r = ny; m.co = nx;
			if (!c.check("shape", v->size() == Size2i(nx, ny))) return;
			for (size_t i = k; i < m.d.size(); i++) { double x = val(r); v->element_set_index(i, x); m.d[i] = (real_t)x; }
		} break;
		case 16: { c.label("fill"); real_t x = val(r); v->fill(x); std::fill(m.d.begin(), m.d.end(), (double)x); } break;
		case 17: if (m.r && m.co) { c.label("row_set_vector"); int y = r.range(0, m.r - 1); DV a = rv(r, m.co); v->row_set_vector(y, ev(a.data(), m.co)); std::copy(a.begin(), a.end(), m.d.begin() + (size_t)y * m.co); } break;
		case 18: if (m.r && m.co) { c.label("row_set_pool_vector"); int y = r.range(0, m.r - 1); DV a = rv(r, m.co); v->row_set_pool_vector(y, pv(a.data(), m.co)); std::copy(a.begin(), a.end(), m.d.begin() + (size_t)y * m.co); } break;
		case 19: if (m.r && m.co) { c.label("row_set_mlpp_vector"); int y = r.range(0, m.r - 1); DV a = rv(r, m.co); v->row_set_mlpp_vector(y, mkv(a)); std::copy(a.begin(), a.end(), m.d.begin() + (size_t)y * m.co); } break;
		case 20: if (m.r && m.co) { c.label("set_row_std_vector"); int y = r.range(0, m.r - 1); DV a = rv(r, m.co); v->set_row_std_vector(y, std::vector<real_t>(a.begin(), a.end())); std::copy(a.begin(), a.end(), m.d.begin() + (size_t)y * m.co); } break;
		case 21: case 22: if (m.r && m.co) {
			c.label("element_set");
			int y = r.range(0, m.r - 1), x = r.range(0, m.co - 1);
			real_t q = val(r);
			switch (r.range(0, 3)) { case 0: v->element_set(y, x, q); break; case 1: v->element_set_index(y * m.co + x, q); break; case 2: (*v.ptr())[y * m.co + x] = q; break; default: v->ptrw()[v->calculate_index(y, x)] = q; }
			m.at(y, x) = q;
		} break;
		case 23: if (m.r && m.co) {
			c.label("diagonal_set");
			DV a = rv(r, r.range(1, 7));
			RM n = v->diagonal_setn(mkv(a));
			DM o = m;
			for (int i = 0; i < std::min(std::min(m.r, m.co), (int)a.size()); i++) o.at(i, i) = a[i];
			samem(c, "new", n, o); samem(c, "source", v, m);
			v->diagonal_set(mkv(a)); m = o;
		} break;
		case 24: if (m.r && m.co) {
			c.label("diagonal_zeroed");
			DV a = rv(r, r.range(1, 7));
			RM n = v->diagonal_zeroedn(mkv(a));
			DM o(m.r, m.co);
			for (int i = 0; i < std::min(std::min(m.r, m.co), (int)a.size()); i++) o.at(i, i) = a[i];
			samem(c, "new", n, o); samem(c, "source", v, m);
			v->diagonal_zeroed(mkv(a)); m = o;
		} break;
		case 25: if (m.r && m.co) {
			c.label("identity");
			RM n = v->identityn();
			DM o(m.r, m.co);
			for (int i = 0; i < std::min(m.r, m.co); i++) o.at(i, i) = 1;
			samem(c, "new", n, o); samem(c, "source", v, m);
			v->identity(); m = o;
			int d = r.range(1, 6);
			DM id(d, d);
			for (int i = 0; i < d; i++) id.at(i, i) = 1;
			samem(c, "identity_mat", v->identity_mat(d), id);
			samem(c, "create_identity_mat", MLPPMatrix::create_identity_mat(d), id);
		} break;
		case 26: { c.label("set_from_mlpp_matrix"); DM o = rm(r, r.range(1, 6), r.range(1, 6)); RM s = mkm(o); if (r.chance(0.5)) v->set_from_mlpp_matrix(s); else v->set_from_mlpp_matrixr(*s.ptr()); s->fill(4); m = o; } break;
		case 27: {
			DM o = rm(r, r.range(1, 5), r.range(1, 5));
			if (r.chance(0.5)) { c.label("set_from_mlpp_vectors"); Vector<Ref<MLPPVector>> l; for (int y = 0; y < o.r; y++) l.push_back(mkv(row(o, y))); v->set_from_mlpp_vectors(l); }
			else { c.label("set_from_mlpp_vectors_array"); Array l; for (int y = 0; y < o.r; y++) l.push_back(mkv(row(o, y)).get_ref_ptr()); v->set_from_mlpp_vectors_array(l); }
			m = o;
		} break;
		case 28: { c.label("set_from_vectors"); DM o = rm(r, r.range(1, 5), r.range(1, 5)); Vector<Vector<real_t>> l; for (int y = 0; y < o.r; y++) l.push_back(ev(&o.d[(size_t)y * o.co], o.co)); v->set_from_vectors(l); m = o; } break;
		case 29: { c.label("set_from_arrays"); DM o = rm(r, r.range(1, 5), r.range(1, 5)); Array l; for (int y = 0; y < o.r; y++) l.push_back(pv(&o.d[(size_t)y * o.co], o.co)); v->set_from_arrays(l); m = o; } break;
		case 30: {
			DM o = rm(r, r.range(1, 5), r.range(1, 5));
			std::vector<std::vector<real_t>> l;
			for (int y = 0; y < o.r; y++) { DV q = row(o, y); l.push_back(std::vector<real_t>(q.begin(), q.end())); }
			if (r.chance(0.3)) { c.label("set_from_std_vectors"); v->set_from_std_vectors(l); }
			else if (r.chance(0.5)) { c.label("set_data"); Array a; a.push_back(Size2i(o.co, o.r)); a.push_back(pv(o.d.data(), o.d.size())); v->set_data(a); }
			else { c.label("set_from_ptr"); std::vector<real_t> f(o.d.begin(), o.d.end()); v->set_from_ptr(f.data(), o.r, o.co); }
			m = o;
		} break;
		case 31: {
			if (r.chance(0.3) && m.d.size()) { c.label("clear_or_reset"); if (r.chance(0.5)) v->clear(); else v->reset(); m = DM(); break; }
			c.label("construct");
			DM o = rm(r, r.range(1, 5), r.range(1, 5));
			RM nv;
			std::vector<real_t> f(o.d.begin(), o.d.end());
			switch (r.range(0, 5)) {
				case 0: { Vector<Vector<real_t>> l; for (int y = 0; y < o.r; y++) l.push_back(ev(&o.d[(size_t)y * o.co], o.co)); nv = RM(memnew(MLPPMatrix(l))); } break;
				case 1: { Array l; for (int y = 0; y < o.r; y++) l.push_back(pv(&o.d[(size_t)y * o.co], o.co)); nv = RM(memnew(MLPPMatrix(l))); } break;
				case 2: nv = RM(memnew(MLPPMatrix(f.data(), o.r, o.co))); break;
				case 3: { std::vector<std::vector<real_t>> l; for (int y = 0; y < o.r; y++) { DV q = row(o, y); l.push_back(std::vector<real_t>(q.begin(), q.end())); } nv = RM(memnew(MLPPMatrix(l))); } break;
				case 4: nv = RM(memnew(MLPPMatrix(*v.ptr()))); o = m; break;
				default: nv = v->duplicate_fast(); o = m; break;
			}
			copies.push_back({ v, m });
			v = nv; m = o;
		} break;
	}
}

UNIT("C02", "matrix.history", 12000, 300000) {
	Rng &r = c.rng;
	RM v = newm();
	DM m;
	std::vector<std::pair<RM, DM>> copies;
	int steps = r.range(5, 50);
	uint64_t h = 0;
	for (int s = 0; s < steps; s++) {
		long e0 = errors();
		c.label("");
		edit(c, v, m, copies);
		if (c.where.empty()) continue;
		if (!c.check("no_error", errors() == e0, "a valid edit was refused")) return;
		c.count(("op." + c.where).c_str());
		h = hsh(hsh(hsh(h, hs(c.where)), m.d), m.co);
		c.obs(h, !m.d.empty());
		if (!samem(c, "content", v, m)) return;
		{ std::string l = c.where; c.label("read"); look(c, v, m); c.label(l); }
		DM g = dm(v);
		if (g.d != m.d || g.r != m.r || g.co != m.co) return;
		if (r.chance(0.1)) copies.push_back({ v->duplicate_fast(), m });
		if (!copies.empty() && r.chance(0.3)) {
			auto &cp = copies[r.range(0, copies.size() - 1)];
			std::string l = c.where;
			c.label("old copy after " + l);
			samem(c, "copy", cp.first, cp.second);
			c.label(l);
		}
		if (copies.size() > 6) copies.erase(copies.begin());
		if (m.r > 40) { v->clear(); m = DM(); }
	}
	c.label("end");
	for (auto &cp : copies) samem(c, "copy", cp.first, cp.second);
	c.sample(strf("%d edits, final ", steps) + str(m));
}

UNIT("C02", "matrix.equality", 1500, 40000) {
	Rng &r = c.rng;
	DM a = gm(r, r.range(1, 5), r.range(1, 5), K_STD);
	RM x = mkm(a), y = mkm(a);
	double tol = r.pick(std::vector<double>{ 1e-5, 1e-3, 0.1, 1 });
	int i = r.range(0, a.d.size() - 1);
	c.label("tolerance");
	y->element_set_index(i, (float)(a.d[i] + tol * r.uni(0.1, 0.8) * (r.chance(0.5) ? 1 : -1)));
	if (std::fabs((double)y->element_get_index(i) - a.d[i]) < 0.9 * tol) c.check("within", x->is_equal_approx(y, tol));
	y->element_set_index(i, (float)(a.d[i] + tol * r.uni(1.5, 10) * (r.chance(0.5) ? 1 : -1)));
	c.check("beyond", !x->is_equal_approx(y, tol), strf("element %d", i));
	c.check("self", x->is_equal_approx(x, tol));
	c.obs(hsh(hsh(i, a.co), a.d));
	c.label("create");
	int p = r.range(1, 6), q = r.range(1, 6), k = r.range(-4, 4);
	samem(c, "zero", x->matn_zero(p, q), DM(p, q, 0));
	samem(c, "one", x->matn_one(p, q), DM(p, q, 1));
	samem(c, "full", x->matn_full(p, q, k), DM(p, q, k));
}
