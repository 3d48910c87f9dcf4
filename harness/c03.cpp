// C03: edit histories of MLPPTensor3 against a (z,y,x) model.
#include "vh.h"
#include <algorithm>

static double val(Rng &r) { return r.chance(0.4) ? (double)r.range(-3, 3) : (double)r.f(-10, 10); }
static DT rt(Rng &r, int z, int y, int x) { DT t(z, y, x); for (auto &v : t.d) v = val(r); return t; }
static DM rm(Rng &r, int a, int b) { DM m(a, b); for (auto &v : m.d) v = val(r); return m; }
static DV rv(Rng &r, int n) { DV v(n); for (auto &x : v) x = val(r); return v; }
static Vector<real_t> ev(const double *p, int n) { Vector<real_t> o; o.resize(n); for (int i = 0; i < n; i++) o.write[i] = p[i]; return o; }
static PoolRealArray pv(const double *p, int n) { PoolRealArray o; o.resize(n); PoolRealArray::Write w = o.write(); for (int i = 0; i < n; i++) w[i] = p[i]; return o; }
template <class A> static bool eqa(const A &a, const double *p, int n) { if ((int)a.size() != n) return false; for (int i = 0; i < n; i++) if (a[i] != (real_t)p[i]) return false; return true; }
static DM zs(const DT &t, int z) { DM m(t.r, t.co); std::copy(t.d.begin() + (size_t)z * t.r * t.co, t.d.begin() + (size_t)(z + 1) * t.r * t.co, m.d.begin()); return m; }
static DM xs(const DT &t, int x) { DM m(t.z, t.r); for (int z = 0; z < t.z; z++) for (int y = 0; y < t.r; y++) m.at(z, y) = t.at(z, y, x); return m; }
static DM ys(const DT &t, int y) { DM m(t.z, t.co); for (int z = 0; z < t.z; z++) for (int x = 0; x < t.co; x++) m.at(z, x) = t.at(z, y, x); return m; }
typedef std::vector<std::vector<std::vector<real_t>>> S3;
static S3 s3(const DT &t) { S3 s(t.z); for (int z = 0; z < t.z; z++) { s[z].resize(t.r); for (int y = 0; y < t.r; y++) for (int x = 0; x < t.co; x++) s[z][y].push_back(t.at(z, y, x)); } return s; }

static void look(Ctx &c, RT v, const DT &t) {
	if (!samet(c, "content", v, t)) return;
	if (t.d.empty()) return;
	Rng &r = c.rng;
	int n = t.r * t.co;
	c.check("counts", v->data_size() == (int)t.d.size() && v->z_slice_data_size() == n && v->z_slice_size() == Size2i(t.co, t.r) && !v->empty());
	switch (r.range(0, 9)) {
		case 0: for (int z = 0; z < t.z; z++) for (int y = 0; y < t.r; y++) {
			const double *p = &t.d[((size_t)z * t.r + y) * t.co];
			DV row(p, p + t.co);
			c.check("read.row_get_vector", eqa(v->row_get_vector(z, y), p, t.co), strf("slice %d row %d", z, y));
			c.check("read.row_get_pool_vector", eqa(v->row_get_pool_vector(z, y), p, t.co), strf("slice %d row %d", z, y));
			samev(c, "read.row_get_mlpp_vector", v->row_get_mlpp_vector(z, y), row);
			RV q = newv(r.range(0, 5));
			v->row_get_into_mlpp_vector(z, y, q);
			samev(c, "read.row_get_into", q, row);
		} break;
		case 1: for (int z = 0; z < t.z; z++) {
			DM m = zs(t, z);
			c.check("read.z_slice_get_vector", eqa(v->z_slice_get_vector(z), m.d.data(), n));
			c.check("read.z_slice_get_pool_vector", eqa(v->z_slice_get_pool_vector(z), m.d.data(), n));
			samev(c, "read.z_slice_get_mlpp_vector", v->z_slice_get_mlpp_vector(z), m.d);
			samem(c, "read.z_slice_get_mlpp_matrix", v->z_slice_get_mlpp_matrix(z), m);
			RV q = newv(r.range(0, 5)); v->z_slice_get_into_mlpp_vector(z, q); samev(c, "read.z_slice_into_vector", q, m.d);
			RM w = newm(r.range(1, 4), r.range(1, 4)); v->z_slice_get_into_mlpp_matrix(z, w); samem(c, "read.z_slice_into_matrix", w, m);
		} break;
		case 2: for (int x = 0; x < t.co; x++) {
			samem(c, "read.x_slice_get", v->x_slice_get(x), xs(t, x));
			RM w = newm(r.range(1, 4), r.range(1, 4)); v->x_slice_get_into(x, w); samem(c, "read.x_slice_into", w, xs(t, x));
		} break;
		case 3: for (int y = 0; y < t.r; y++) {
			samem(c, "read.y_slice_get", v->y_slice_get(y), ys(t, y));
			RM w = newm(r.range(1, 4), r.range(1, 4)); v->y_slice_get_into(y, w); samem(c, "read.y_slice_into", w, ys(t, y));
		} break;
		case 4: {
			bool ok = true;
			const MLPPTensor3 *cv = v.ptr();
			for (int z = 0; ok && z < t.z; z++) for (int y = 0; ok && y < t.r; y++) for (int x = 0; ok && x < t.co; x++) {
				int i = v->calculate_index(z, y, x);
				real_t w = t.at(z, y, x);
				ok = i == (z * t.r + y) * t.co + x && v->element_get(z, y, x) == w && v->element_get_index(i) == w && (*v.ptr())[i] == w && (*cv)[i] == w && v->calculate_z_slice_index(z) == z * n;
			}
			c.check("read.element", ok);
		} break;
		case 5: {
			Array a = v->get_data();
			bool ok = a.size() == 2;
			if (ok) { Size3i s = a[0]; PoolRealArray p = a[1]; ok = s == Size3i(t.co, t.r, t.z) && eqa(p, t.d.data(), t.d.size()); }
			c.check("read.get_data", ok);
		} break;
		case 6: c.check("read.flat", eqa(v->to_flat_vector(), t.d.data(), t.d.size()) && eqa(v->to_flat_pool_vector(), t.d.data(), t.d.size()) && eqa(v->to_flat_std_vector(), t.d.data(), t.d.size()));
			samev(c, "read.flatten", v->flatten(), t.d);
			c.check("read.to_std_vector", v->to_std_vector() == s3(t));
			break;
		case 7: {
			RT d = r.chance(0.5) ? v->duplicate_fast() : mkt(t);
			c.check("equal", v->is_equal_approx(d) && d->is_equal_approx(v));
			int i = r.range(0, t.d.size() - 1);
			d->element_set_index(i, (real_t)(t.d[i] + 1 + std::fabs(t.d[i])));
			c.check("unequal", !v->is_equal_approx(d) && !d->is_equal_approx(v), strf("difference at %d of %zu not seen", i, t.d.size()));
			samet(c, "copy.independent", v, t);
			if (t.z != t.r) { RT q = mkt(t); q->shape_set(Size3i(t.co, t.z, t.r)); c.check("unequal.shape", !v->is_equal_approx(q)); }
		} break;
		default: break;
	}
}

static void edit(Ctx &c, RT &v, DT &t, std::vector<std::pair<RT, DT>> &copies) {
	Rng &r = c.rng;
	bool has = !t.d.empty();
	int n = t.r * t.co;
	auto addz = [&](const DV &a) { t.d.insert(t.d.end(), a.begin(), a.end()); t.z++; };
	auto setz = [&](int z, const DV &a) { std::copy(a.begin(), a.end(), t.d.begin() + (size_t)z * n); };
	DV a = rv(r, n);
	DM am(t.r, t.co); am.d = a;
	int z = has ? r.range(0, t.z - 1) : 0;
	switch (r.range(0, 25)) {
		case 0: if (n) { c.label("z_slice_add"); v->z_slice_add(ev(a.data(), n)); addz(a); } break;
		case 1: if (n) { c.label("z_slice_add_pool_vector"); v->z_slice_add_pool_vector(pv(a.data(), n)); addz(a); } break;
		case 2: if (n) { c.label("z_slice_add_mlpp_vector"); v->z_slice_add_mlpp_vector(mkv(a)); addz(a); } break;
		case 3: if (n) { c.label("z_slice_add_mlpp_matrix"); RM s = mkm(am); v->z_slice_add_mlpp_matrix(s); s->fill(8); addz(a); } break;
		case 4: case 5: if (has) { c.label("z_slice_remove"); v->z_slice_remove(z); t.d.erase(t.d.begin() + (size_t)z * n, t.d.begin() + (size_t)(z + 1) * n); t.z--; } break;
		case 6: case 7: if (has) {
			c.label("z_slice_remove_unordered");
			v->z_slice_remove_unordered(z);
			DM l = zs(t, t.z - 1);
			std::copy(l.d.begin(), l.d.end(), t.d.begin() + (size_t)z * n);
			t.d.resize(t.d.size() - n); t.z--;
		} break;
		case 8: if (has) { c.label("z_slice_swap"); int b = r.range(0, t.z - 1); v->z_slice_swap(z, b); DM p = zs(t, z), q = zs(t, b); setz(z, q.d); setz(b, p.d); } break;
		case 9: { c.label("resize.shrink"); int nz = r.range(0, t.z), ny = r.range(0, t.r), nx = r.range(0, t.co); v->resize(Size3i(nx, ny, nz)); t.z = nz; t.r = ny; t.co = nx; t.d.resize((size_t)nx * ny * nz); } break;
		case 10: case 11: {
			c.label("resize.grow");
			int nz = r.range(1, 4), ny = r.range(1, 5), nx = r.range(1, 5);
			size_t k = t.d.size();
			v->resize(Size3i(nx, ny, nz));
			t.z = nz; t.r = ny; t.co = nx; t.d.resize((size_t)nx * ny * nz);
			if (!c.check("shape", v->size() == Size3i(nx, ny, nz))) return;
			for (size_t i = k; i < t.d.size(); i++) { real_t x = val(r); v->element_set_index(i, x); t.d[i] = x; }
		} break;
		case 12: if (has) {
			c.label("shape_set");
			int s[3] = { t.z, t.r, t.co };
			for (int i = 2; i > 0; i--) std::swap(s[i], s[r.range(0, i)]);
			v->shape_set(Size3i(s[2], s[1], s[0])); t.z = s[0]; t.r = s[1]; t.co = s[2];
		} break;
		case 13: { c.label("fill"); real_t x = val(r); v->fill(x); std::fill(t.d.begin(), t.d.end(), (double)x); } break;
		case 14: if (has) {
			c.label("row_set");
			int y = r.range(0, t.r - 1);
			DV q = rv(r, t.co);
			switch (r.range(0, 2)) { case 0: v->row_set_vector(z, y, ev(q.data(), t.co)); break; case 1: v->row_set_pool_vector(z, y, pv(q.data(), t.co)); break; default: v->row_set_mlpp_vector(z, y, mkv(q)); }
			std::copy(q.begin(), q.end(), t.d.begin() + ((size_t)z * t.r + y) * t.co);
		} break;
		case 15: case 16: if (has) {
			c.label("z_slice_set");
			switch (r.range(0, 3)) { case 0: v->z_slice_set_vector(z, ev(a.data(), n)); break; case 1: v->z_slice_set_pool_vector(z, pv(a.data(), n)); break; case 2: v->z_slice_set_mlpp_vector(z, mkv(a)); break; default: v->z_slice_set_mlpp_matrix(z, mkm(am)); }
			setz(z, a);
		} break;
		case 17: if (has) { c.label("x_slice_set"); int x = r.range(0, t.co - 1); DM m = rm(r, t.z, t.r); v->x_slice_set(x, mkm(m)); for (int k = 0; k < t.z; k++) for (int y = 0; y < t.r; y++) t.at(k, y, x) = m.at(k, y); } break;
		case 18: if (has) { c.label("y_slice_set"); int y = r.range(0, t.r - 1); DM m = rm(r, t.z, t.co); v->y_slice_set(y, mkm(m)); for (int k = 0; k < t.z; k++) for (int x = 0; x < t.co; x++) t.at(k, y, x) = m.at(k, x); } break;
		case 19: if (has) {
			c.label("element_set");
			int y = r.range(0, t.r - 1), x = r.range(0, t.co - 1);
			real_t q = val(r);
			int i = (z * t.r + y) * t.co + x;
			switch (r.range(0, 3)) { case 0: v->element_set(z, y, x, q); break; case 1: v->element_set_index(i, q); break; case 2: (*v.ptr())[i] = q; break; default: v->ptrw()[i] = q; }
			t.d[i] = q;
		} break;
		case 20: { c.label("set_from_tensor"); DT o = rt(r, r.range(1, 4), r.range(1, 4), r.range(1, 4)); RT s = mkt(o); if (r.chance(0.5)) v->set_from_mlpp_tensor3(s); else v->set_from_mlpp_tensor3r(*s.ptr()); s->fill(5); t = o; } break;
		case 21: {
			DM o = rm(r, r.range(1, 4), r.range(1, 4));
			t = DT(1, o.r, o.co); t.d = o.d;
			switch (r.range(0, 3)) {
				case 0: c.label("set_from_matrix"); v->set_from_mlpp_matrix(mkm(o)); break;
				case 1: c.label("set_from_matrixr"); v->set_from_mlpp_matrixr(*mkm(o).ptr()); break;
				case 2: { c.label("set_from_vectors"); Vector<Ref<MLPPVector>> l; for (int y = 0; y < o.r; y++) l.push_back(mkv(DV(o.d.begin() + y * o.co, o.d.begin() + (y + 1) * o.co))); v->set_from_mlpp_vectors(l); } break;
				default: { c.label("set_from_vectors_array"); Array l; for (int y = 0; y < o.r; y++) l.push_back(mkv(DV(o.d.begin() + y * o.co, o.d.begin() + (y + 1) * o.co)).get_ref_ptr()); v->set_from_mlpp_vectors_array(l); } break;
			}
		} break;
		case 22: {
			DT o = rt(r, r.range(1, 4), r.range(1, 4), r.range(1, 4));
			if (r.chance(0.5)) { c.label("set_from_matrices"); Vector<Ref<MLPPMatrix>> l; for (int k = 0; k < o.z; k++) l.push_back(mkm(zs(o, k))); v->set_from_mlpp_matricess(l); }
			else { c.label("set_from_matrices_array"); Array l; for (int k = 0; k < o.z; k++) l.push_back(mkm(zs(o, k)).get_ref_ptr()); v->set_from_mlpp_matrices_array(l); }
			t = o;
		} break;
		case 23: {
			DT o = rt(r, r.range(1, 4), r.range(1, 4), r.range(1, 4));
			if (r.chance(0.5)) { c.label("set_from_std_vectors"); v->set_from_std_vectors(s3(o)); }
			else { c.label("set_data"); Array q; q.push_back(Size3i(o.co, o.r, o.z)); q.push_back(pv(o.d.data(), o.d.size())); v->set_data(q); }
			t = o;
		} break;
		case 24: if (has && r.chance(0.3)) { c.label("clear_or_reset"); if (r.chance(0.5)) v->clear(); else v->reset(); t = DT(); c.check("is_empty", v->empty()); } break;
		case 25: {
			c.label("construct");
			DT o = rt(r, r.range(1, 4), r.range(1, 4), r.range(1, 4));
			RT nv;
			switch (r.range(0, 3)) {
				case 0: { Array l; for (int k = 0; k < o.z; k++) l.push_back(mkm(zs(o, k)).get_ref_ptr()); nv = RT(memnew(MLPPTensor3(l))); } break;
				case 1: nv = RT(memnew(MLPPTensor3(s3(o)))); break;
				case 2: { DM m = zs(o, 0); nv = RT(memnew(MLPPTensor3(*mkm(m).ptr()))); o = DT(1, m.r, m.co); o.d = m.d; } break;
				default: nv = v->duplicate_fast(); o = t; break;
			}
			copies.push_back({ v, t });
			v = nv; t = o;
		} break;
	}
}

UNIT("C03", "tensor.history", 10000, 250000) {
	Rng &r = c.rng;
	DT t = rt(r, r.range(1, 4), r.range(1, 4), r.range(1, 4));
	RT v = mkt(t);
	std::vector<std::pair<RT, DT>> copies;
	int steps = r.range(5, 40);
	uint64_t h = 0;
	for (int s = 0; s < steps; s++) {
		long e0 = errors();
		c.label("");
		edit(c, v, t, copies);
		if (c.where.empty()) continue;
		if (!c.check("no_error", errors() == e0, "a valid edit was refused")) return;
		c.count(("op." + c.where).c_str());
		h = hsh(hsh(hsh(h, hs(c.where)), t.d), t.co * 100 + t.r);
		c.obs(h, !t.d.empty());
		if (!samet(c, "content", v, t)) return;
		{ std::string l = c.where; c.label("read"); look(c, v, t); c.label(l); }
		DT g = dt(v);
		if (g.d != t.d || g.r != t.r || g.co != t.co || g.z != t.z) return;
		if (r.chance(0.1)) copies.push_back({ v->duplicate_fast(), t });
		if (!copies.empty() && r.chance(0.3)) {
			auto &cp = copies[r.range(0, copies.size() - 1)];
			std::string l = c.where;
			c.label("old copy after " + l);
			samet(c, "copy", cp.first, cp.second);
			c.label(l);
		}
		if (copies.size() > 6) copies.erase(copies.begin());
		if (t.z > 12) { v->clear(); t = DT(); }
	}
	c.label("end");
	for (auto &cp : copies) samet(c, "copy", cp.first, cp.second);
	c.sample(strf("%d edits, final %dx%dx%d ", steps, t.z, t.r, t.co) + str(t.d));
}
