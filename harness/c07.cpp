// C07: conversions round-trip bit for bit; images round-trip at 8-bit precision.
#include "vh.h"
#ifdef USING_SFW
#include "image.h"
#endif
#include <algorithm>
#include <cstring>

static uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
typedef std::vector<float> FV;
static FV raw(Rng &r, int n) {
	FV v(n);
	for (float &x : v) {
		int k = r.range(0, 19);
		if (k == 0) x = -0.0f; else if (k == 1) x = INFINITY; else if (k == 2) x = -INFINITY; else if (k == 3) x = 1e-42f; else if (k == 4) x = 3.4e38f; else if (k == 5) x = (float)NAN;
		else x = (float)gval(r, K_STD);
	}
	return v;
}
template <class F> static bool same(Ctx &c, const char *kind, int n, const FV &want, F get) {
	if (n != (int)want.size()) { c.fail(kind, strf("%d elements, expected %d", n, (int)want.size())); return false; }
	for (int i = 0; i < n; i++) {
		float g = get(i);
		if (bits(g) != bits(want[i])) { c.fail(kind, strf("element %d is %g (%08x), expected %g (%08x)", i, g, bits(g), want[i], bits(want[i]))); return false; }
	}
	return true;
}
static RV vec(const FV &f) { RV v = newv((int)f.size()); for (size_t i = 0; i < f.size(); i++) v->element_set((int)i, f[i]); return v; }
static uint64_t fh(const FV &f) { uint64_t h = f.size(); for (float x : f) h = hsh(h, bits(x)); return h; }
static void eqv(Ctx &c, const char *k, const RV &v, const FV &w) {
	if (!v.is_valid()) { c.fail(k, "no vector"); return; }
	same(c, k, v->size(), w, [&](int i) { return v->element_get(i); });
}
static void eqm(Ctx &c, const char *k, const RM &m, int r, int co, const FV &w) {
	if (!m.is_valid() || m->size() != Size2i(co, r)) { if (m.is_valid() && w.empty() && m->data_size() == 0) return; c.fail(k, m.is_valid() ? strf("shape %dx%d, expected %dx%d", m->size().y, m->size().x, r, co) : "no matrix"); return; }
	same(c, k, r * co, w, [&](int i) { return m->element_get(i / co, i % co); });
}
static void eqt(Ctx &c, const char *k, const RT &t, int z, int r, int co, const FV &w) {
	if (!t.is_valid() || t->size() != Size3i(co, r, z)) { if (t.is_valid() && w.empty() && t->data_size() == 0) return; c.fail(k, t.is_valid() ? strf("shape z%d y%d x%d, expected z%d y%d x%d", t->size().z, t->size().y, t->size().x, z, r, co) : "no tensor"); return; }
	same(c, k, (int)w.size(), w, [&](int i) { return t->element_get(i / (r * co), i / co % r, i % co); });
}
static FV frombytes(const Vector<uint8_t> &b) { FV f(b.size() / 4); if (b.size()) memcpy(f.data(), b.ptr(), f.size() * 4); return f; }
#define ENDC(nm, h) do { c.check("no_error", errors() == e0, "a valid conversion was refused"); c.count(nm); c.obs(hsh(hs(nm), h)); } while (0)

UNIT("C07", "vector.convert", 1500, 30000) {
	Rng &r = c.rng;
	FV f = raw(r, r.chance(0.1) ? 0 : r.range(1, 20));
	long e0 = errors();
	c.label("vector.convert");
	RV v = vec(f);
	RV t = vec(raw(r, r.range(0, 5)));
	Vector<real_t> ev = v->to_vector();
	same(c, "to_vector", ev.size(), f, [&](int i) { return ev[i]; });
	t->set_from_vector(ev); eqv(c, "set_from_vector", t, f);
	PoolRealArray pv = v->to_pool_vector();
	same(c, "to_pool_vector", pv.size(), f, [&](int i) { return pv[i]; });
	t->fill(1); t->set_from_pool_vector(pv); eqv(c, "set_from_pool_vector", t, f);
	PoolRealArray gd = v->get_data();
	same(c, "get_data", gd.size(), f, [&](int i) { return gd[i]; });
	t = vec(raw(r, r.range(0, 5))); t->set_data(gd); eqv(c, "set_data", t, f);
	FV fb = frombytes(v->to_byte_array());
	same(c, "to_byte_array", (int)fb.size(), f, [&](int i) { return fb[i]; });
	std::vector<real_t> sv = v->to_std_vector();
	same(c, "to_std_vector", (int)sv.size(), f, [&](int i) { return sv[i]; });
	t = vec(raw(r, r.range(0, 5))); t->set_from_std_vector(sv); eqv(c, "set_from_std_vector", t, f);
	RV k1 = RV(memnew(MLPPVector(ev))), k2 = RV(memnew(MLPPVector(pv))), k3 = RV(memnew(MLPPVector(sv))), k4 = RV(memnew(MLPPVector(*v.ptr())));
	eqv(c, "construct.vector", k1, f); eqv(c, "construct.pool", k2, f); eqv(c, "construct.std", k3, f); eqv(c, "construct.copy", k4, f);
	if (!f.empty()) { RV k5 = RV(memnew(MLPPVector(v->ptr(), v->size()))); eqv(c, "construct.buffer", k5, f); }
	t = vec(raw(r, r.range(0, 5))); t->set_from_mlpp_vectorr(*v.ptr()); eqv(c, "set_from_reference", t, f);
	eqv(c, "source_unchanged", v, f);
	const real_t *p = v->ptr();
	same(c, "ptr", v->size(), f, [&](int i) { return p[i]; });
	// independence of the converted copies
	if (!f.empty()) { v->element_set(0, 123); same(c, "copy.vector", ev.size(), f, [&](int i) { return ev[i]; }); same(c, "copy.pool", pv.size(), f, [&](int i) { return pv[i]; }); eqv(c, "copy.construct", k4, f); }
	ENDC("vector", fh(f));
}

UNIT("C07", "matrix.convert", 1200, 24000) {
	Rng &r = c.rng;
	bool em = r.chance(0.05);
	int n = em ? 0 : r.range(1, 6), m = em ? 0 : r.range(1, 6);
	FV f = raw(r, n * m);
	long e0 = errors();
	c.label("matrix.convert");
	RM a = newm(n, m);
	for (int i = 0; i < n * m; i++) a->element_set_index(i, f[i]);
	auto other = [&]() { RM t = newm(r.range(0, 3), r.range(1, 3)); t->fill(5); return t; };
	auto row = [&](int y) { return FV(f.begin() + y * m, f.begin() + (y + 1) * m); };
	Vector<real_t> fl = a->to_flat_vector(); same(c, "to_flat_vector", fl.size(), f, [&](int i) { return fl[i]; });
	PoolRealArray fp = a->to_flat_pool_vector(); same(c, "to_flat_pool_vector", fp.size(), f, [&](int i) { return fp[i]; });
	FV fb = frombytes(a->to_flat_byte_array()); same(c, "to_flat_byte_array", (int)fb.size(), f, [&](int i) { return fb[i]; });
	std::vector<real_t> fs = a->to_flat_std_vector(); same(c, "to_flat_std_vector", (int)fs.size(), f, [&](int i) { return fs[i]; });
	RM t = other();
	Array gd = a->get_data(); t->set_data(gd); eqm(c, "get_set_data", t, n, m, f);
	std::vector<std::vector<real_t>> ss = a->to_std_vector();
	if (c.check("to_std_vector.rows", (int)ss.size() == n)) for (int y = 0; y < n; y++) { FV w = row(y); same(c, "to_std_vector", (int)ss[y].size(), w, [&](int i) { return ss[y][i]; }); }
	t = other(); t->set_from_std_vectors(ss); eqm(c, "set_from_std_vectors", t, n, m, f);
	RM k = RM(memnew(MLPPMatrix(ss))); eqm(c, "construct.std", k, n, m, f);
	Vector<Vector<real_t>> vv; Vector<Ref<MLPPVector>> vr; Array ar, av;
	for (int y = 0; y < n; y++) { Vector<real_t> x = a->row_get_vector(y); vv.push_back(x); vr.push_back(a->row_get_mlpp_vector(y)); ar.push_back(a->row_get_pool_vector(y)); av.push_back(a->row_get_mlpp_vector(y).get_ref_ptr()); }
	t = other(); t->set_from_vectors(vv); eqm(c, "set_from_vectors", t, n, m, f);
	t = other(); t->set_from_mlpp_vectors(vr); eqm(c, "set_from_mlpp_vectors", t, n, m, f);
	t = other(); t->set_from_arrays(ar); eqm(c, "set_from_arrays", t, n, m, f);
	t = other(); t->set_from_mlpp_vectors_array(av); eqm(c, "set_from_mlpp_vectors_array", t, n, m, f);
	k = RM(memnew(MLPPMatrix(vv))); eqm(c, "construct.vectors", k, n, m, f);
	k = RM(memnew(MLPPMatrix(ar))); eqm(c, "construct.arrays", k, n, m, f);
	k = RM(memnew(MLPPMatrix(*a.ptr()))); eqm(c, "construct.copy", k, n, m, f);
	if (n * m) {
		k = RM(memnew(MLPPMatrix(a->ptr(), n, m))); eqm(c, "construct.buffer", k, n, m, f);
		t = other(); t->set_from_ptr(a->ptr(), n, m); eqm(c, "set_from_ptr", t, n, m, f);
		t = other(); RM z = newm(0, m); for (int y = 0; y < n; y++) { FV w = row(y); z->row_add(vv[y]); }
		eqm(c, "row_add", z, n, m, f);
	}
	RV flv = a->flatten(); eqv(c, "flatten", flv, f);
	eqm(c, "source_unchanged", a, n, m, f);
	ENDC("matrix", hsh(n * 8 + m, fh(f)));
}

UNIT("C07", "tensor.convert", 1000, 20000) {
	Rng &r = c.rng;
	bool em = r.chance(0.05);
	int z = em ? 0 : r.range(1, 4), n = em ? 0 : r.range(1, 4), m = em ? 0 : r.range(1, 4);
	FV f = raw(r, z * n * m);
	long e0 = errors();
	c.label("tensor.convert");
	RT a = newt(z, n, m);
	for (size_t i = 0; i < f.size(); i++) a->element_set_index((int)i, f[i]);
	auto other = [&]() { RT t = newt(r.range(0, 2), r.range(1, 3), r.range(1, 3)); t->fill(5); return t; };
	Vector<real_t> fl = a->to_flat_vector(); same(c, "to_flat_vector", fl.size(), f, [&](int i) { return fl[i]; });
	PoolRealArray fp = a->to_flat_pool_vector(); same(c, "to_flat_pool_vector", fp.size(), f, [&](int i) { return fp[i]; });
	FV fb = frombytes(a->to_flat_byte_array()); same(c, "to_flat_byte_array", (int)fb.size(), f, [&](int i) { return fb[i]; });
	std::vector<real_t> fs = a->to_flat_std_vector(); same(c, "to_flat_std_vector", (int)fs.size(), f, [&](int i) { return fs[i]; });
	RT t = other();
	t->set_data(a->get_data()); eqt(c, "get_set_data", t, z, n, m, f);
	auto ss = a->to_std_vector();
	bool ok = (int)ss.size() == z;
	FV g; for (auto &p : ss) { ok = ok && (int)p.size() == n; for (auto &q : p) { ok = ok && (int)q.size() == m; g.insert(g.end(), q.begin(), q.end()); } }
	c.check("to_std_vector.shape", ok); same(c, "to_std_vector", (int)g.size(), f, [&](int i) { return g[i]; });
	t = other(); t->set_from_std_vectors(ss); eqt(c, "set_from_std_vectors", t, z, n, m, f);
	RT k = RT(memnew(MLPPTensor3(ss))); eqt(c, "construct.std", k, z, n, m, f);
	Vector<Ref<MLPPMatrix>> vm; Array am; RT acc = newt(0, n, m);
	for (int i = 0; i < z; i++) { RM s = a->z_slice_get_mlpp_matrix(i); vm.push_back(s); am.push_back(s.get_ref_ptr()); acc->z_slice_add_mlpp_matrix(s); }
	t = other(); t->set_from_mlpp_matricess(vm); eqt(c, "set_from_matrices", t, z, n, m, f);
	t = other(); t->set_from_mlpp_matrices_array(am); eqt(c, "set_from_matrices_array", t, z, n, m, f);
	k = RT(memnew(MLPPTensor3(am))); eqt(c, "construct.array", k, z, n, m, f);
	k = a->duplicate_fast(); eqt(c, "duplicate", k, z, n, m, f);
	if (!f.empty()) {
		eqt(c, "slice_add", acc, z, n, m, f);
		RM s = a->z_slice_get_mlpp_matrix(0); FV s0(f.begin(), f.begin() + n * m);
		t = other(); t->set_from_mlpp_matrix(s); eqt(c, "set_from_matrix", t, 1, n, m, s0);
		k = RT(memnew(MLPPTensor3(*s.ptr()))); eqt(c, "construct.matrix", k, 1, n, m, s0);
		Vector<Ref<MLPPVector>> vr; Array av;
		for (int y = 0; y < n; y++) { RV v = a->row_get_mlpp_vector(0, y); vr.push_back(v); av.push_back(v.get_ref_ptr()); }
		t = other(); t->set_from_mlpp_vectors(vr); eqt(c, "set_from_vectors", t, 1, n, m, s0);
		t = other(); t->set_from_mlpp_vectors_array(av); eqt(c, "set_from_vectors_array", t, 1, n, m, s0);
	}
	RV flv = a->flatten(); eqv(c, "flatten", flv, f);
	eqt(c, "source_unchanged", a, z, n, m, f);
	ENDC("tensor", hsh(z * 64 + n * 8 + m, fh(f)));
}

// ---- images ----
static const double STEP = 1.0 / 255 + 1e-5;
static double unit8(Rng &r) { int k = r.range(0, 9); return k == 0 ? 0 : k == 1 ? 1 : k < 5 ? (float)(r.range(0, 255) / 255.0) : r.f(0, 1); }
static void near(Ctx &c, const char *kind, double got, double want, int x, int y) {
	if (!(std::fabs(got - want) <= STEP)) c.fail(kind, strf("pixel (%d,%d) is %g, value was %g", x, y, got, want));
}
static bool dims(Ctx &c, const char *kind, const Ref<Image> &i, int w, int h) {
	if (!i.is_valid()) { c.fail(kind, "no image"); return false; }
	if (i->get_width() == w && i->get_height() == h) return true;
	c.fail(kind, strf("image is %dx%d, expected %dx%d", i->get_width(), i->get_height(), w, h));
	return false;
}
static Ref<Image> img(int w, int h, Image::Format f = Image::FORMAT_RGBA8) { Ref<Image> i; i.instance(); i->create(w, h, false, f); return i; }
// a target for an export: of the right size or another one, with mipmaps or without, or without contents
static Ref<Image> target(Rng &r, int w, int h) {
	Ref<Image> i;
	if (r.chance(0.15)) { i.instance(); return i; }
	i = r.chance(0.5) ? img(w, h) : img(r.range(1, 6), r.range(1, 6));
	if (r.chance(0.3)) i->generate_mipmaps();
	return i;
}
static Color px(Ref<Image> i, int x, int y) { i->lock(); Color k = i->get_pixel(x, y); i->unlock(); return k; }

UNIT("C07", "matrix.image", 600, 9000) {
	Rng &r = c.rng;
	int n = r.range(1, 7), m = r.range(1, 7);
	DM d(n, m); for (double &x : d.d) x = unit8(r);
	long e0 = errors();
	c.label("matrix.image");
	RM a = mkm(d);
	Ref<Image> i1 = a->get_as_image();
	Ref<Image> i2 = r.chance(0.5) ? img(r.range(1, 5), r.range(1, 5)) : Ref<Image>(memnew(Image));
	a->get_into_image(i2);
	Ref<Image> is[2] = { i1, i2 };
	for (int k = 0; k < 2; k++) if (dims(c, "export.size", is[k], m, n)) {
		for (int y = 0; y < n; y++) for (int x = 0; x < m; x++) near(c, "export", px(is[k], x, y).r, d.at(y, x), x, y);
		RM b = r.chance(0.5) ? newm(0, 0) : newm(r.range(1, 4), r.range(1, 4));
		b->set_from_image(is[k], r.range(0, 2));
		cmpm(c, "roundtrip", b, d, 0, STEP);
	}
	// importing any channel of a coloured image
	Ref<Image> ci = img(m, n);
	ci->lock();
	DM ch[4]; for (int k = 0; k < 4; k++) { ch[k] = DM(n, m); for (double &x : ch[k].d) x = unit8(r); }
	for (int y = 0; y < n; y++) for (int x = 0; x < m; x++) ci->set_pixel(x, y, Color(ch[0].at(y, x), ch[1].at(y, x), ch[2].at(y, x), ch[3].at(y, x)));
	ci->unlock();
	for (int k = 0; k < 4; k++) { RM b = newm(r.range(0, 3), r.range(1, 4)); b->set_from_image(ci, k); cmpm(c, "channel", b, ch[k], 0, STEP); }
	samem(c, "source_unchanged", a, d);
	ENDC("matrix.image", hsh(n * 8 + m, d.d));
}

UNIT("C07", "tensor.image", 900, 12000) {
	Rng &r = c.rng;
	int z = r.range(1, 5), n = r.range(1, 5), m = r.range(1, 5);
	DT d(z, n, m); for (double &x : d.d) x = unit8(r);
	RT a = mkt(d);
	long e0 = errors();
	c.label("tensor.z_slice_image");
	int s = r.range(0, z - 1);
	Ref<Image> g = a->z_slice_get_image(s);
	if (dims(c, "get.size", g, m, n)) {
		for (int y = 0; y < n; y++) for (int x = 0; x < m; x++) near(c, "get", px(g, x, y).r, d.at(s, y, x), x, y);
	}
	int flags = r.range(1, 15);
	Ref<Image> tg = target(r, m, n); bool mips = tg->has_mipmaps();
	a->z_slice_get_into_image(tg, s, flags);
	if (dims(c, "into.size", tg, m, n)) {
		if (m * n > 1) c.check("into.mipmaps", tg->has_mipmaps() == mips, "the target's mipmap setting changed");
		for (int k = 0; k < 4; k++) if (flags & (1 << k)) {
			for (int y = 0; y < n; y++) for (int x = 0; x < m; x++) near(c, "into", px(tg, x, y)[k], d.at(s, y, x), x, y);
			int to = r.range(0, z - 1);
			RT b = mkt(d); DT w = d;
			b->z_slice_set_image(tg, to, 1 << k);
			for (int y = 0; y < n; y++) for (int x = 0; x < m; x++) w.at(to, y, x) = d.at(s, y, x);
			cmpt(c, "set", b, w, 0, STEP);
			for (int q = 0; q < z; q++) if (q != to) for (int y = 0; y < n; y++) for (int x = 0; x < m; x++) if (b->element_get(q, y, x) != (float)d.at(q, y, x)) c.fail("set.other_slice", strf("element z%d y%d x%d changed", q, y, x));
		}
	}
	ENDC("tensor.z_slice_image", hsh(flags * 512 + z * 64 + n * 8 + m, d.d));

	e0 = errors();
	c.label("tensor.z_slices_image");
	int ix[4]; for (int k = 0; k < 4; k++) ix[k] = r.chance(0.3) ? -1 : r.range(0, z - 1);
	if (r.chance(0.5) && z >= 4) for (int k = 0; k < 4; k++) ix[k] = k;
	Ref<Image> gi = a->z_slices_get_image(ix[0], ix[1], ix[2], ix[3]);
	Ref<Image> ti = target(r, m, n);
	a->z_slices_get_into_image(ti, ix[0], ix[1], ix[2], ix[3]);
	Ref<Image> two[2] = { gi, ti };
	for (int q = 0; q < 2; q++) if (dims(c, q ? "into.size" : "get.size", two[q], m, n))
		for (int k = 0; k < 4; k++) if (ix[k] >= 0) for (int y = 0; y < n; y++) for (int x = 0; x < m; x++) near(c, q ? "into" : "get", px(two[q], x, y)[k], d.at(ix[k], y, x), x, y);
	// import into distinct slices
	std::vector<int> sl; for (int k = 0; k < z; k++) sl.push_back(k);
	for (int k = (int)sl.size() - 1; k > 0; k--) std::swap(sl[k], sl[r.range(0, k)]);
	int to[4]; DT w = d; for (int k = 0; k < 4; k++) to[k] = k < z && ix[k] >= 0 ? sl[k] : -1;
	RT b = mkt(d);
	if (gi.is_valid() && !gi->empty()) {
		b->z_slices_set_image(gi, to[0], to[1], to[2], to[3]);
		for (int k = 0; k < 4; k++) if (to[k] >= 0) for (int y = 0; y < n; y++) for (int x = 0; x < m; x++) w.at(to[k], y, x) = d.at(ix[k], y, x);
		cmpt(c, "set", b, w, 0, STEP);
	}
	ENDC("tensor.z_slices_image", hsh(hsh(z * 64 + n * 8 + m, d.d), ix[0] * 1000 + ix[1] * 100 + ix[2] * 10 + ix[3]));

	e0 = errors();
	c.label("tensor.image_import");
	Ref<Image> ci = img(m, n);
	ci->lock();
	DT col(4, n, m); for (double &x : col.d) x = unit8(r);
	for (int y = 0; y < n; y++) for (int x = 0; x < m; x++) ci->set_pixel(x, y, Color(col.at(0, y, x), col.at(1, y, x), col.at(2, y, x), col.at(3, y, x)));
	ci->unlock();
	flags = r.range(1, 15);
	DT sel(0, n, m); for (int k = 0; k < 4; k++) if (flags & (1 << k)) { sel.z++; sel.d.insert(sel.d.end(), col.d.begin() + k * n * m, col.d.begin() + (k + 1) * n * m); }
	b = newt(r.range(0, 3), r.range(1, 3), r.range(1, 3));
	b->set_from_image(ci, flags);
	cmpt(c, "set_from_image", b, sel, 0, STEP);
	b = newt(); b->z_slices_add_image(ci, flags);
	cmpt(c, "add_to_empty", b, sel, 0, STEP);
	b = mkt(d); b->z_slices_add_image(ci, flags);
	DT ap = d; ap.z += sel.z; ap.d.insert(ap.d.end(), sel.d.begin(), sel.d.end());
	cmpt(c, "add", b, ap, 0, STEP);
	// one slice out of a coloured image: the first selected channel
	{
		int k0 = 0; while (!(flags & (1 << k0))) k0++;
		int to = r.range(0, z - 1); DT w = d; b = mkt(d);
		b->z_slice_set_image(ci, to, flags);
		for (int y = 0; y < n; y++) for (int x = 0; x < m; x++) w.at(to, y, x) = col.at(k0, y, x);
		cmpt(c, "slice_of_selection", b, w, 0, STEP);
	}
	ENDC("tensor.image_import", hsh(hsh(z * 64 + n * 8 + m, col.d), flags));

	// x and y slices: the image's columns follow the other in-slice axis, its rows follow depth
	for (int axis = 0; axis < 2; axis++) {
		e0 = errors();
		c.label(axis ? "tensor.y_slice_image" : "tensor.x_slice_image");
		int W = axis ? m : n;
		int i = r.range(0, (axis ? n : m) - 1);
		auto at = [&](int zz, int k) { return axis ? d.at(zz, i, k) : d.at(zz, k, i); };
		Ref<Image> s1 = axis ? a->y_slice_get_image(i) : a->x_slice_get_image(i);
		flags = r.range(1, 15);
		Ref<Image> s2 = target(r, W, z);
		if (axis) a->y_slice_get_into_image(s2, i, flags); else a->x_slice_get_into_image(s2, i, flags);
		int k0 = 0; while (!(flags & (1 << k0))) k0++;
		for (int q = 0; q < 2; q++) {
			Ref<Image> s = q ? s2 : s1;
			if (!dims(c, q ? "into.size" : "get.size", s, W, z)) continue;
			for (int k = 0; k < 4; k++) if (q ? (flags & (1 << k)) : k == 0) for (int zz = 0; zz < z; zz++) for (int x = 0; x < W; x++) near(c, q ? "into" : "get", px(s, x, zz)[k], at(zz, x), x, zz);
			DT w0(z, n, m, 0.25), w = w0; b = mkt(w0);
			for (int zz = 0; zz < z; zz++) for (int x = 0; x < W; x++) (axis ? w.at(zz, i, x) : w.at(zz, x, i)) = at(zz, x);
			if (axis) b->y_slice_set_image(s, i, q ? 1 << k0 : 1); else b->x_slice_set_image(s, i, q ? 1 << k0 : 1);
			cmpt(c, "roundtrip", b, w, 0, STEP);
		}
		{
			Ref<Image> ci = img(W, z); DT col(4, z, W); for (double &x : col.d) x = unit8(r);
			ci->lock(); for (int zz = 0; zz < z; zz++) for (int x = 0; x < W; x++) ci->set_pixel(x, zz, Color(col.at(0, zz, x), col.at(1, zz, x), col.at(2, zz, x), col.at(3, zz, x))); ci->unlock();
			DT w0(z, n, m, 0.25), w = w0; b = mkt(w0);
			for (int zz = 0; zz < z; zz++) for (int x = 0; x < W; x++) (axis ? w.at(zz, i, x) : w.at(zz, x, i)) = col.at(k0, zz, x);
			if (axis) b->y_slice_set_image(ci, i, flags); else b->x_slice_set_image(ci, i, flags);
			cmpt(c, "slice_of_selection", b, w, 0, STEP);
		}
		ENDC(axis ? "tensor.y_slice_image" : "tensor.x_slice_image", hsh(hsh(z * 64 + n * 8 + m, d.d), i * 16 + flags));
	}
	samet(c, "source_unchanged", a, d);
}
