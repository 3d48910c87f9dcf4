// P01: numeric data preparation against its definitions; train/test split as a partition of tagged rows.
#include "vh.h"
#include <algorithm>

static Ref<MLPPDataComplex> complexdata(const RM &i, const RM &o) { Ref<MLPPDataComplex> d; d.instance(); d->set_input(i); d->set_output(o); return d; }
static double sdev(const DV &v) { double m = 0, s = 0; for (double x : v) m += x; m /= v.size(); for (double x : v) s += (x - m) * (x - m); return std::sqrt(s / (v.size() - 1.0)); }

UNIT("P01", "scaling", 4000, 150000) {
	Rng &r = c.rng; MLPPData dt_;
	int n = r.range(1, 9), k = r.range(1, 6);
	static const std::vector<Kind> ks = { K_STD, K_POS, K_UNIT, K_SMALLINT, K_MIX, K_NONZERO };
	DM a = gm(r, n, k, r.pick(ks));
	if (r.chance(0.2)) { double o = r.range(-50, 50); for (double &q : a.d) q = (double)(float)(q + o); }
	if (r.chance(0.15)) { int j = r.range(0, k - 1); double v = r.range(-4, 4); for (int i = 0; i < n; i++) a.at(i, j) = v; c.count("constant_column"); }
	if (r.chance(0.15)) { int i = r.range(0, n - 1); double v = r.range(-4, 4); for (int j = 0; j < k; j++) a.at(i, j) = v; c.count("constant_row"); }
	RM A = mkm(a); long e0 = errors();
	c.label("feature_scaling");
	DM w(n, k);
	for (int j = 0; j < k; j++) {
		double lo = 1e300, hi = -1e300; for (int i = 0; i < n; i++) { lo = std::min(lo, a.at(i, j)); hi = std::max(hi, a.at(i, j)); }
		for (int i = 0; i < n; i++) w.at(i, j) = hi > lo ? (a.at(i, j) - lo) / (hi - lo) : 0;
	}
	cmpm(c, "value", dt_.feature_scaling(A), w, 1e-5, 1e-6); samem(c, "input_unchanged", A, a);
	c.label("mean_centering");
	DM z(n, k), q(n, k); bool tiny = false; double amp = 1; DV sds;
	for (int i = 0; i < n; i++) {
		double m = 0, ab = 0; DV row(a.d.begin() + i * k, a.d.begin() + (i + 1) * k);
		for (double x : row) { m += x; ab = std::max(ab, std::fabs(x)); } m /= k;
		double sd = k > 1 ? sdev(row) : 0; bool con = true; for (double x : row) con = con && x == row[0]; if (con) sd = 0;
		for (int j = 0; j < k; j++) { z.at(i, j) = row[j] - m; q.at(i, j) = sd > 0 ? (row[j] - m) / sd : 0; }
		if (!con && sd < 1e-2 * ab) tiny = true; if (con && (row[0] != std::floor(row[0]) || std::fabs(row[0]) > 1000)) tiny = true; // the float mean of a constant row may differ in the last bit
		amp = std::max(amp, ab);
	}
	cmpm(c, "value", dt_.mean_centering(A), z, 1e-5, 1e-6 * amp); samem(c, "input_unchanged", A, a);
	c.label("mean_normalization"); RM g = dt_.mean_normalization(A); if (!tiny) cmpm(c, "value", g, q, 1e-3, 1e-3); else c.check("size", g.is_valid() && g->size() == Size2i(k, n)); samem(c, "input_unchanged", A, a);
	c.label("scaling"); c.check("no_error", errors() == e0, "a valid request was refused");
	if (n == 1) c.count("one_sample"); if (k == 1) c.count("one_feature");
	c.obs(hsh(hsh(hs("scal"), n), a.d), n * k > 1); if (r.chance(0.005)) c.sample(str(a));
}
UNIT("P01", "one_hot", 3000, 100000) {
	Rng &r = c.rng; MLPPData d;
	int n = r.range(0, 12), C = r.range(1, 8); DV l(n); for (double &x : l) x = r.range(0, C - 1);
	if (r.chance(0.1)) std::fill(l.begin(), l.end(), (double)(C - 1));
	RV L = mkv(l); DM w(n, C); for (int i = 0; i < n; i++) w.at(i, (int)l[i]) = 1;
	long e0 = errors();
	c.label("one_hot_rep"); RM o = d.one_hot_rep(L, C); if (c.check("present", o.is_valid()) && c.check("size", n == 0 || o->size() == Size2i(C, n)) && n) samem(c, "value", o, w);
	samev(c, "input_unchanged", L, l);
	c.label("reverseOneHot");
	std::vector<std::vector<real_t>> vv; for (int i = 0; i < n; i++) { vv.emplace_back(); for (int j = 0; j < C; j++) vv.back().push_back(o.is_valid() && n ? o->element_get(i, j) : 0); }
	std::vector<real_t> b = d.reverseOneHot(vv); bool ok = (int)b.size() == n; for (int i = 0; ok && i < n; i++) ok = b[i] == l[i];
	c.check("round_trip", ok, strf("labels %s do not come back", str(l).c_str()) + (b.size() && n ? strf(", first %g for %g", b[0], l[0]) : ""));
	c.check("no_error", errors() == e0 || n == 0);
	// sets of distinct values, in order of first appearance
	DV x = gv(r, r.range(0, 10), K_SMALLINT); DV u; for (double q : x) if (std::find(u.begin(), u.end(), q) == u.end()) u.push_back(q);
	c.label("vec_to_setnv"); RV X = mkv(x); samev(c, "value", d.vec_to_setnv(X), u); samev(c, "input_unchanged", X, x);
	c.label("vec_to_set"); Vector<int> vi; for (double q : x) vi.push_back((int)q); Vector<int> si = d.vec_to_set(vi); ok = si.size() == (int)u.size(); for (int i = 0; ok && i < si.size(); i++) ok = si[i] == (int)u[i]; c.check("value", ok && vi.size() == (int)x.size());
	c.label("vecToSet"); std::vector<double> sd = d.vecToSet(std::vector<double>(x)); c.check("value", sd == u);
	c.obs(hsh(hsh(hsh(hs("1h"), C), l), x), n > 1);
}
UNIT("P01", "train_test_split", 3000, 100000) {
	Rng &r = c.rng; MLPPData d;
	int n = r.chance(0.1) ? r.range(20, 80) : r.range(1, 12), m = r.chance(0.1) ? n + r.range(-2, 2) : n; if (m < 1) m = 1;
	int fi = r.range(1, 4), fo = r.range(1, 3), k = std::min(n, m);
	DM a(n, fi), b(m, fo); for (int i = 0; i < n; i++) for (int j = 0; j < fi; j++) a.at(i, j) = i * 10 + j + 0.5; for (int i = 0; i < m; i++) for (int j = 0; j < fo; j++) b.at(i, j) = -(i * 10 + j + 0.25);
	RM A = mkm(a), B = mkm(b); float ts = r.chance(0.1) ? 0 : r.chance(0.1) ? 1 : r.chance(0.3) ? (float)r.range(0, k) / k : r.f(0, 1);
	int want = (int)std::floor((double)ts * k + 1e-12), alt = (int)std::floor((double)((float)ts * (float)k)); // rounding of the product is the implementation's choice
	Ref<MLPPDataComplex> in = complexdata(A, B), tr_, te; long e0 = errors(); bool bind = r.chance(0.3);
	c.label(bind ? "train_test_split_bind" : "train_test_split");
	if (bind) { Array x = d.train_test_split_bind(in, ts); if (!c.check("parts", x.size() == 2)) return; tr_ = x[0]; te = x[1]; }
	else { MLPPData::SplitComplexData s = d.train_test_split(in, ts); tr_ = s.train; te = s.test; }
	if (!c.check("valid", tr_.is_valid() && te.is_valid() && tr_->get_input().is_valid() && tr_->get_output().is_valid() && te->get_input().is_valid() && te->get_output().is_valid())) return;
	int nt = te->get_input()->size().y, nr = tr_->get_input()->size().y;
	c.check("size", (nt == want || nt == alt) && nr == k - nt, strf("%d samples, share %g: test %d, training %d", k, ts, nt, nr));
	std::multiset<int> seen; bool order = true; int prev = -1;
	for (int part = 0; part < 2; part++) {
		RM X = part ? tr_->get_input() : te->get_input(), Y = part ? tr_->get_output() : te->get_output(); int rows = X->size().y;
		if (!c.check("paired_size", Y->size().y == rows)) continue;
		if (rows && !c.check("columns", X->size().x == fi && Y->size().x == fo)) continue;
		for (int i = 0; i < rows; i++) {
			int id = (int)std::floor(X->element_get(i, 0) / 10); bool ok = id >= 0 && id < k;
			for (int j = 0; ok && j < fi; j++) ok = X->element_get(i, j) == (real_t)a.at(id, j);
			if (!c.check("input_row", ok, strf("row %d of part %d is not a sample", i, part))) continue;
			for (int j = 0; ok && j < fo; j++) ok = Y->element_get(i, j) == (real_t)b.at(id, j);
			c.check("own_output_row", ok, strf("sample %d has another sample's output", id)); seen.insert(id); order = order && id > prev; prev = id;
		}
	}
	bool part = (int)seen.size() == k; for (int i = 0; part && i < k; i++) part = seen.count(i) == 1;
	c.check("partition", part, strf("%d samples, %d rows over both parts", k, (int)seen.size()));
	samem(c, "input_unchanged", A, a); samem(c, "output_unchanged", B, b); c.check("own_data", in->get_input() == A && in->get_output() == B);
	c.check("no_error", errors() == e0, "a valid request was refused");
	if (nt == 0) c.count("empty_test"); if (nr == 0) c.count("empty_training"); if (n != m) c.count("unequal_rows"); if (!order) c.count("shuffled");
	c.obs(hsh(hsh(hsh(hs("split"), k), nt), (uint64_t)(ts * 1e6)), k > 1); if (r.chance(0.005)) c.sample(strf("%d samples, test share %g", k, ts));
}
template <class D, class I, class O> static void holder(Ctx &c, const char *nm, I i, O o, I i2) {
	Ref<D> d; d.instance(); c.label(nm);
	c.check("empty_at_start", !d->get_input().is_valid() && !d->get_output().is_valid());
	d->set_input(i); d->set_output(o);
	c.check("get", d->get_input() == i && d->get_output() == o);
	d->set_input(i2); c.check("set_again", d->get_input() == i2 && d->get_output() == o);
	d->instance_data(); c.check("instance_data", d->get_input().is_valid() && d->get_output().is_valid() && d->get_input() != i2 && d->get_output() != o);
}
UNIT("P01", "holders", 60, 300) {
	RV a = mkv(gv(c.rng, 3)), b = mkv(gv(c.rng, 2)), e = mkv(gv(c.rng, 1)); RM m = mkm(gm(c.rng, 2, 2)), n = mkm(gm(c.rng, 2, 3)), q = mkm(gm(c.rng, 1, 2));
	holder<MLPPDataESimple>(c, "MLPPDataESimple", a, b, e); holder<MLPPDataSimple>(c, "MLPPDataSimple", m, b, q); holder<MLPPDataComplex>(c, "MLPPDataComplex", m, n, q);
	c.obs(hsh(hs("hold"), dv(a)));
}
