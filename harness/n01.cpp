// N01: convolution, pooling, image filters and the DCT against double-precision definitions.
#include "vh.h"
#include "core/convolutions.h"
#include "core/transforms.h"
#include <algorithm>
typedef MLPPConvolutions CV;
static const double PI = 3.14159265358979323846;
static double at0(const DM &m, int i, int j) { return i < 0 || j < 0 || i >= m.r || j >= m.co ? 0 : m.at(i, j); }
static DM conv(const DM &in, const DM &f, int S, int P) {
	int N = in.r, F = f.r, K = (N - F + 2 * P) / S + 1;
	DM o(K, K);
	for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) { double s = 0; for (int k = 0; k < F; k++) for (int p = 0; p < F; p++) s += at0(in, i * S + k - P, j * S + p - P) * f.at(k, p); o.at(i, j) = s; }
	return o;
}
static DM pool(const DM &in, int F, int S, int t) {
	int N = in.r, K = (N - F) / S + 1;
	DM o(K, K);
	for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) {
		double s = 0, lo = 1e300, hi = -1e300;
		for (int k = 0; k < F; k++) for (int p = 0; p < F; p++) { double v = in.at(i * S + k, j * S + p); s += v; lo = std::min(lo, v); hi = std::max(hi, v); }
		o.at(i, j) = t == CV::POOL_TYPE_AVERAGE ? s / (F * F) : t == CV::POOL_TYPE_MIN ? lo : hi;
	}
	return o;
}
static DM img(Rng &r, int y, int x) {
	DM m(y, x); int k = r.range(0, 4);
	for (int i = 0; i < y; i++) for (int j = 0; j < x; j++) m.at(i, j) = k == 0 ? r.range(0, 255) : k == 1 ? (double)(float)r.uni(-1, 1) : k == 2 ? i * 100 + j : k == 3 ? -r.range(1, 200) : (double)(float)r.uni(0, 1);
	if (r.chance(0.05)) for (double &q : m.d) q = 3;
	return m;
}
static double amax(const DM &m) { double s = 0; for (double q : m.d) s = std::max(s, std::fabs(q)); return s; }
static DM slice(const DT &t, int z) { DM o(t.r, t.co); for (int i = 0; i < t.r; i++) for (int j = 0; j < t.co; j++) o.at(i, j) = t.at(z, i, j); return o; }
static void spl(Rng &r, int &N, int &F, int &S, int &P) { N = r.chance(0.1) ? r.range(9, 16) : r.range(1, 8); F = r.range(1, N); S = r.chance(0.4) ? 1 : r.range(1, 4); P = r.chance(0.4) ? 0 : r.range(1, 3); if (P && r.chance(0.15)) F = r.range(1, N + 2 * P); }

UNIT("N01", "convolve_2d", 1500, 60000) {
	Rng &r = c.rng;
	int N, F, S, P; spl(r, N, F, S, P);
	DM a = img(r, N, N), f = gm(r, F, F, K_STD);
	RM A = mkm(a), Fm = mkm(f); CV cv; long e0 = errors();
	c.label("convolve_2d");
	DM w = conv(a, f, S, P);
	RM o = cv.convolve_2d(A, Fm, S, P);
	std::string cs = strf("N=%d F=%d S=%d P=%d", N, F, S, P);
	if (c.check("present", o.is_valid()) && c.check("size", o->size() == Size2i(w.co, w.r), cs + strf(" got %dx%d expected %dx%d", o->size().y, o->size().x, w.r, w.co))) {
		cmpm(c, "value", o, w, 1e-4, 1e-6 * (1 + amax(a) * amax(f) * F * F));
	}
	samem(c, "input_unchanged", A, a); samem(c, "filter_unchanged", Fm, f);
	c.check("own_result", o != A && o != Fm);
	c.check("no_error", errors() == e0, "a valid request was refused");
	if (S > 1) c.count("stride>1"); if (P) c.count("padded"); if (S > 1 && P) c.count("stride_and_padding"); if ((N - F + 2 * P) % S) c.count("inexact_stride");
	c.obs(hsh(hsh(hsh(hs(cs), a.d), f.d), 1), N > 1); if (r.chance(0.01)) c.sample(cs);
}
UNIT("N01", "convolve_3d", 800, 30000) {
	Rng &r = c.rng;
	int N, F, S, P; spl(r, N, F, S, P); if (N > 9) { N = 9; F = std::min(F, 9); }
	int ch = r.range(1, 4), C = r.range(1, 3);
	DT a(ch, N, N), f(ch * C, F, F);
	for (double &q : a.d) q = (double)(float)r.uni(-5, 5);
	for (double &q : f.d) q = (double)(float)r.uni(-2, 2);
	RT A = mkt(a), Fm = mkt(f); CV cv; long e0 = errors();
	c.label("convolve_3d");
	int K = (N - F + 2 * P) / S + 1;
	std::string cs = strf("N=%d F=%d S=%d P=%d channels=%d filters=%d", N, F, S, P, ch, C);
	DT w(C, K, K);
	for (int q = 0; q < C; q++) for (int t = 0; t < ch; t++) { DM s = conv(slice(a, t), slice(f, q * ch + t), S, P); for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) w.at(q, i, j) += s.at(i, j); }
	RT o = cv.convolve_3d(A, Fm, S, P);
	if (c.check("present", o.is_valid()) && c.check("size", o->size() == Size3i(K, K, C), cs)) cmpt(c, "value", o, w, 1e-4, 1e-5 * (1 + ch * F * F));
	samet(c, "input_unchanged", A, a); samet(c, "filter_unchanged", Fm, f);
	c.check("no_error", errors() == e0, "a valid request was refused: " + cs);
	if (ch > 1) c.count("several_channels"); if (C > 1) c.count("several_filters"); if (S > 1) c.count("stride>1"); if (P) c.count("padded");
	c.obs(hsh(hsh(hs(cs), a.d), f.d), N > 1); if (r.chance(0.01)) c.sample(cs);
}
UNIT("N01", "pooling", 1500, 60000) {
	Rng &r = c.rng;
	int N = r.chance(0.1) ? r.range(9, 16) : r.range(1, 8), F = r.range(1, N), S = r.range(1, 4), Z = r.range(1, 4);
	CV cv; long e0 = errors();
	DT t(Z, N, N); for (int z = 0; z < Z; z++) { DM s = img(r, N, N); std::copy(s.d.begin(), s.d.end(), t.d.begin() + z * N * N); }
	DM a = slice(t, 0); RM A = mkm(a); RT T = mkt(t);
	std::string cs = strf("N=%d F=%d S=%d", N, F, S);
	for (int k = 0; k < 3; k++) {
		CV::PoolType ty = (CV::PoolType)k; static const char *nm[] = { "average", "min", "max" };
		double at = k == 0 ? 1e-4 : 0, rt = k == 0 ? 1e-5 : 0;
		c.label(std::string("pool_2d.") + nm[k]);
		DM w = pool(a, F, S, k); RM o = cv.pool_2d(A, F, S, ty);
		if (c.check("size", o.is_valid() && o->size() == Size2i(w.co, w.r), cs)) cmpm(c, "value", o, w, rt, at);
		c.label(std::string("pool_3d.") + nm[k]);
		RT q = cv.pool_3d(T, F, S, ty);
		if (c.check("size", q.is_valid() && q->size() == Size3i(w.co, w.r, Z), cs)) for (int z = 0; z < Z; z++) { DM ww = pool(slice(t, z), F, S, k); for (int i = 0; i < ww.r; i++) for (int j = 0; j < ww.co; j++) c.eq("value", q->element_get(z, i, j), ww.at(i, j), rt, at); }
		c.label(std::string("global_pool.") + nm[k]);
		RV g = cv.global_pool_3d(T, ty);
		if (c.check("size", g.is_valid() && g->size() == Z)) for (int z = 0; z < Z; z++) { double ww = pool(slice(t, z), N, 1, k).at(0, 0); c.eq("value_3d", g->element_get(z), ww, rt, at); if (!z) c.eq("value_2d", cv.global_pool_2d(A, ty), ww, rt, at); }
	}
	{ // global pooling of a non-square image
		DM b = img(r, r.range(1, 6), r.range(1, 6)); RM B = mkm(b); double s = 0; for (double q : b.d) s += q;
		c.label("global_pool.rectangular"); c.eq("average", cv.global_pool_2d(B, CV::POOL_TYPE_AVERAGE), s / b.d.size(), 1e-5, 1e-4);
		c.eq("min", cv.global_pool_2d(B, CV::POOL_TYPE_MIN), *std::min_element(b.d.begin(), b.d.end()), 0, 0); c.eq("max", cv.global_pool_2d(B, CV::POOL_TYPE_MAX), *std::max_element(b.d.begin(), b.d.end()), 0, 0);
	}
	c.label("pooling"); samem(c, "input_unchanged", A, a); samet(c, "input_unchanged", T, t);
	c.check("no_error", errors() == e0, "a valid request was refused: " + cs);
	if (S > 1) c.count("stride>1"); if (S > F) c.count("gaps_between_windows"); if (S < F) c.count("overlapping_windows");
	c.obs(hsh(hs(cs), t.d), N > 1); if (r.chance(0.01)) c.sample(cs);
}
static DM ddx(const DM &m) { DM o(m.r, m.co); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.co; j++) o.at(i, j) = at0(m, i, j + 1) - at0(m, i, j - 1); return o; }
static DM ddy(const DM &m) { DM o(m.r, m.co); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.co; j++) o.at(i, j) = at0(m, i - 1, j) - at0(m, i + 1, j); return o; }
static DM had(const DM &a, const DM &b) { DM o = a; for (size_t i = 0; i < o.d.size(); i++) o.d[i] *= b.d[i]; return o; }
UNIT("N01", "gradients", 1500, 60000) {
	Rng &r = c.rng;
	bool square = r.chance(0.5); int y = r.range(2, 9), x = square ? y : r.range(2, 9);
	DM a = img(r, y, x); RM A = mkm(a); CV cv; long e0 = errors();
	DM X = ddx(a), Y = ddy(a); double sc = 1 + amax(a);
	c.label("dx"); cmpm(c, "value", cv.dx(A), X, 1e-5, 1e-5 * sc);
	c.label("dy"); cmpm(c, "value", cv.dy(A), Y, 1e-5, 1e-5 * sc);
	DM g(y, x); for (size_t i = 0; i < g.d.size(); i++) g.d[i] = std::hypot(X.d[i], Y.d[i]);
	c.label("grad_magnitude"); cmpm(c, "value", cv.grad_magnitude(A), g, 1e-4, 1e-4 * sc);
	c.label("grad_orientation"); RM o = cv.grad_orientation(A);
	if (c.check("size", o.is_valid() && o->size() == Size2i(x, y))) for (int i = 0; i < y; i++) for (int j = 0; j < x; j++) if (g.at(i, j) > 1e-3 * sc) {
		double d = o->element_get(i, j) - std::atan2(Y.at(i, j), X.at(i, j));
		d = std::fabs(std::remainder(d, 2 * PI)); c.check("angle", d < 2e-3 && o->element_get(i, j) < 3.1416 && o->element_get(i, j) > -3.1416, strf("at %d,%d got %g expected %g", i, j, o->element_get(i, j), std::atan2(Y.at(i, j), X.at(i, j))));
	}
	if (square) {
		DM G(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) G.at(i, j) = std::exp(-((i - 1) * (i - 1) + (j - 1) * (j - 1)) / 2.0) / (2 * PI);
		DM M[3] = { conv(had(X, X), G, 1, 1), conv(had(Y, Y), G, 1, 1), conv(had(X, Y), G, 1, 1) };
		double at = 1e-4 * sc * sc;
		c.label("compute_m"); RT t = cv.compute_m(A);
		if (c.check("size", t.is_valid() && t->size() == Size3i(x, y, 3))) for (int z = 0; z < 3; z++) for (int i = 0; i < y; i++) for (int j = 0; j < x; j++) c.eq("value", t->element_get(z, i, j), M[z].at(i, j), 1e-3, at);
		c.label("compute_mv"); Vector<RM> v = cv.compute_mv(A);
		if (c.check("count", v.size() == 3)) for (int z = 0; z < 3; z++) cmpm(c, "value", v[z], M[z], 1e-3, at);
		c.label("harris_corner_detection"); Vector<Vector<CharType>> h = cv.harris_corner_detection(A);
		bool ok = h.size() == y; for (int i = 0; ok && i < y; i++) ok = h[i].size() == x;
		if (c.check("size", ok)) for (int i = 0; i < y; i++) for (int j = 0; j < x; j++) {
			double a0 = M[0].at(i, j), b0 = M[1].at(i, j), x0 = M[2].at(i, j), det = a0 * b0 - x0 * x0, tr = a0 + b0, R = det - 0.05 * tr * tr;
			if (std::fabs(R) <= 1e-3 * (std::fabs(a0 * b0) + x0 * x0 + tr * tr)) { if (tr == 0) c.check("flat", h[i][j] == 'N', strf("%c", (char)h[i][j])); continue; }
			c.check("kind", h[i][j] == (R > 0 ? 'C' : 'E'), strf("at %d,%d response %g classified %c", i, j, R, (char)h[i][j])); c.count(R > 0 ? "corner" : "edge");
		}
	} else c.count("rectangular");
	c.label("gradients"); samem(c, "input_unchanged", A, a);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.obs(hsh(hsh(hs("grad"), y), a.d));
}
UNIT("N01", "kernels", 300, 5000) {
	Rng &r = c.rng; CV cv;
	double sd = r.uni(0.3, 4), px = r.uni(-3, 3), py = r.uni(-3, 3);
	sd = (float)sd; px = (float)px; py = (float)py;
	c.label("gaussian_2d"); c.eq("value", cv.gaussian_2d(px, py, sd), std::exp(-(px * px + py * py) / (2 * sd * sd)) / (2 * PI * sd * sd), 1e-4, 1e-9);
	int n = r.range(0, 4) * 2 + 1;
	DM w(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) w.at(i, j) = std::exp(-((i - n / 2) * (i - n / 2) + (j - n / 2) * (j - n / 2)) / (2 * sd * sd)) / (2 * PI * sd * sd);
	c.label("gaussian_filter_2d"); cmpm(c, "value", cv.gaussian_filter_2d(n, sd), w, 1e-4, 1e-9);
	auto K = [&](const char *nm, const RM &m, int k, std::vector<double> v) { c.label(nm); DM d(k, k); d.d = v; samem(c, "kernel", m, d); };
	K("prewitt_horizontal", cv.get_prewitt_horizontal(), 3, { 1, 1, 1, 0, 0, 0, -1, -1, -1 }); K("prewitt_vertical", cv.get_prewitt_vertical(), 3, { 1, 0, -1, 1, 0, -1, 1, 0, -1 });
	K("sobel_horizontal", cv.get_sobel_horizontal(), 3, { 1, 2, 1, 0, 0, 0, -1, -2, -1 }); K("sobel_vertical", cv.get_sobel_vertical(), 3, { -1, 0, 1, -2, 0, 2, -1, 0, 1 });
	K("scharr_horizontal", cv.get_scharr_horizontal(), 3, { 3, 10, 3, 0, 0, 0, -3, -10, -3 }); K("scharr_vertical", cv.get_scharr_vertical(), 3, { 3, 0, -3, 10, 0, -10, 3, 0, -3 });
	K("roberts_horizontal", cv.get_roberts_horizontal(), 2, { 0, 1, -1, 0 }); K("roberts_vertical", cv.get_roberts_vertical(), 2, { 1, 0, 0, -1 });
	// a filter that was used is still the same filter
	c.label("kernel_reuse"); DM a = img(r, 5, 5); RM A = mkm(a); RM f = cv.get_sobel_horizontal(); RM o1 = cv.convolve_2d(A, f, 1, r.range(0, 2)); K("kernel_after_use", cv.get_sobel_horizontal(), 3, { 1, 2, 1, 0, 0, 0, -1, -2, -1 });
	c.obs(hsh(hsh(hs("k"), n), a.d));
}
UNIT("N01", "dct", 800, 20000) {
	Rng &r = c.rng; MLPPTransforms tr;
	int y = r.range(1, 8), x = r.chance(0.5) ? y : r.range(1, 8);
	DM a(y, x); for (double &q : a.d) q = r.chance(0.5) ? r.range(0, 255) : (double)(float)r.uni(0, 255);
	if (r.chance(0.1)) for (double &q : a.d) q = 200;
	RM A = mkm(a); DM w(y, x);
	for (int p = 0; p < y; p++) for (int q = 0; q < x; q++) {
		double s = 0; for (int m = 0; m < y; m++) for (int n = 0; n < x; n++) s += (a.at(m, n) - 128) * std::cos(PI * (2 * m + 1) * p / (2.0 * y)) * std::cos(PI * (2 * n + 1) * q / (2.0 * x));
		w.at(p, q) = s * (p ? std::sqrt(2.0 / y) : std::sqrt(1.0 / y)) * (q ? std::sqrt(2.0 / x) : std::sqrt(1.0 / x));
	}
	c.label("discrete_cosine_transform"); RM o = tr.discrete_cosine_transform(A);
	cmpm(c, "value", o, w, 1e-4, 0.02); samem(c, "input_unchanged", A, a);
	// energy is preserved (orthonormal transform)
	double e1 = 0, e2 = 0; for (double q : a.d) e1 += (q - 128) * (q - 128); if (o.is_valid()) for (double q : dm(o).d) e2 += q * q; c.eq("energy", e2, e1, 1e-3, 0.5);
	if (x != y) c.count("rectangular"); c.obs(hsh(hsh(hs("dct"), y), a.d), x * y > 1);
}
