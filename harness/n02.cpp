// N02: numerical differentiation, Taylor approximation, root finding, Euler integration, critical points.
#include "vh.h"
#include "core/numerical_analysis.h"
#include <algorithm>
typedef MLPPNumericalAnalysis NA;
// --- one variable: a0 + a1 x + a2 x^2 + a3 x^3 + s sin(w x + p) + e exp(v x)
static struct F1 { double a[4], s, w, p, e, v; } g1;
static double f1(double x, int d) {
	const F1 &g = g1; double y = 0;
	if (d == 0) y = g.a[0] + x * (g.a[1] + x * (g.a[2] + x * g.a[3]));
	if (d == 1) y = g.a[1] + x * (2 * g.a[2] + x * 3 * g.a[3]);
	if (d == 2) y = 2 * g.a[2] + 6 * g.a[3] * x;
	if (d == 3) y = 6 * g.a[3];
	y += g.s * std::pow(g.w, d) * std::sin(g.w * x + g.p + d * 1.5707963267948966);
	y += g.e * std::pow(g.v, d) * std::exp(g.v * x);
	return y;
}
static real_t F1f(real_t x) { return f1(x, 0); }
static const char *rand1(Rng &r) {
	F1 &g = g1; for (double &q : g.a) q = 0; g.s = g.w = g.p = g.e = g.v = 0;
	switch (r.range(0, 4)) {
		case 0: { int d = r.range(0, 3); for (int i = 0; i <= d; i++) g.a[i] = r.chance(0.2) ? r.range(-3, 3) : r.uni(-2, 2); return "polynomial"; }
		case 1: g.s = r.uni(-2, 2); g.w = r.uni(0.3, 2); g.p = r.uni(-3, 3); return "sine";
		case 2: g.e = r.uni(-1, 1); g.v = r.uni(-1.2, 1.2); return "exponential";
		case 3: for (int i = 0; i < 2; i++) g.a[i] = r.uni(-2, 2); g.s = r.uni(-1, 1); g.w = r.uni(0.3, 2); return "mixed_sine";
		default: g.a[2] = r.uni(-1, 1); g.e = r.uni(-1, 1); g.v = r.uni(-1, 1); return "mixed_exponential";
	}
}
static double scale1(double c) { double s = 1; for (double x : { c - 0.3, c, c + 0.3 }) for (int d = 0; d < 4; d++) s = std::max(s, std::fabs(f1(x, d))); return s; }
// tolerance for a derivative of order d of a function of the given scale, single precision
static double dtol(int d, double sc) { static const double t[] = { 1e-5, 6e-3, 3e-2, 0.12 }; return t[d] * sc; }

UNIT("N02", "one_variable", 2500, 100000) {
	Rng &r = c.rng; NA na;
	const char *k = rand1(r);
	double x = r.chance(0.1) ? 0 : r.chance(0.1) ? (double)r.range(-3, 3) : r.f(-3, 3), cc = r.chance(0.1) ? 0 : r.f(-2, 2), sc = scale1(x), sk = scale1(cc);
	c.label(std::string("num_diffr.") + k); c.eq("value", na.num_diffr(F1f, x), f1(x, 1), 2e-3, dtol(1, sc));
	c.label(std::string("num_diff_2r.") + k); c.eq("value", na.num_diff_2r(F1f, x), f1(x, 2), 5e-3, dtol(2, sc));
	c.label(std::string("num_diff_3r.") + k); c.eq("value", na.num_diff_3r(F1f, x), f1(x, 3), 2e-2, dtol(3, sc));
	double h = r.uni(-1.5, 1.5); double X = (float)(cc + h); h = X - cc; double T = f1(cc, 0), tol = dtol(0, sk);
	c.label("constant_approximationr"); c.eq("value", na.constant_approximationr(F1f, cc), T, 1e-5, tol);
	T += f1(cc, 1) * h; tol += dtol(1, sk) * std::fabs(h); c.label("linear_approximationr"); c.eq("value", na.linear_approximationr(F1f, cc, X), T, 1e-5, tol);
	T += f1(cc, 2) * h * h / 2; tol += dtol(2, sk) * h * h / 2; c.label("quadratic_approximationr"); c.eq("value", na.quadratic_approximationr(F1f, cc, X), T, 1e-5, tol);
	T += f1(cc, 3) * h * h * h / 6; tol += dtol(3, sk) * std::fabs(h * h * h) / 6; c.label("cubic_approximationr"); c.eq("value", na.cubic_approximationr(F1f, cc, X), T, 1e-5, tol);
	double C = r.uni(-3, 3), kk = r.uni(-2, 2), t = r.uni(0, 3); C = (float)C; kk = (float)kk; t = (float)t;
	c.label("growth_method"); c.eq("value", na.growth_method(C, kk, t), C * std::exp(kk * t), 2e-5, 1e-6);
	c.count(k); c.obs(hsh(hsh(hs(k), DV{ x, cc, g1.a[0], g1.a[1], g1.a[2], g1.a[3], g1.s, g1.w, g1.e, g1.v }), 1)); if (r.chance(0.01)) c.sample(strf("%s at %g: f'=%g f''=%g f'''=%g", k, x, f1(x, 1), f1(x, 2), f1(x, 3)));
}
// --- root finding
static struct R1 { int kind; double a, b, r; } gr;
static double rootf(double x) {
	double d = x - gr.r;
	switch (gr.kind) {
		case 0: return gr.a * d;
		case 1: return gr.a * (d + gr.b * d * d * d);
		case 2: return gr.a * (std::exp(x) - std::exp(gr.r));
		case 3: return gr.a * std::sin(d);
		case 4: return gr.a * d * (x - (gr.r + gr.b));
		default: return gr.a * std::tanh(d);
	}
}
static real_t Rf(real_t x) { return rootf(x); }
UNIT("N02", "roots", 1500, 50000) {
	Rng &r = c.rng; NA na;
	gr.kind = r.range(0, 5); gr.a = r.uni(0.5, 3) * (r.chance(0.5) ? 1 : -1); gr.b = gr.kind == 4 ? r.uni(3, 6) * (r.chance(0.5) ? 1 : -1) : r.uni(0, 1); gr.r = r.chance(0.1) ? 0 : r.chance(0.1) ? r.range(-3, 3) : r.uni(-3, 3);
	double st = (float)(gr.r + (r.chance(0.1) ? 0 : r.uni(-0.4, 0.4)));
	std::string cs = strf("kind %d root %g start %g", gr.kind, gr.r, st); double tol = 2e-3;
	int ep = r.range(20, 60);
	c.label("newton_raphson_method"); c.eq("root", na.newton_raphson_method(Rf, st, ep), gr.r, 0, tol);
	c.label("halley_method"); c.eq("root", na.halley_method(Rf, st, ep), gr.r, 0, tol);
	double off = r.uni(0.1, 0.3), o2 = r.uni(0.05, 0.3); DV v{ (double)(float)(gr.r - off), (double)(float)(gr.r + o2), (double)(float)(gr.r + (o2 - off) / 2 + (r.chance(0.5) ? 0.04 : -0.04)) };
	if (r.chance(0.3)) std::swap(v[0], v[2]); if (r.chance(0.3)) std::swap(v[1], v[2]);
	if (v[0] != v[1] && v[1] != v[2] && v[0] != v[2]) {
		RV V = mkv(v); c.label("inv_quadratic_interpolation"); c.eq("root", na.inv_quadratic_interpolation(Rf, V, r.range(12, 25)), gr.r, 0, tol); samev(c, "argument_unchanged", V, v);
	}
	c.count(strf("kind%d", gr.kind).c_str()); c.obs(hsh(hsh(hs("root"), gr.kind), DV{ gr.r, st, gr.a })); if (r.chance(0.01)) c.sample(cs);
}
// --- Euler integration
static struct { double a, b, w; } ge;
static real_t E1(real_t x) { return ge.a * x + ge.b + std::sin(ge.w * x); }
static real_t E2(const Ref<MLPPVector> &v) { if (v->size() != 2) return NAN; return ge.a * v->element_get(0) + ge.b * v->element_get(1) + std::sin(ge.w * v->element_get(0)); }
UNIT("N02", "euler", 1000, 30000) {
	Rng &r = c.rng; NA na;
	ge.a = r.uni(-1, 1); ge.b = r.uni(-1, 1); ge.w = r.uni(-2, 2);
	int n = r.range(0, 60); double h = (float)r.uni(0.005, 0.1), x0 = (float)r.uni(-2, 2), y0 = (float)r.uni(-2, 2), p = (float)(x0 + (n + 0.5) * h);
	double x = x0, y = y0, z = y0; for (int i = 0; i < n; i++) { y += h * (ge.a * x + ge.b + std::sin(ge.w * x)); z += h * (ge.a * x + ge.b * z + std::sin(ge.w * x)); x += h; }
	c.label("eulerian_methodr"); c.eq("value", na.eulerian_methodr(E1, x0, y0, p, h), y, 1e-4, 1e-4);
	c.label("eulerian_methodv"); c.eq("value", na.eulerian_methodv(E2, x0, y0, p, h), z, 1e-4, 1e-4);
	if (!n) c.count("no_step"); c.obs(hsh(hsh(hs("euler"), n), DV{ h, x0, y0 }), n > 0); if (r.chance(0.01)) c.sample(strf("%d steps of %g", n, h));
}
// --- several variables: c0 + b.x + x'Qx/2 + T xxx/6 + s sin(w.x)
static struct FN { int n; double c0, s; double b[4], Q[4][4], T[4][4][4], w[4], m[4]; } gn;
static double fn(const double *xx, int d, int i = 0, int j = 0, int k = 0) {
	const FN &g = gn; int n = g.n; double x[4]; for (int a = 0; a < n; a++) x[a] = xx[a] - g.m[a];
	double u = 0; for (int a = 0; a < n; a++) u += g.w[a] * x[a];
	double y = 0;
	if (d == 0) { y = g.c0 + g.s * std::sin(u); for (int a = 0; a < n; a++) { y += g.b[a] * x[a]; for (int b = 0; b < n; b++) { y += g.Q[a][b] * x[a] * x[b] / 2; for (int q = 0; q < n; q++) y += g.T[a][b][q] * x[a] * x[b] * x[q] / 6; } } }
	if (d == 1) { y = g.b[i] + g.s * g.w[i] * std::cos(u); for (int a = 0; a < n; a++) { y += g.Q[i][a] * x[a]; for (int b = 0; b < n; b++) y += g.T[i][a][b] * x[a] * x[b] / 2; } }
	if (d == 2) { y = g.Q[i][j] - g.s * g.w[i] * g.w[j] * std::sin(u); for (int a = 0; a < n; a++) y += g.T[i][j][a] * x[a]; }
	if (d == 3) y = g.T[i][j][k] - g.s * g.w[i] * g.w[j] * g.w[k] * std::cos(u);
	return y;
}
static real_t FNf(const Ref<MLPPVector> &v) { double x[4]; for (int i = 0; i < gn.n; i++) x[i] = v->element_get(i); return fn(x, 0); }
static void symT(Rng &r, double amp) { int n = gn.n; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) for (int k = j; k < n; k++) { double t = r.uni(-amp, amp); for (auto p : { 0, 1, 2, 3, 4, 5 }) { int q[3] = { i, j, k }; static const int P[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } }; gn.T[q[P[p][0]]][q[P[p][1]]][q[P[p][2]]] = t; } } }
UNIT("N02", "several_variables", 1500, 50000) {
	Rng &r = c.rng; NA na; FN &g = gn; memset(&g, 0, sizeof g);
	int n = g.n = r.range(1, 3); int kind = r.range(0, 3);
	g.c0 = r.uni(-1, 1); for (int i = 0; i < n; i++) { g.b[i] = r.uni(-1, 1); for (int j = i; j < n; j++) if (kind >= 1) g.Q[i][j] = g.Q[j][i] = r.uni(-1, 1); }
	if (kind >= 2) symT(r, 1);
	if (kind == 3) { g.s = r.uni(-1, 1); for (int i = 0; i < n; i++) g.w[i] = r.uni(-1.2, 1.2); }
	DV x(n), cc(n); for (double &q : x) q = r.chance(0.1) ? 0 : r.f(-1.5, 1.5); for (double &q : cc) q = r.chance(0.1) ? 0 : r.f(-1.5, 1.5);
	RV X = mkv(x), Cc = mkv(cc); double sc = 0; const double *xp = x.data(), *cp = cc.data();
	auto scale = [&](const double *p) { double s = 1 + std::fabs(fn(p, 0)); for (int i = 0; i < n; i++) { s = std::max(s, std::fabs(fn(p, 1, i))); for (int j = 0; j < n; j++) { s = std::max(s, std::fabs(fn(p, 2, i, j))); for (int k = 0; k < n; k++) s = std::max(s, std::fabs(fn(p, 3, i, j, k))); } } return s; };
	sc = scale(xp);
	c.label("num_diffv"); for (int i = 0; i < n; i++) c.eq("value", na.num_diffv(FNf, X, i), fn(xp, 1, i), 2e-3, dtol(1, sc));
	c.label("num_diff_2v"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c.eq("value", na.num_diff_2v(FNf, X, i, j), fn(xp, 2, i, j), 5e-3, dtol(2, sc));
	c.label("num_diff_3v"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) c.eq("value", na.num_diff_3v(FNf, X, i, j, k), fn(xp, 3, i, j, k), 2e-2, dtol(3, sc));
	c.label("jacobian"); { DV w(n); for (int i = 0; i < n; i++) w[i] = fn(xp, 1, i); cmpv(c, "value", na.jacobian(FNf, X), w, 2e-3, dtol(1, sc)); }
	c.label("hessian"); { DM w(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) w.at(i, j) = fn(xp, 2, i, j); cmpm(c, "value", na.hessian(FNf, X), w, 5e-3, dtol(2, sc)); }
	DT w3(n, n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) w3.at(i, j, k) = fn(xp, 3, i, j, k);
	c.label("third_order_tensor"); cmpt(c, "value", na.third_order_tensor(FNf, X), w3, 2e-2, dtol(3, sc));
	c.label("third_order_tensorvt"); { Vector<RM> t = na.third_order_tensorvt(FNf, X); if (c.check("count", t.size() == n)) for (int i = 0; i < n; i++) { DM w(n, n); for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) w.at(j, k) = w3.at(i, j, k); cmpm(c, "value", t[i], w, 2e-2, dtol(3, sc)); } }
	c.label("laplacian"); { double w = 0; for (int i = 0; i < n; i++) w += fn(xp, 2, i, i); c.eq("value", na.laplacian(FNf, X), w, 5e-3, n * dtol(2, sc)); }
	double sk = scale(cp), h[4], hn = 0; for (int i = 0; i < n; i++) { h[i] = x[i] - cc[i]; hn += std::fabs(h[i]); }
	double T = fn(cp, 0), tol = dtol(0, sk);
	c.label("constant_approximationv"); c.eq("value", na.constant_approximationv(FNf, Cc), T, 1e-5, tol);
	for (int i = 0; i < n; i++) T += fn(cp, 1, i) * h[i]; tol += dtol(1, sk) * hn; c.label("linear_approximationv"); c.eq("value", na.linear_approximationv(FNf, Cc, X), T, 1e-5, tol);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) T += fn(cp, 2, i, j) * h[i] * h[j] / 2; tol += dtol(2, sk) * hn * hn / 2; c.label("quadratic_approximationv"); c.eq("value", na.quadratic_approximationv(FNf, Cc, X), T, 1e-5, tol);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) T += fn(cp, 3, i, j, k) * h[i] * h[j] * h[k] / 6; tol += dtol(3, sk) * hn * hn * hn / 6; c.label("cubic_approximationv"); c.eq("value", na.cubic_approximationv(FNf, Cc, X), T, 1e-5, tol);
	c.label("arguments"); samev(c, "unchanged", X, x); samev(c, "unchanged", Cc, cc);
	c.count(strf("variables%d_kind%d", n, kind).c_str()); c.obs(hsh(hsh(hsh(hs("nv"), n), x), cc), true);
}
UNIT("N02", "critical_points", 800, 30000) {
	Rng &r = c.rng; NA na; FN &g = gn; memset(&g, 0, sizeof g);
	int n = g.n = r.range(1, 4); bool flat = r.chance(0.05);
	double ev[4], R[4][4] = {}; int want = r.range(0, n > 1 ? 2 : 1);
	for (int i = 0; i < n; i++) { ev[i] = r.uni(0.6, 3); if (want == 1) ev[i] = -ev[i]; }
	if (want == 2) { int k = r.range(1, n - 1); for (int i = 0; i < k; i++) ev[i] = -ev[i]; }
	for (int i = 0; i < n; i++) R[i][i] = 1;
	for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) { double t = r.chance(0.3) ? 0 : r.uni(-3, 3); for (int i = 0; i < n; i++) { double p = R[i][a], q = R[i][b]; R[i][a] = std::cos(t) * p - std::sin(t) * q; R[i][b] = std::sin(t) * p + std::cos(t) * q; } }
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) g.Q[i][j] += R[i][k] * ev[k] * R[j][k];
	if (r.chance(0.5)) symT(r, 1);
	g.c0 = r.uni(-2, 2); if (flat) { memset(g.Q, 0, sizeof g.Q); memset(g.T, 0, sizeof g.T); }
	DV x(n); for (int i = 0; i < n; i++) { x[i] = r.chance(0.2) ? 0 : r.f(-2, 2); g.m[i] = x[i]; }
	RV X = mkv(x);
	c.label("second_partial_derivative_test"); String s = na.second_partial_derivative_test(FNf, X);
	static const char *W[] = { "min", "max", "saddle" };
	const char *w = flat ? "test was inconclusive" : W[want];
	c.check("classification", s == String(w), strf("%d variables, eigenvalues %s: said %s", n, str(DV(ev, ev + n)).c_str(), s.utf8().get_data()) + " expected " + w);
	samev(c, "argument_unchanged", X, x);
	c.count(strf("%s_%d", flat ? "flat" : w, n).c_str()); c.obs(hsh(hsh(hs(w), n), x));
}
