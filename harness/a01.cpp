// A01 / A02: activation values and derivatives, all forms, against double-precision definitions.
#include "vh.h"
#include <algorithm>
typedef MLPPActivation AC;
enum Dom { D_ALL, D_MID, D_UNIT01, D_UNIT11, D_GE1, D_GT1ABS, D_NZ, D_NZMID, D_NZALL };
struct Act {
	const char *name; int id;
	real_t (AC::*nr)(real_t); RV (AC::*nv)(const RV &); RM (AC::*nm)(const RM &);
	real_t (AC::*dr)(real_t); RV (AC::*dv_)(const RV &); RM (AC::*dm_)(const RM &);
	double (*f)(double); double (*g)(double); Dom dom; bool kink0;
};
static double sgm(double z) { return 1 / (1 + std::exp(-z)); }
static double spl(double z) { return z > 0 ? z + std::log1p(std::exp(-z)) : std::log1p(std::exp(z)); }
static double sech(double z) { return 1 / std::cosh(z); }
static double sq(double x) { return x * x; }
static const double PI = 3.14159265358979323846;
#define A(n, ID, fn, F, G, DOM, KINK) { n, AC::ACTIVATION_FUNCTION_##ID, &AC::fn##_normr, &AC::fn##_normv, &AC::fn##_normm, &AC::fn##_derivr, &AC::fn##_derivv, &AC::fn##_derivm, [](double z) -> double { return F; }, [](double z) -> double { return G; }, DOM, KINK }
static const Act acts[] = {
	A("linear", LINEAR, linear, z, 1.0, D_ALL, false),
	A("sigmoid", SIGMOID, sigmoid, sgm(z), sgm(z) * sgm(-z), D_ALL, false),
	A("swish", SWISH, swish, z * sgm(z), sgm(z) + z * sgm(z) * sgm(-z), D_ALL, false),
	A("mish", MISH, mish, z * std::tanh(spl(z)), std::tanh(spl(z)) + z * sq(sech(spl(z))) * sgm(z), D_ALL, false),
	A("sinc", SIN_C, sinc, z == 0 ? 1 : std::sin(z) / z, z == 0 ? 0 : (z * std::cos(z) - std::sin(z)) / (z * z), D_NZALL, false),
	A("softplus", SOFTPLUS, softplus, spl(z), sgm(z), D_ALL, false),
	A("softsign", SOFTSIGN, softsign, z / (1 + std::fabs(z)), 1 / sq(1 + std::fabs(z)), D_ALL, false),
	A("cloglog", C_LOG_LOG, cloglog, -std::expm1(-std::exp(z)), std::exp(z - std::exp(z)), D_ALL, false),
	A("logit", LOGIT, logit, std::log(z / (1 - z)), 1 / (z * (1 - z)), D_UNIT01, false),
	A("gaussian_cdf", GAUSSIAN_CDF, gaussian_cdf, 0.5 * std::erfc(-z / std::sqrt(2.0)), std::exp(-z * z / 2) / std::sqrt(2 * PI), D_ALL, false),
	A("relu", RELU, relu, z > 0 ? z : 0, z > 0 ? 1 : 0, D_ALL, true),
	A("gelu", GELU, gelu, 0.5 * z * (1 + std::tanh(std::sqrt(2 / PI) * (z + 0.044715 * z * z * z))), (0.5 * (1 + std::tanh(std::sqrt(2 / PI) * (z + 0.044715 * z * z * z))) + (std::fabs(z) > 30 ? 0 : 0.5 * z * sq(sech(std::sqrt(2 / PI) * (z + 0.044715 * z * z * z))) * std::sqrt(2 / PI) * (1 + 3 * 0.044715 * z * z))), D_ALL, false),
	A("sign", SIGN, sign, z > 0 ? 1 : z < 0 ? -1 : 0, 0.0, D_ALL, true),
	A("unit_step", UNIT_STEP, unit_step, z < 0 ? 0 : 1, 0.0, D_ALL, true),
	A("sinh", SINH, sinh, std::sinh(z), std::cosh(z), D_MID, false),
	A("cosh", COSH, cosh, std::cosh(z), std::sinh(z), D_MID, false),
	A("tanh", TANH, tanh, std::tanh(z), sq(sech(z)), D_ALL, false),
	A("csch", CSCH, csch, 1 / std::sinh(z), -1 / (std::sinh(z) * std::tanh(z)), D_NZMID, false),
	A("sech", SECH, sech, sech(z), -sech(z) * std::tanh(z), D_MID, false),
	A("coth", COTH, coth, 1 / std::tanh(z), -1 / sq(std::sinh(z)), D_NZMID, false),
	A("arsinh", ARSINH, arsinh, std::asinh(z), 1 / std::sqrt(z * z + 1), D_ALL, false),
	A("arcosh", ARCOSH, arcosh, std::acosh(z), 1 / std::sqrt(z * z - 1), D_GE1, false),
	A("artanh", ARTANH, artanh, std::atanh(z), 1 / (1 - z * z), D_UNIT11, false),
	A("arcsch", ARCSCH, arcsch, std::asinh(1 / z), -1 / (std::fabs(z) * std::sqrt(1 + z * z)), D_NZ, false),
	A("arsech", ARSECH, arsech, std::acosh(1 / z), -1 / (z * std::sqrt(1 - z * z)), D_UNIT01, false),
	A("arcoth", ARCOTH, arcoth, std::atanh(1 / z), 1 / (1 - z * z), D_GT1ABS, false),
};
static const int NA = sizeof(acts) / sizeof(acts[0]);

static double pt(Rng &r, Dom d) {
	double z = 0;
	switch (d) {
		case D_ALL: case D_NZALL: {
			int k = r.range(0, 19);
			if (k == 0) z = 0; else if (k == 1) z = r.chance(0.5) ? 1 : -1;
			else if (k <= 3) z = r.f(-1000, 1000); else if (k <= 5) z = r.f(-120, 120); else if (k <= 8) z = r.f(-15, 15);
			else if (k == 9) z = d == D_ALL ? r.f(-0.01, 0.01) : 0; else z = r.f(-4, 4);
			if (d == D_NZALL && z != 0 && std::fabs(z) < 0.05) z = 0.05;
		} break;
		case D_MID: case D_NZMID:
			z = r.chance(0.2) ? r.f(-80, 80) : r.chance(0.1) ? 0 : r.f(-5, 5);
			if (d == D_NZMID && std::fabs(z) < 0.05) z = z < 0 ? -0.05 : 0.05;
			break;
		case D_UNIT01: z = r.f(0.02, 0.98); break;
		case D_UNIT11: z = r.f(-0.98, 0.98); break;
		case D_GE1: z = r.chance(0.2) ? r.f(1.05, 500) : r.f(1.05, 6); break;
		case D_GT1ABS: z = r.chance(0.2) ? r.f(1.05, 300) : r.f(1.05, 6); if (r.chance(0.5)) z = -z; break;
		case D_NZ: z = r.chance(0.2) ? r.f(-200, 200) : r.f(-4, 4); if (std::fabs(z) < 0.01) z = z < 0 ? -0.01 : 0.01; break;
	}
	return (double)(float)z;
}
// float accuracy at z: the rounding of the argument is amplified by the slope
static bool okv(double got, double want, double z, double slope) {
	if (std::isnan(got)) return false;
	if (std::fabs(want) > 1e38) return true;
	double tol = 2e-5 * std::fabs(want) + 1.5e-6 + 1e-6 * std::fabs(z * slope);
	return std::fabs(got - want) <= tol;
}
static double slope(double (*f)(double), double z, double lo = 1e-4) { double h = lo * std::max(1e-2, std::fabs(z)); double a = f(z - h), b = f(z + h); if (std::isnan(a) || std::isnan(b)) return 0; return (b - a) / (2 * h); }

static void judge(Ctx &c, bool deriv) {
	Rng &r = c.rng;
	AC ac;
	const Act &a = acts[r.range(0, NA - 1)];
	AC::ActivationFunction id = (AC::ActivationFunction)a.id;
	double (*F)(double) = deriv ? a.g : a.f;
	std::string base = std::string(a.name) + (deriv ? ".deriv" : "");
	long e0 = errors();
	int n = r.chance(0.05) ? r.range(60, 200) : r.range(1, 12), y = r.range(1, 5), x = r.range(1, 5);
	DV v(n); DM m(y, x);
	auto P = [&]() { double z; do z = pt(r, a.dom); while (deriv && a.kink0 && z == 0); return z; };
	for (double &q : v) q = P();
	for (double &q : m.d) q = P();
	RV V = mkv(v); RM M = mkm(m);
	auto one = [&](const char *kind, double got, double z) {
		double w = F(z);
		c.check(kind, okv(got, w, z, a.dom == D_NZALL && z == 0 ? 0 : a.kink0 ? 0 : slope(F, z)), strf("%s(%.9g) = %.9g, expected %.9g", base.c_str(), z, got, w));
	};
	auto vec = [&](const char *form, const RV &o) {
		c.label(base + "." + form);
		if (!c.check("shape", o.is_valid() && o->size() == n, "wrong result shape")) return;
		for (int i = 0; i < n; i++) one("value", o->element_get(i), v[i]);
	};
	auto mat = [&](const char *form, const RM &o) {
		c.label(base + "." + form);
		if (!c.check("shape", o.is_valid() && o->size() == Size2i(x, y), "wrong result shape")) return;
		for (int i = 0; i < y; i++) for (int j = 0; j < x; j++) one("value", o->element_get(i, j), m.at(i, j));
	};
	c.label(base + ".scalar");
	for (int i = 0; i < n; i++) one("value", deriv ? (ac.*a.dr)(v[i]) : (ac.*a.nr)(v[i]), v[i]);
	vec("vector", deriv ? (ac.*a.dv_)(V) : (ac.*a.nv)(V));
	mat("matrix", deriv ? (ac.*a.dm_)(M) : (ac.*a.nm)(M));
	c.label(base + ".unchanged"); samev(c, "argument_unchanged", V, v); samem(c, "argument_unchanged", M, m);
	// selection by identifier
	c.label(base + ".run_real"); one("value", deriv ? ac.run_activation_deriv_real(id, v[0]) : ac.run_activation_norm_real(id, v[0]), v[0]);
	vec("run_vector", deriv ? ac.run_activation_deriv_vector(id, V) : ac.run_activation_norm_vector(id, V));
	mat("run_matrix", deriv ? ac.run_activation_deriv_matrix(id, M) : ac.run_activation_norm_matrix(id, M));
	c.label(base + ".run_flag_real"); one("value", ac.run_activation_real(id, v[0], deriv), v[0]);
	vec("run_flag_vector", ac.run_activation_vector(id, V, deriv));
	mat("run_flag_matrix", ac.run_activation_matrix(id, M, deriv));
	c.label(base + ".ptr");
	auto p1 = deriv ? ac.get_activation_function_ptr_deriv_real(id) : ac.get_activation_function_ptr_normal_real(id);
	auto p2 = deriv ? ac.get_activation_function_ptr_deriv_vector(id) : ac.get_activation_function_ptr_normal_vector(id);
	auto p3 = deriv ? ac.get_activation_function_ptr_deriv_matrix(id) : ac.get_activation_function_ptr_normal_matrix(id);
	auto q1 = ac.get_activation_function_ptr_real(id, deriv); auto q2 = ac.get_activation_function_ptr_vector(id, deriv); auto q3 = ac.get_activation_function_ptr_matrix(id, deriv);
	if (c.check("present", p1 && p2 && p3 && q1 && q2 && q3)) {
		c.label(base + ".ptr_real"); one("value", (ac.*p1)(v[0]), v[0]);
		c.label(base + ".ptr_flag_real"); one("value", (ac.*q1)(v[0]), v[0]);
		vec("ptr_vector", (ac.*p2)(V)); vec("ptr_flag_vector", (ac.*q2)(V));
		mat("ptr_matrix", (ac.*p3)(M)); mat("ptr_flag_matrix", (ac.*q3)(M));
	}
	c.label(base + ".unchanged"); samev(c, "argument_unchanged_by_id", V, v); samem(c, "argument_unchanged_by_id", M, m);
	if (!deriv && r.chance(0.3)) {
		c.label(base + ".empty"); RV E = newv(0); RV o = (ac.*a.nv)(E); c.check("empty", o.is_valid() && o->size() == 0);
	}
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count(base.c_str()); c.obs(hsh(hsh(hs(base), v), m.d), true);
	if (r.chance(0.01)) c.sample(strf("%s(%g)=%g", base.c_str(), v[0], F(v[0])));
}
UNIT("A01", "elementwise", 3000, 80000) { judge(c, false); }
UNIT("A02", "elementwise_derivative", 3000, 80000) { judge(c, true); }

// parametrised activations (no identifier)
static void param(Ctx &c, bool deriv) {
	Rng &r = c.rng;
	AC ac;
	int k = r.range(0, 2);
	double cc = (double)r.f(0.01, k == 0 ? 0.9 : 2.5), lam = (double)r.f(0.5, 2);
	int n = r.range(1, 10), y = r.range(1, 4), x = r.range(1, 4);
	DV v(n); DM m(y, x);
	auto P = [&]() { double z; do z = pt(r, D_ALL); while (deriv && z == 0); return z; };
	for (double &q : v) q = P();
	for (double &q : m.d) q = P();
	auto F = [&](double z) -> double {
		double e = std::exp(std::min(z, 0.0));
		if (k == 0) return deriv ? (z > 0 ? 1 : cc) : (z > 0 ? z : cc * z);
		double b = deriv ? (z > 0 ? 1 : cc * e) : (z >= 0 ? z : cc * (e - 1));
		return k == 1 ? b : lam * b;
	};
	static const char *nm[] = { "leaky_relu", "elu", "selu" };
	std::string base = std::string(nm[k]) + (deriv ? ".deriv" : "");
	RV V = mkv(v); RM M = mkm(m); RV o; RM q;
	c.label(base + ".scalar");
	for (double z : v) {
		double g = k == 0 ? (deriv ? ac.leaky_relu_derivr(z, cc) : ac.leaky_relu_normr(z, cc)) : k == 1 ? (deriv ? ac.elu_derivr(z, cc) : ac.elu_normr(z, cc)) : (deriv ? ac.selu_derivr(z, lam, cc) : ac.selu_normr(z, lam, cc));
		c.eq("value", g, F(z), 1e-5, 1e-6);
	}
	if (k == 0) { o = deriv ? ac.leaky_relu_derivv(V, cc) : ac.leaky_relu_normv(V, cc); q = deriv ? ac.leaky_relu_derivm(M, cc) : ac.leaky_relu_normm(M, cc); }
	if (k == 1) { o = deriv ? ac.elu_derivv(V, cc) : ac.elu_normv(V, cc); q = deriv ? ac.elu_derivm(M, cc) : ac.elu_normm(M, cc); }
	if (k == 2) { o = deriv ? ac.selu_derivv(V, lam, cc) : ac.selu_normv(V, lam, cc); q = deriv ? ac.selu_derivm(M, lam, cc) : ac.selu_normm(M, lam, cc); }
	DV wv(n); for (int i = 0; i < n; i++) wv[i] = F(v[i]);
	DM wm(y, x); for (size_t i = 0; i < m.d.size(); i++) wm.d[i] = F(m.d[i]);
	c.label(base + ".vector"); cmpv(c, "value", o, wv, 1e-5, 1e-6);
	c.label(base + ".matrix"); cmpm(c, "value", q, wm, 1e-5, 1e-6);
	samev(c, "argument_unchanged", V, v); samem(c, "argument_unchanged", M, m);
	c.count(base.c_str()); c.obs(hsh(hsh(hs(base), v), m.d));
}
UNIT("A01", "parametrised", 600, 20000) { param(c, false); }
UNIT("A02", "parametrised_derivative", 600, 20000) { param(c, true); }

// softmax family: a probability distribution per vector / row, ordered like the input
static DV smx(const DV &z) { double mx = -1e300, s = 0; for (double q : z) mx = std::max(mx, q); DV o; for (double q : z) { o.push_back(std::exp(q - mx)); s += o.back(); } for (double &q : o) q /= s; return o; }
UNIT("A01", "softmax", 1500, 40000) {
	Rng &r = c.rng;
	AC ac;
	bool adj = r.chance(0.5);
	const char *nm = adj ? "adj_softmax" : "softmax";
	AC::ActivationFunction id = adj ? AC::ACTIVATION_FUNCTION_ADJ_SOFTMAX : AC::ACTIVATION_FUNCTION_SOFTMAX;
	int n = r.range(1, 10), y = r.range(1, 5);
	double hi = r.chance(0.2) ? 400 : r.chance(0.2) ? 90 : 6, off = r.chance(0.15) ? (r.chance(0.5) ? 300 : -300) : 0;
	DM m(y, n); for (double &q : m.d) q = (double)(float)(r.uni(-hi, hi) + off);
	if (n > 1 && r.chance(0.1)) m.at(0, 1) = m.at(0, 0);
	DV v(m.d.begin(), m.d.begin() + n);
	RV V = mkv(v); RM M = mkm(m);
	double tol = 3e-5;
	auto dist = [&](const char *form, const DV &g, const DV &z) {
		c.label(std::string(nm) + "." + form);
		DV w = smx(z); double s = 0; bool nn = g.size() == z.size(), ord = true;
		if (!c.check("shape", nn)) return;
		for (double q : g) { s += q; if (!(q >= 0)) nn = false; }
		c.check("non_negative", nn, str(g)); c.eq("sums_to_one", s, 1, 1e-5, 1e-5);
		for (size_t i = 0; i < z.size(); i++) for (size_t j = 0; j < z.size(); j++) if (z[i] > z[j] && !(g[i] >= g[j])) ord = false;
		c.check("ordered", ord, str(z) + " -> " + str(g));
		for (size_t i = 0; i < z.size(); i++) c.eq("value", g[i], w[i], tol, 1e-6);
	};
	auto rows = [&](const char *form, const RM &o) {
		c.label(std::string(nm) + "." + form);
		if (!c.check("shape", o.is_valid() && o->size() == Size2i(n, y))) return;
		DM g = dm(o); for (int i = 0; i < y; i++) dist(form, DV(g.d.begin() + i * n, g.d.begin() + (i + 1) * n), DV(m.d.begin() + i * n, m.d.begin() + (i + 1) * n));
	};
	dist("vector", dv(adj ? ac.adj_softmax_normv(V) : ac.softmax_normv(V)), v);
	rows("matrix", adj ? ac.adj_softmax_normm(M) : ac.softmax_normm(M));
	dist("run_vector", dv(ac.run_activation_norm_vector(id, V)), v);
	rows("run_matrix", ac.run_activation_norm_matrix(id, M));
	dist("run_flag_vector", dv(ac.run_activation_vector(id, V)), v);
	rows("run_flag_matrix", ac.run_activation_matrix(id, M));
	auto pv = ac.get_activation_function_ptr_normal_vector(id); auto qv = ac.get_activation_function_ptr_vector(id);
	auto pm = ac.get_activation_function_ptr_normal_matrix(id); auto qm = ac.get_activation_function_ptr_matrix(id);
	c.label(std::string(nm) + ".ptr");
	if (c.check("present", pv && qv && pm && qm)) {
		dist("ptr_vector", dv((ac.*pv)(V)), v); dist("ptr_flag_vector", dv((ac.*qv)(V)), v);
		rows("ptr_matrix", (ac.*pm)(M)); rows("ptr_flag_matrix", (ac.*qm)(M));
	}
	auto dv2 = ac.get_activation_function_ptr_deriv_vector(id); auto dm2 = ac.get_activation_function_ptr_deriv_matrix(id);
	c.label(std::string(nm) + ".deriv_ptr");
	if (c.check("present", dv2 && dm2 && dv2 == ac.get_activation_function_ptr_vector(id, true) && dm2 == ac.get_activation_function_ptr_matrix(id, true))) {
		dist("deriv_ptr_vector", dv((ac.*dv2)(V)), v); rows("deriv_ptr_matrix", (ac.*dm2)(M));
		dist("run_deriv_vector", dv(ac.run_activation_deriv_vector(id, V)), v); rows("run_deriv_matrix", ac.run_activation_deriv_matrix(id, M));
		dist("run_flag_deriv_vector", dv(ac.run_activation_vector(id, V, true)), v); rows("run_flag_deriv_matrix", ac.run_activation_matrix(id, M, true));
	}
	// the "derivative" forms of the softmax family return distributions too, never crash, and agree between forms
	dist("deriv_vector", dv(adj ? ac.adj_softmax_derivv(V) : ac.softmax_derivv(V)), v);
	rows("deriv_matrix", adj ? ac.adj_softmax_derivm(M) : ac.softmax_derivm(M));
	samev(c, "argument_unchanged", V, v); samem(c, "argument_unchanged", M, m);
	c.count(nm); if (hi > 80 || off) c.count("large_inputs");
	c.obs(hsh(hs(nm), m.d), n > 1);
}
// the softmax Jacobian
UNIT("A02", "softmax_jacobian", 800, 20000) {
	Rng &r = c.rng;
	AC ac;
	int n = r.range(1, 7);
	DV v = gv(r, n, K_STD); if (r.chance(0.15)) for (double &q : v) q = (double)(float)(q * 60);
	RV V = mkv(v); DV s = smx(v); DM w(n, n);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) w.at(i, j) = i == j ? s[i] * (1 - s[i]) : -s[i] * s[j];
	c.label("softmax_jacobian.norm"); cmpm(c, "value", ac.softmax_deriv_normv(V), w, 3e-5, 1e-6);
	c.label("softmax_jacobian.deriv"); cmpm(c, "value", ac.softmax_deriv_derivv(V), w, 3e-5, 1e-6);
	// a batch: one matrix per class, whose line j holds, for every column, the derivative by the j-th value
	DM zm = gm(r, n, r.range(1, 5), K_STD), sm(zm.r, zm.co); RM Z = mkm(zm);
	for (int i = 0; i < zm.r; i++) { DV row(zm.d.begin() + i * zm.co, zm.d.begin() + (i + 1) * zm.co); DV p = smx(row); for (int k = 0; k < zm.co; k++) sm.at(i, k) = p[k]; }
	for (int form = 0; form < 2; form++) {
		c.label(form ? "softmax_jacobian.deriv_batch" : "softmax_jacobian.norm_batch");
		Vector<Ref<MLPPMatrix>> q = form ? ac.softmax_deriv_derivm(Z) : ac.softmax_deriv_normm(Z);
		if (!c.check("count", q.size() == zm.r)) continue;
		for (int i = 0; i < zm.r; i++) {
			DM e(zm.r, zm.co); for (int j = 0; j < zm.r; j++) for (int k = 0; k < zm.co; k++) e.at(j, k) = (i == j ? sm.at(i, k) : 0) - sm.at(i, k) * sm.at(j, k);
			RM qi = q[i]; cmpm(c, "value", qi, e, 3e-5, 1e-6);
		}
	}
	samem(c, "argument_unchanged", Z, zm);
	samev(c, "argument_unchanged", V, v);
	c.obs(hsh(hs("jac"), v), n > 1);
}
