// K02: regularisation penalty, derivative and weight step.
#include "vh.h"
typedef MLPPReg RG;
UNIT("K02", "regularisation", 6000, 200000) {
	Rng &r = c.rng;
	RG rg;
	int kind = r.range(0, 4); RG::RegularizationType t = (RG::RegularizationType)kind;
	static const char *nms[] = { "none", "ridge", "lasso", "elastic_net", "weight_clipping" };
	std::string nm = nms[kind];
	int y = r.range(1, 5), x = r.range(1, 5), n = y * x;
	double la = r.chance(0.1) ? 0 : (double)r.f(0.001, 2), al = r.chance(0.1) ? r.range(0, 1) : (double)r.f(0, 1);
	if (kind == 4) { la = r.f(-2, 0.5); al = r.f(la, 2.5); if (al < la) al = la; }
	DV w(n); for (double &v : w) { v = r.f(-3, 3); if (r.chance(0.1)) v = 0; if (kind == 4 && r.chance(0.1)) v = r.chance(0.5) ? la : al; }
	DM m(y, x); m.d = w;
	RV V = mkv(w); RM M = mkm(m);
	double pen = 0; DV d(n), st(n);
	for (int i = 0; i < n; i++) {
		double v = w[i], s = v > 0 ? 1 : v < 0 ? -1 : 0;
		switch (kind) {
			case 1: pen += la * v * v / 2; d[i] = la * v; break;
			case 2: pen += la * std::fabs(v); d[i] = la * s; break;
			case 3: pen += la * (al * std::fabs(v) + (1 - al) * v * v / 2); d[i] = la * (al * s + (1 - al) * v); break;
			default: d[i] = 0;
		}
		st[i] = kind == 4 ? std::min(std::max(v, la), al) : v - d[i];
	}
	long e0 = errors();
	c.label(nm + ".penalty"); c.eq("vector", rg.reg_termv(V, la, al, t), pen, 2e-5, 1e-6); c.eq("matrix", rg.reg_termm(M, la, al, t), pen, 2e-5, 1e-6);
	if (kind != 4) {
		c.label(nm + ".derivative"); RV D = rg.reg_deriv_termv(V, la, al, t); cmpv(c, "vector", D, d, 1e-5, 1e-6);
		DM dd(y, x); dd.d = d; cmpm(c, "matrix", rg.reg_deriv_termm(M, la, al, t), dd, 1e-5, 1e-6);
		// the derivative is the slope of the implementation's own penalty (central difference in double-free form)
		if (kind != 0 && D.is_valid() && D->size() == n) {
			int i = r.range(0, n - 1); double h = 0.0625;
			if (std::fabs(w[i]) > 0.1) { RV P = mkv(w), N = mkv(w); P->element_set(i, w[i] + h); N->element_set(i, w[i] - h); c.eq("slope_of_penalty", (rg.reg_termv(P, la, al, t) - rg.reg_termv(N, la, al, t)) / (2 * h), D->element_get(i), 1e-3, 4e-6 * (1 + pen) / h); }
		}
	}
	c.label(nm + ".weights"); RV S = rg.reg_weightsv(V, la, al, t); DM sm(y, x); sm.d = st; RM SM = rg.reg_weightsm(M, la, al, t);
	if (kind == 4 || kind == 0) { samev(c, "vector", S, st); samem(c, "matrix", SM, sm); }
	else { cmpv(c, "vector", S, st, 1e-5, 1e-6); cmpm(c, "matrix", SM, sm, 1e-5, 1e-6); }
	c.label(nm + ".unchanged"); samev(c, "argument_unchanged", V, w); samem(c, "argument_unchanged", M, m);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count(nm.c_str()); c.obs(hsh(hsh(hs(nm), w), DV{ la, al }), kind != 0);
	if (r.chance(0.01)) c.sample(strf("%s lambda=%g alpha=%g penalty=%g", nm.c_str(), la, al, pen));
}
