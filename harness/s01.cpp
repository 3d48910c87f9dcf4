// S01: statistics against double-precision textbook definitions; metamorphic: permutation, shift.
#include "vh.h"
#include <algorithm>

static double mean(const DV &v) { double s = 0; for (double x : v) s += x; return s / v.size(); }
static double cov(const DV &a, const DV &b) { double ma = mean(a), mb = mean(b), s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - ma) * (b[i] - mb); return s / (a.size() - 1); }
static double mxa(const DV &a) { double m = 0; for (double x : a) m = std::max(m, std::fabs(x)); return m; }
static DV shuffled(Rng &r, DV v) { for (int i = (int)v.size() - 1; i > 0; i--) std::swap(v[i], v[r.range(0, i)]); return v; }
static DV sampleof(Rng &r, int n) {
	static const std::vector<Kind> ks = { K_STD, K_POS, K_UNIT, K_SMALLINT, K_NONZERO, K_MIX };
	DV v = gv(r, n, r.pick(ks));
	if (r.chance(0.15)) { double o = (double)r.f(-50, 50); for (double &x : v) x = (double)(float)(x + o); }
	if (r.chance(0.2)) for (int i = 1; i < n; i++) if (r.chance(0.4)) v[i] = v[r.range(0, i - 1)];
	if (r.chance(0.1)) std::sort(v.begin(), v.end());
	return v;
}

UNIT("S01", "location", 4000, 150000) {
	Rng &r = c.rng;
	MLPPStat st;
	int n = r.chance(0.05) ? r.range(100, 700) : r.range(1, 15);
	DV v = sampleof(r, n);
	RV V = mkv(v);
	double sc = mxa(v), at = 1e-6 + 4e-7 * sc * (1 + n * 0.02);
	DV s = v; std::sort(s.begin(), s.end());
	double m = mean(v);
	long e0 = errors();
	c.label("mean"); double gm_ = st.meanv(V); c.eq("value", gm_, m, 3e-6, at);
	c.label("median"); double med = st.median(V); c.eq("value", med, n % 2 ? s[n / 2] : (s[n / 2 - 1] + s[n / 2]) / 2, 2e-6, 1e-7);
	c.label("range"); c.eq("value", st.range(V), s.back() - s[0], 2e-6, 1e-7);
	c.label("midrange");
	{
		// known finding: half the range is returned; anything else that is not the midpoint is another violation
		double g = st.midrange(V), want = (s.back() + s[0]) / 2;
		if (!close(g, want, 2e-6, 4e-7 * sc + 1e-7) && close(g, (s.back() - s[0]) / 2, 2e-6, 4e-7 * sc + 1e-7)) c.fail("half_range", strf("midrange of %s is %g, not %g", str(v).c_str(), want, g));
		else c.eq("value", g, want, 2e-6, 4e-7 * sc + 1e-7);
	}
	double dev = 0, q = 0; for (double x : v) { dev += std::fabs(x - m); q += x * x; }
	c.label("abs_avg_deviation"); c.eq("value", st.abs_avg_deviation(V), dev / n, 1e-5, 2 * at);
	c.label("rms"); c.eq("value", st.rms(V), std::sqrt(q / n), 1e-5, 1e-6);
	c.label("mode");
	{
		std::map<double, int> cnt; int best = 0;
		for (double x : v) best = std::max(best, ++cnt[x]);
		DV want; for (auto &k : cnt) if (k.second == best) want.push_back(k.first);
		RV md = st.mode(V);
		if (c.check("valid", md.is_valid())) {
			DV g = dv(md); std::sort(g.begin(), g.end());
			c.check("mode_set", g == want, strf("got %s want %s of %s", str(g).c_str(), str(want).c_str(), str(v).c_str()));
		}
	}
	if (n >= 2) {
		double var = cov(v, v);
		c.label("variance"); c.eq("value", st.variancev(V), var, 3e-5, at * at * 4 + 1e-9);
		c.label("standard_deviation"); c.eq("value", st.standard_deviationv(V), std::sqrt(var), 3e-5, 4 * at);
	}
	c.label("sample_unchanged"); samev(c, "argument_unchanged", V, v);
	// order independence
	RV P = mkv(shuffled(r, v));
	c.label("permutation");
	c.eq("median", st.median(P), med, 0, 0);
	c.eq("mean", st.meanv(P), gm_, 5e-6, 2 * at);
	c.eq("midrange", st.midrange(P), st.midrange(V), 0, 0);
	c.eq("range", st.range(P), st.range(V), 0, 0);
	if (n >= 2) c.eq("variance", st.variancev(P), st.variancev(V), 5e-5, at * at * 8 + 1e-9);
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.obs(hsh(hs("loc"), v), n > 1);
	c.count(n % 2 ? "odd_sample" : "even_sample"); if (n == 1) c.count("single_element"); if (n >= 100) c.count("long_sample");
	c.sample(strf("n=%d sample=%s", n, str(v).substr(0, 120).c_str()));
}

UNIT("S01", "pairs", 3000, 100000) {
	Rng &r = c.rng;
	MLPPStat st;
	int n = r.chance(0.05) ? r.range(50, 300) : r.range(2, 14);
	DV x = sampleof(r, n), y = sampleof(r, n);
	int mode = r.range(0, 3);
	if (mode == 1) { double a = r.f(-3, 3), b = r.f(-3, 3); for (int i = 0; i < n; i++) y[i] = (double)(float)(a + b * x[i]); }
	if (mode == 2) { double b = r.f(-3, 3); for (int i = 0; i < n; i++) y[i] = (double)(float)(b * x[i] + 0.3 * y[i]); }
	if (mode == 3) y = x;
	RV X = mkv(x), Y = mode == 3 ? X : mkv(y);
	double sx = mxa(x), sy = mxa(y), cv = cov(x, y), vx = cov(x, x), vy = cov(y, y);
	double at = 3e-6 * (1e-3 + std::sqrt(vx * vy)) + 1e-12 * sx * sy + 1e-7;
	double rel = 3e-5;
	c.label("covariance"); c.eq("value", st.covariancev(X, Y), cv, rel, at);
	c.eq("symmetric", st.covariancev(Y, X), st.covariancev(X, Y), 1e-6, 1e-7);
	if (vx > 1e-4 * (1 + sx * sx) ) {
		double b1 = cv / vx, b0 = mean(y) - b1 * mean(x);
		double bt = 5e-5 * (1e-2 + std::fabs(b1) + std::sqrt(vy / vx));
		c.label("b1_estimation"); c.eq("value", st.b1_estimation(X, Y), b1, 1e-4, bt);
		c.label("b0_estimation"); c.eq("value", st.b0_estimation(X, Y), b0, 1e-4, bt * (1 + sx) + 2e-6 * sy);
		if (vy > 1e-4 * (1 + sy * sy)) {
			double co = cv / std::sqrt(vx * vy);
			c.label("correlation"); double g = st.correlation(X, Y); c.eq("value", g, co, 1e-4, 1e-4);
			c.check("bounded", std::fabs(g) <= 1.001);
			c.label("r2"); c.eq("value", st.r2(X, Y), co * co, 2e-4, 2e-4);
		}
	}
	DV w = gv(r, n, K_POS); double sw = 0, sxw = 0, sa = 0; for (int i = 0; i < n; i++) { sw += w[i]; sxw += w[i] * x[i]; sa += w[i] * std::fabs(x[i]); }
	RV W = mkv(w);
	c.label("weighted_mean"); c.eq("value", st.weighted_mean(X, W), sxw / sw, 1e-5, 1e-6 + 2e-6 * sa / sw);
	c.label("arguments"); samev(c, "argument_unchanged", X, x); samev(c, "argument_unchanged", Y, y); samev(c, "argument_unchanged", W, w);
	c.count(mode == 3 ? "aliased_pair" : "pair"); c.obs(hsh(hsh(hs("pair"), x), y));
	c.label("refusal");
	long e0 = errors();
	RV S = newv(n + 1); S->fill(1);
	double d = st.covariancev(X, S); double d2 = st.weighted_mean(X, S);
	c.check("refused", errors() >= e0 + 2 && d == 0 && d2 == 0, "length mismatch accepted");
	e0 = errors();
	st.covariancev(X, RV()); st.correlation(RV(), X); st.r2(RV(), RV()); st.b0_estimation(X, RV()); st.b1_estimation(RV(), X); st.weighted_mean(RV(), X);
	c.check("refused_null", errors() >= e0 + 6, "missing operand");
}

UNIT("S01", "means", 3000, 100000) {
	Rng &r = c.rng;
	MLPPStat st;
	bool big = r.chance(0.1);
	int n = big ? r.range(50, 400) : r.range(1, 12);
	DV x(n), w = gv(r, n, K_POS);
	double lo = r.chance(0.3) ? 0.01 : 0.3, hi = r.chance(0.3) ? 40 : 4;
	for (double &v : x) v = (double)r.f(lo, hi);
	if (r.chance(0.1)) for (double &v : x) v = x[0];
	RV X = mkv(x), W = mkv(w);
	double lg = 0, inv = 0, q = 0, m = mean(x);
	for (double v : x) { lg += std::log(v); inv += 1 / v; q += v * v; }
	double gmv = std::exp(lg / n), hmv = n / inv;
	c.label("geometric_mean"); double g = st.geometric_mean(X); c.eq("value", g, gmv, 1e-5 + 1e-6 * n * 0.1, 1e-7);
	c.label("harmonic_mean"); double h = st.harmonic_mean(X); c.eq("value", h, hmv, 2e-5, 1e-7);
	c.label("contra_harmonic_mean"); double ch = st.contra_harmonic_mean(X); c.eq("value", ch, q / (m * n), 2e-5, 1e-7);
	double rm = st.rms(X);
	c.label("inequality_chain"); c.check("ordered", h <= g * 1.0001 && g <= m * 1.0001 && m <= rm * 1.0001 && rm <= ch * 1.0001, strf("H=%g G=%g A=%g Q=%g C=%g", h, g, m, rm, ch));
	static const std::vector<double> ps = { -2, -1, -0.5, 0.5, 1, 1.5, 2, 3 };
	double p = r.pick(ps);
	double sp = 0, num = 0, den = 0, wn = 0, wd = 0;
	for (int i = 0; i < n; i++) { sp += std::pow(x[i], p); num += std::pow(x[i], p); den += std::pow(x[i], p - 1); wn += w[i] * std::pow(x[i], p); wd += w[i] * std::pow(x[i], p - 1); }
	c.label("power_mean"); c.eq("value", st.power_mean(X, p), std::pow(sp / n, 1 / p), 5e-5, 1e-7);
	c.label("lehmer_mean"); c.eq("value", st.lehmer_mean(X, p), num / den, 5e-5, 1e-7);
	c.label("weighted_lehmer_mean"); c.eq("value", st.weighted_lehmer_mean(X, W, p), wn / wd, 5e-5, 1e-7);
	samev(c, "argument_unchanged", X, x); samev(c, "argument_unchanged", W, w);
	c.obs(hsh(hs("means"), x), n > 1); if (big) c.count("long_sample");
}

UNIT("S01", "two_number_means", 3000, 100000) {
	Rng &r = c.rng;
	MLPPStat st;
	double a = r.f(0.05, r.chance(0.3) ? 60 : 5), b = r.f(0.05, r.chance(0.3) ? 60 : 5);
	bool same = r.chance(0.1); if (same) b = a;
	else if (std::fabs(a - b) < 0.2 * std::max(a, b)) b = (double)(float)(a * 1.5);
	double x = r.f(0, 1);
	c.label("heronian_mean"); c.eq("value", st.heronian_mean(a, b), (a + std::sqrt(a * b) + b) / 3, 1e-5, 1e-7);
	c.label("heinz_mean"); c.eq("value", st.heinz_mean(a, b, x), (std::pow(a, x) * std::pow(b, 1 - x) + std::pow(a, 1 - x) * std::pow(b, x)) / 2, 2e-5, 1e-7);
	c.label("neuman_sandor_mean");
	{
		double g = st.neuman_sandor_mean(a, b), ar = std::asinh((a - b) / (a + b)), want = same ? a : (a - b) / (2 * ar);
		if (!close(g, want, 3e-5, 1e-7) && close(g, (a - b) / 2 * ar, 3e-5, 3e-6)) c.fail("arsinh_multiplied", strf("neuman_sandor_mean(%g, %g) is %g, not %g", a, b, want, g)); // known finding
		else c.eq("value", g, want, 3e-5, 1e-7);
	}
	static const std::vector<double> ps = { -2, -1, 0.5, 2, 3, 1.5 };
	double p = r.pick(ps);
	c.label("stolarsky_mean"); c.eq("value", st.stolarsky_mean(a, b, p), same ? a : std::pow((std::pow(a, p) - std::pow(b, p)) / (p * (a - b)), 1 / (p - 1)), 1e-4, 1e-7);
	c.label("identric_mean"); c.eq("value", st.identric_mean(a, b), same ? a : std::exp((a * std::log(a) - b * std::log(b)) / (a - b) - 1), 5e-5, 1e-7);
	c.label("log_mean"); c.eq("value", st.log_mean(a, b), same ? a : (a - b) / (std::log(a) - std::log(b)), 3e-5, 1e-7);
	double k = r.f(0.3, 8);
	c.label("chebyshev_ineq"); c.eq("value", st.chebyshev_ineq(k), 1 - 1 / (k * k), 1e-5, 1e-6);
	c.label("symmetric");
	c.eq("heronian", st.heronian_mean(b, a), st.heronian_mean(a, b), 1e-6, 0); c.eq("log", st.log_mean(b, a), st.log_mean(a, b), 1e-5, 0);
	c.eq("identric", st.identric_mean(b, a), st.identric_mean(a, b), 1e-4, 0); c.eq("ns", st.neuman_sandor_mean(b, a), st.neuman_sandor_mean(a, b), 1e-4, 0);
	c.obs(hsh(hsh(hs("two"), DV{ a, b }), DV{ x, p, k }), !same); if (same) c.count("equal_arguments");
}
