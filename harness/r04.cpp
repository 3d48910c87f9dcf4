// R04: random generator contract and scalar math helpers of the platform.
#include "vh.h"
#include <algorithm>
#include <climits>
#include <set>

static double spread(Rng &r) { switch (r.range(0, 5)) { case 0: return r.range(-4, 4); case 1: return r.range(-40, 40) * 0.25; case 2: return r.uni(-1e4, 1e4); case 3: return r.uni(-1, 1); default: return r.uni(-20, 20); } }
static double fl(double v) { return (double)(float)v; }
static bool near(double g, double w, double t) { return std::isfinite(g) && std::fabs(g - w) <= t * (1 + std::fabs(w)); }

UNIT("R04", "generator", 6000, 250000) {
	Rng &r = c.rng; uint64_t s = r.chance(0.2) ? (uint64_t)r.range(0, 3) : r.next(), inc = r.next(); bool own = r.chance(0.5);
	RandomPCG a = own ? RandomPCG(s, inc) : RandomPCG(s), b = own ? RandomPCG(s, inc) : RandomPCG(s); int n = r.range(1, 40); std::vector<uint32_t> first; c.label("rand");
	for (int i = 0; i < n; i++) { first.push_back(a.rand()); c.check("same_seed", b.rand() == first.back(), strf("draw %d of two generators with seed %llu differs", i, (unsigned long long)s)); }
	if (n >= 8) c.check("varies", std::set<uint32_t>(first.begin(), first.end()).size() > 4, strf("seed %llu: almost constant sequence", (unsigned long long)s));
	c.check("get_seed", a.get_seed() == s, "get_seed differs from the seed"); c.label("seed"); a.seed(s); for (int i = 0; i < n; i++) c.check("replay", a.rand() == first[i], strf("draw %d after reseeding differs", i));
	c.label("set_state"); uint64_t st = a.get_state(); std::vector<uint32_t> tail; for (int i = 0; i < 10; i++) tail.push_back(a.rand()); a.set_state(st); for (int i = 0; i < 10; i++) c.check("replay", a.rand() == tail[i], "the sequence after restoring the state differs");
	uint64_t s2 = s + 1 + r.range(0, 5); RandomPCG d(s2); RandomPCG e(s); std::vector<uint32_t> x, y; for (int i = 0; i < 6; i++) { x.push_back(d.rand()); y.push_back(e.rand()); } c.check("seeds_differ", x != y, strf("seeds %llu and %llu give the same sequence", (unsigned long long)s, (unsigned long long)s2));
	c.label("global"); Math::seed(s); std::vector<double> g; auto draws = [&](std::vector<double> &o) { for (int i = 0; i < 6; i++) { o.push_back(Math::rand()); o.push_back(Math::randd()); o.push_back(Math::randf()); o.push_back(Math::random(-5, 9)); o.push_back(Math::random(-1.5, 2.5)); o.push_back(Math::random(-1.5f, 2.5f)); o.push_back(Math::randomr(0, 3)); o.push_back(Math::randomi(2, 4)); o.push_back(Math::randfn(0.0, 1.0)); } }; draws(g); Math::seed(s); std::vector<double> g2; draws(g2); c.check("replay", g == g2, "the global generator does not repeat its sequence after seeding");
	c.label("rand_from_seed"); uint64_t q = s, p = s; c.check("repeatable", Math::rand_from_seed(&q) == Math::rand_from_seed(&p) && q == p, "rand_from_seed depends on more than its seed"); c.obs(hsh(hsh(1, s), first.back()), true);
}
UNIT("R04", "ranges", 8000, 400000) {
	Rng &r = c.rng; RandomPCG g(r.next()); c.label("random.int");
	int lo, hi; switch (r.range(0, 4)) { case 0: lo = r.range(-10, 10); hi = lo + r.range(0, 7); break; case 1: lo = r.range(-100000, 100000); hi = r.range(-100000, 100000); break; case 2: lo = r.range(-1000000000, 1000000000); hi = r.range(-1000000000, 1000000000); break; case 3: lo = (int)r.next(); hi = (int)r.next(); break; default: lo = r.chance(0.5) ? INT_MIN : INT_MIN + r.range(0, 3); hi = r.chance(0.5) ? INT_MAX : INT_MAX - r.range(0, 3); }
	if (r.chance(0.2)) std::swap(lo, hi); long long mn = std::min(lo, hi), mx = std::max(lo, hi); std::set<int> seen; int n = mx - mn <= 7 ? 400 : 60; bool gl = r.chance(0.3); if (gl) Math::seed(r.next());
	for (int i = 0; i < n; i++) { int v = gl ? (r.chance(0.5) ? Math::random(lo, hi) : Math::randomi(lo, hi)) : g.random(lo, hi); seen.insert(v); c.check("bounds", v >= mn && v <= mx, strf("random(%d, %d) = %d", lo, hi, v)); }
	if (mx - mn <= 7) c.check("every_value", (long long)seen.size() == mx - mn + 1, strf("random(%d, %d) gave %d different values in 400 draws", lo, hi, (int)seen.size())); else c.check("varies", seen.size() > (mx - mn < 40 ? 5 : 10), strf("random(%d, %d) gave %d different values in 60 draws", lo, hi, (int)seen.size()));
	if (mx - mn > 1000) { long long mid = mn + (mx - mn) / 2; int low = 0; for (int v : seen) low += v <= mid; c.check("both_halves", low > 0 && low < (int)seen.size(), strf("random(%d, %d) stays in one half of its range", lo, hi)); }
	c.label("rand.bounded"); uint32_t bd = r.chance(0.5) ? (uint32_t)r.range(1, 9) : (uint32_t)r.next() | 1u; std::set<uint32_t> sb; for (int i = 0; i < (bd < 10 ? 400 : 40); i++) { uint32_t v = g.rand(bd); sb.insert(v); c.check("bounds", v < bd, strf("rand(%u) = %u", bd, v)); } if (bd < 10) c.check("every_value", sb.size() == bd, strf("rand(%u) gave %d different values in 400 draws", bd, (int)sb.size()));
	c.label("random.real"); double a = spread(r), b = spread(r); double da = std::min(a, b), db = std::max(a, b), mnv = 1e300, mxv = -1e300; float fa = a, fb = b; double lf = std::min(fa, fb), hf = std::max(fa, fb);
	for (int i = 0; i < 60; i++) { double v = g.random(a, b); mnv = std::min(mnv, v); mxv = std::max(mxv, v); c.check("bounds_double", v >= da - 1e-12 * (1 + std::fabs(da)) && v <= db + 1e-12 * (1 + std::fabs(db)), strf("random(%.17g, %.17g) = %.17g", a, b, v)); double w = r.chance(0.5) ? g.random(fa, fb) : g.randomr(fa, fb), t = 2e-7 * (std::fabs(lf) + std::fabs(hf) + 1e-30); c.check("bounds_float", w >= lf - t && w <= hf + t, strf("random(%.9gf, %.9gf) = %.9g", fa, fb, w)); }
	if (db - da > 1e-3) c.check("spread", mxv - mnv > 0.5 * (db - da), strf("60 draws of random(%g, %g) stay within [%g, %g]", a, b, mnv, mxv));
	c.label("randf"); for (int i = 0; i < 30; i++) { double v = g.randf(), w = g.randd(), x = Math::randf(), y = Math::randd(); c.check("unit", v >= 0 && v <= 1 && w >= 0 && w <= 1 && x >= 0 && x <= 1 && y >= 0 && y <= 1, strf("a unit draw left [0, 1]: %g %g %g %g", v, w, x, y)); }
	c.obs(hsh(hsh(2, (uint64_t)(uint32_t)lo), DV{ a, b, (double)hi }), mx > mn);
}
UNIT("R04", "shuffle", 5000, 200000) {
	Rng &r = c.rng; c.label("Array.shuffle"); int n = r.range(0, 12); uint64_t s = r.next(); std::vector<int> in; for (int i = 0; i < n; i++) in.push_back(r.range(-3, 6));
	auto run = [&]() { Math::seed(s); Array a; for (int v : in) a.push_back(v); a.shuffle(); std::vector<int> o; for (int i = 0; i < a.size(); i++) o.push_back((int)a[i]); return o; };
	std::vector<int> x = run(), y = run(); c.check("repeatable", x == y, "the same seed gives another order"); y = in; std::sort(y.begin(), y.end()); std::vector<int> z = x; std::sort(z.begin(), z.end()); c.check("permutation", y == z, "shuffling changed the elements");
	if (r.chance(0.05)) { std::set<int> last, first; for (int t = 0; t < 200; t++) { Math::seed(s + t); Array a; for (int i = 0; i < 4; i++) a.push_back(i); a.shuffle(); first.insert(a[0]); last.insert(a[3]); } c.check("every_place", first.size() == 4 && last.size() == 4, "some element never reaches the first or last place in 200 shuffles"); c.count("coverage runs"); }
	c.obs(hsh(hsh(3, s), (uint64_t)n), n > 1);
}

UNIT("R04", "real_helpers", 12000, 600000) {
	Rng &r = c.rng; double a = fl(spread(r)), b = fl(spread(r)), w = fl(r.chance(0.3) ? r.range(0, 4) * 0.25 : r.uni(-0.5, 1.5)), x = fl(spread(r)), y = fl(spread(r)); const float fa = a, fb = b, fw = w, fx = x, fy = y;
	auto T = [&](const char *n, double gd, double gf, double want, double td = 1e-11, double tf = 4e-5, double sc = 0) { c.label(n); if (!sc) sc = 1 + std::fabs(want); c.check("double", std::isfinite(gd) && std::fabs(gd - want) <= td * sc, strf("(%.9g, %.9g, %.9g, %.9g; %.9g): got %.17g, want %.17g", a, b, x, y, w, gd, want)); c.check("float", std::isfinite(gf) && std::fabs(gf - want) <= tf * sc, strf("(%.9g, %.9g, %.9g, %.9g; %.9g): got %.9g, want %.9g", a, b, x, y, w, gf, want)); };
	const double S = 1 + std::fabs(a) + std::fabs(b) + std::fabs(x) + std::fabs(y), SW = S * (1 + w * w * std::fabs(w)) * 4;
	T("lerp", Math::lerp(a, b, w), Math::lerp(fa, fb, fw), a + (b - a) * w, 1e-12, 2e-6, SW);
	if (std::fabs(b - a) > 1e-2) { double q = (x - a) / (b - a); T("inverse_lerp", Math::inverse_lerp(a, b, x), Math::inverse_lerp(fa, fb, fx), q, 1e-10, 2e-6, S / std::fabs(b - a) * (1 + std::fabs(q))); T("range_lerp", Math::range_lerp(x, a, b, y, w), Math::range_lerp(fx, fa, fb, fy, fw), y + (w - y) * q, 1e-10, 4e-6, SW * (1 + std::fabs(q)) * (1 + S / std::fabs(b - a)));
		double s = std::min(1.0, std::max(0.0, q)); T("smoothstep", Math::smoothstep(a, b, x), Math::smoothstep(fa, fb, fx), s * s * (3 - 2 * s), 1e-9, 2e-5, 1 + S / std::fabs(b - a)); }
	T("cubic_interpolate", Math::cubic_interpolate(a, b, x, y, w), Math::cubic_interpolate(fa, fb, fx, fy, fw), 0.5 * (2 * a + (b - x) * w + (2 * x - 5 * a + 4 * b - y) * w * w + (-x + 3 * a - 3 * b + y) * w * w * w), 1e-11, 4e-6, SW * 5);
	{ double o = 1 - w; T("bezier_interpolate", Math::bezier_interpolate(a, x, y, b, w), Math::bezier_interpolate(fa, fx, fy, fb, fw), o * o * o * a + 3 * o * o * w * x + 3 * o * w * w * y + w * w * w * b, 1e-11, 4e-6, SW * 8); }
	{ double d = std::fabs(w) * 3; T("move_toward", Math::move_toward(a, b, d), Math::move_toward(fa, fb, (float)d), std::fabs(b - a) <= d ? b : a + (b > a ? d : -d), 1e-12, 1e-6, S); }
	{ double q = (b - a) / (2 * M_PI); q = (q - std::round(q)) * 2 * M_PI; if (std::fabs(std::fabs(q) - M_PI) > 1e-2) T("lerp_angle", Math::lerp_angle(a, b, w), Math::lerp_angle(fa, fb, fw), a + q * w, 1e-11, 4e-6, SW); }
	T("deg2rad", Math::deg2rad(a), Math::deg2rad(fa), a * M_PI / 180, 1e-13, 1e-6); T("rad2deg", Math::rad2deg(a), Math::rad2deg(fa), a * 180 / M_PI, 1e-13, 1e-6);
	if (std::fabs(b) > 0.05) {
		double m = a - b * std::floor(a / b), al = std::fabs(m - b) < 1e-4 * S || std::fabs(m) < 1e-4 * S;
		if (!al || m == 0) { T("fposmod", Math::fposmod(a, b), Math::fposmod(fa, fb), m, 1e-11, 2e-6, S * (1 + std::fabs(a / b))); double ab = std::fabs(b), mp = a - ab * std::floor(a / ab); if (std::fabs(mp - ab) > 1e-4 * S) T("fposmodp", Math::fposmodp(a, ab), Math::fposmodp(fa, (float)ab), mp, 1e-11, 2e-6, S * (1 + std::fabs(a / b))); }
		double L = std::fabs(b), t = a - 2 * L * std::floor(a / (2 * L)); T("pingpong", Math::pingpong(a, L), Math::pingpong(fa, (float)L), L - std::fabs(t - L), 1e-10, 1e-5, S * (1 + std::fabs(a / b)));
		double st = Math::stepify(a, b), k = st / b; c.label("stepify"); c.check("multiple", std::fabs(k - std::round(k)) <= 1e-9 * (1 + std::fabs(k)), strf("stepify(%.9g, %.9g) = %.17g is not a multiple of the step", a, b, st)); c.check("nearest", std::fabs(st - a) <= std::fabs(b) * (0.5 + 1e-9) + 1e-11 * S, strf("stepify(%.9g, %.9g) = %.17g is not nearest", a, b, st)); c.check("zero_step", Math::stepify(a, 0) == a, "a zero step changes the value");
		double fr = (a - x) / b - std::floor((a - x) / b); if (std::fabs(fr - 0.5) > 1e-3) { c.label("snap_scalar"); double g = Math::snap_scalar(fx, fb, fa), wt = x + b * std::floor((a - x) / b + 0.5); c.check("value", std::fabs(g - wt) <= 1e-5 * S, strf("snap_scalar(%.9g, %.9g, %.9g) = %.9g, want %.9g", x, b, a, g, wt)); }
	}
	c.label("snap_scalar"); c.check("zero_step", Math::snap_scalar(fx, 0, fa) == fa, "a zero step changes the value");
	if (b - a > 0.05) { double rg = b - a, q = (x - a) / rg, m = x - rg * std::floor(q), fr = q - std::floor(q); if (fr < 1 - 1e-3 && (fr > 1e-3 || m == x)) { T("wrapf", Math::wrapf(x, a, b), Math::wrapf(fx, fa, fb), m, 1e-10, 4e-6, S * (1 + std::fabs(q))); } double v = Math::wrapf(x, a, b); c.label("wrapf"); c.check("range", v >= a - 1e-9 * S && v <= b + 1e-9 * S, strf("wrapf(%.9g, %.9g, %.9g) = %.17g", x, a, b, v)); c.check("max", Math::wrapf(b, a, b) == a, "the upper bound wraps to the lower one"); }
	T("fract", Math::fract(a), Math::fract(fa), a - std::floor(a), 1e-12, 1e-6, S); c.label("round"); c.check("value", Math::round(a) == std::round(a) && Math::round(fa) == std::round(fa) && Math::floor(a) == std::floor(a) && Math::ceil(a) == std::ceil(a) && Math::floor(fa) == std::floor(fa) && Math::ceil(fa) == std::ceil(fa), strf("rounding %.17g", a));
	c.label("abs"); c.check("value", Math::abs(a) == std::fabs(a) && Math::abs(fa) == std::fabs(fa) && Math::absf(fa) == std::fabs(a) && Math::absd(a) == std::fabs(a) && !std::signbit(Math::abs(-0.0)), strf("abs(%.17g)", a));
	c.label("macros"); c.check("min_max", MIN(a, b) == std::min(a, b) && MAX(a, b) == std::max(a, b), "MIN or MAX"); c.check("abs", ABS(a) == std::fabs(a) && ABSDIFF(a, b) == std::fabs(a - b), "ABS or ABSDIFF"); c.check("sgn", a == 0 || SGN(a) == (a < 0 ? -1 : 1), "SGN"); { double lo = std::min(a, b), hi = std::max(a, b); c.check("clamp", CLAMP(x, lo, hi) == std::min(hi, std::max(lo, x)), strf("CLAMP(%.9g, %.9g, %.9g)", x, lo, hi)); double p = a, q = b; SWAP(p, q); c.check("swap", p == b && q == a, "SWAP"); }
	double pv = std::fabs(a) + 1e-3; T("log", Math::log(pv), Math::log((float)pv), std::log(pv), 1e-13, 1e-6); T("log2", Math::log2(pv), Math::log2((float)pv), std::log2(pv), 1e-13, 1e-6); T("log10", Math::log10(pv), Math::log10((float)pv), std::log10(pv), 1e-13, 1e-6); T("log1p", Math::log1p(pv), Math::log1p((float)pv), std::log1p(pv), 1e-13, 1e-6); T("sqrt", Math::sqrt(pv), Math::sqrt((float)pv), std::sqrt(pv), 1e-13, 1e-6);
	double e = std::max(-30.0, std::min(30.0, a)); const float fe = e; T("exp", Math::exp(e), Math::exp(fe), std::exp(e), 1e-13, 1e-5); T("exp2", Math::exp2(e), Math::exp2(fe), std::exp2(e), 1e-13, 1e-5); T("pow", Math::pow(1.5, e), Math::pow(1.5f, fe), std::pow(1.5, e), 1e-13, 1e-5); T("erf", Math::erf(e), Math::erf(fe), std::erf(e), 1e-13, 1e-6); T("sinh", Math::sinh(e), Math::sinh(fe), std::sinh(e), 1e-13, 1e-5); T("cosh", Math::cosh(e), Math::cosh(fe), std::cosh(e), 1e-13, 1e-5); T("tanh", Math::tanh(e), Math::tanh(fe), std::tanh(e), 1e-13, 1e-6);
	T("sin", Math::sin(e), Math::sin(fe), std::sin(e), 1e-13, 1e-6); T("cos", Math::cos(e), Math::cos(fe), std::cos(e), 1e-13, 1e-6); T("atan", Math::atan(e), Math::atan(fe), std::atan(e), 1e-13, 1e-6); if (std::fabs(std::cos(e)) > 0.05) T("tan", Math::tan(e), Math::tan(fe), std::tan(e), 1e-12, 1e-4); if (a != 0 || b != 0) T("atan2", Math::atan2(a, b), Math::atan2(fa, fb), std::atan2(a, b), 1e-13, 1e-6);
	double u = w; T("asin", Math::asin(u), Math::asin(fw), std::asin(std::max(-1.0, std::min(1.0, u))), 1e-12, 1e-5); T("acos", Math::acos(u), Math::acos(fw), std::acos(std::max(-1.0, std::min(1.0, u))), 1e-12, 1e-5); if (e != 0) { T("sinc", Math::sinc(e), Math::sinc(fe), std::sin(e) / e, 1e-12, 1e-5); T("sincn", Math::sincn(e), Math::sincn(fe), std::sin(M_PI * e) / (M_PI * e), 1e-11, 1e-4); }
	c.check("sinc_zero", Math::sinc(0.0) == 1 && Math::sinc(0.0f) == 1, "sinc(0)"); T("linear2db", Math::linear2db(pv), Math::linear2db((float)pv), 20 * std::log10(pv), 1e-12, 4e-6, 20 + 9 * std::fabs(std::log(pv))); T("db2linear", Math::db2linear(e), Math::db2linear(fe), std::pow(10, e / 20), 1e-12, 1e-5);
	c.label("dectime"); { double dt = Math::dectime(a, std::fabs(x), std::fabs(w)), wt = std::max(0.0, std::fabs(a) - std::fabs(x) * std::fabs(w)) * (a < 0 ? -1 : 1); c.check("value", std::fabs(dt - wt) <= 1e-11 * S, strf("dectime(%.9g, %.9g, %.9g) = %.17g, want %.17g", a, std::fabs(x), std::fabs(w), dt, wt)); }
	c.label("is_equal_approx"); { double d = (r.chance(0.5) ? r.uni(0, 2e-5) : r.uni(0, 1e-3)) * (r.chance(0.5) ? 1 : -1) * (r.chance(0.5) ? 1 : 1 + std::fabs(a)), bb = a + d, tol = std::max(1e-5, 1e-5 * std::fabs(a)), dd = std::fabs(a - bb); if (std::fabs(dd - tol) > 1e-3 * tol) c.check("double", Math::is_equal_approx(a, bb) == (dd < tol), strf("is_equal_approx(%.17g, %.17g)", a, bb)); double fd = std::fabs(a - fl(bb)); if (std::fabs(fd - tol) > 0.02 * tol) c.check("float", Math::is_equal_approx(fa, (float)bb) == (fd < tol), strf("is_equal_approx(%.9gf, %.9gf)", a, fl(bb))); double t2 = r.uni(1e-6, 1e-3); if (std::fabs(dd - t2) > 1e-3 * t2) c.check("tolerance", Math::is_equal_approx(a, bb, t2) == (dd < t2), "explicit tolerance"); if (std::fabs(d) < 9e-6 || std::fabs(d) > 1.1e-5) c.check("zero", Math::is_zero_approx(d) == (std::fabs(d) < 1e-5) && Math::is_zero_approx((float)d) == (std::fabs(d) < 1e-5), "is_zero_approx"); c.check("infinity", Math::is_equal_approx(INFINITY, INFINITY) && !Math::is_equal_approx(INFINITY, -INFINITY) && Math::is_equal_approx((double)INFINITY, (double)INFINITY), "infinite values"); }
	c.label("is_nan"); c.check("classes", Math::is_nan((double)NAN) && Math::is_nan((float)NAN) && !Math::is_nan(a) && !Math::is_nan((double)INFINITY) && Math::is_inf((double)INFINITY) && Math::is_inf(-INFINITY) && Math::is_inf((double)-INFINITY) && !Math::is_inf(a) && !Math::is_inf((double)NAN) && !Math::is_inf(fa), "is_nan or is_inf");
	c.label("ease"); { double cc = r.chance(0.1) ? 0 : r.uni(-4, 4), t = std::max(-0.2, std::min(1.2, w)), q = std::max(0.0, std::min(1.0, t)), wt = cc > 0 ? (cc < 1 ? 1 - std::pow(1 - q, 1 / cc) : std::pow(q, cc)) : cc < 0 ? (q < 0.5 ? std::pow(2 * q, -cc) / 2 : 1 - std::pow(2 * (1 - q), -cc) / 2) : 0; c.check("value", near(Math::ease(t, cc), wt, 1e-10), strf("ease(%.9g, %.9g) = %.17g, want %.17g", t, cc, Math::ease(t, cc), wt)); }
	c.label("fast_ftoi"); { double fr = a - std::floor(a); if (std::fabs(fr - 0.5) > 1e-3) c.check("value", Math::fast_ftoi(fa) == (int)std::lround(a), strf("fast_ftoi(%.9g)", a)); }
	c.obs(hsh(4, DV{ a, b, x, y, w }), true);
}
UNIT("R04", "integer_helpers", 12000, 600000) {
	Rng &r = c.rng; auto I = [&]() -> int64_t { switch (r.range(0, 3)) { case 0: return r.range(-10, 10); case 1: return r.range(-100000, 100000); case 2: return (int64_t)(r.next() >> 3) - ((int64_t)1 << 60); default: return r.range(-3, 3); } };
	int64_t v = I(), m = I(); if (m) { c.label("posmod"); __int128 w = ((__int128)v % m + m) % m; int64_t g = Math::posmod(v, m); c.check("value", g == (int64_t)w, strf("posmod(%lld, %lld) = %lld, want %lld", (long long)v, (long long)m, (long long)g, (long long)w)); }
	{ int64_t lo = r.chance(0.8) ? r.range(-50, 50) : (int64_t)r.range(-1000000000, 1000000000), hi = lo + (r.chance(0.1) ? 0 : r.range(1, 100)), x = r.chance(0.7) ? lo + r.range(-400, 400) : (int64_t)(r.next() >> 4) - ((int64_t)1 << 58); c.label("wrapi"); __int128 rg = hi - lo, w = rg == 0 ? (__int128)lo : lo + (((__int128)x - lo) % rg + rg) % rg; int64_t g = Math::wrapi(x, lo, hi); c.check("value", g == (int64_t)w, strf("wrapi(%lld, %lld, %lld) = %lld, want %lld", (long long)x, (long long)lo, (long long)hi, (long long)g, (long long)w)); }
	c.label("abs"); int iv = (int)r.next() | 1; c.check("int", Math::abs(iv) == std::abs(iv) && Math::absi(iv) == std::abs(iv) && Math::abs(v) == std::llabs(v) && Math::absi(v) == std::llabs(v), "abs of an integer");
	unsigned x = r.chance(0.3) ? r.range(0, 70) : (unsigned)(r.next() >> (32 + r.range(0, 31))); auto po = [](unsigned q) { return q && !(q & (q - 1)); };
	c.label("next_power_of_2"); if (x == 0) c.check("zero", next_power_of_2(x) == 0, "next_power_of_2(0)"); else if (x <= 0x80000000u) { unsigned n = next_power_of_2(x); c.check("value", po(n) && n >= x && (n == 1 || n / 2 < x), strf("next_power_of_2(%u) = %u", x, n)); unsigned q = nearest_power_of_2_templated<uint32_t>(x); c.check("templated", q == n, strf("nearest_power_of_2_templated(%u) = %u", x, q)); uint64_t q64 = nearest_power_of_2_templated<uint64_t>((uint64_t)x << 20); c.check("templated64", q64 == (uint64_t)n << 20, "64 bit"); }
	c.label("previous_power_of_2"); if (x) { unsigned p = previous_power_of_2(x); c.check("value", po(p) && p <= x && p > x / 2, strf("previous_power_of_2(%u) = %u", x, p)); } if (x && x <= 0x40000000u) { unsigned k = closest_power_of_2(x); uint64_t n = 1; while (n < x) n *= 2; uint64_t p = n == x ? n : n / 2; uint64_t d = std::min(n - x, x - p); c.label("closest_power_of_2"); c.check("value", po(k) && (k > x ? k - x : x - k) == d, strf("closest_power_of_2(%u) = %u", x, k)); }
	c.label("shifts"); int sh = r.range(0, 31); c.check("get_shift", get_shift_from_power_of_2(1u << sh) == sh && (po(x) || get_shift_from_power_of_2(x) == -1), "get_shift_from_power_of_2"); if (x < 0x80000000u) { int bits = 0; while (x >> bits) bits++; c.check("nearest_shift", nearest_shift(x) == (unsigned)bits, strf("nearest_shift(%u) = %u", x, nearest_shift(x))); }
	c.label("bswap"); uint64_t z = r.next(); uint32_t z4 = z, w4 = 0; uint64_t w8 = 0; for (int i = 0; i < 4; i++) w4 = w4 << 8 | ((z4 >> (8 * i)) & 255); for (int i = 0; i < 8; i++) w8 = w8 << 8 | ((z >> (8 * i)) & 255); c.check("value", BSWAP16((uint16_t)z) == (uint16_t)((z & 255) << 8 | ((z >> 8) & 255)) && BSWAP32(z4) == w4 && BSWAP64(z) == w8, "byte swap");
	c.label("larger_prime"); { uint32_t q = (uint32_t)(r.next() >> (33 + r.range(0, 30))); if (q >= 1610612741u) q >>= 1; uint32_t p = Math::larger_prime(q); bool pr = p > 1; for (uint64_t d = 2; pr && d * d <= p; d++) pr = p % d; c.check("value", p > q && pr && (q < 5 || p <= 3ull * q), strf("larger_prime(%u) = %u", q, p)); }
	c.label("step_decimals"); { int k = r.range(0, 9), d = r.range(1, 9); double s = d * std::pow(10, -k); if (k) s += r.chance(0.3) ? r.range(0, 3) : 0; if (r.chance(0.2)) s = -s; c.check("value", Math::step_decimals(s) == k, strf("step_decimals(%.15g) = %d, want %d", s, Math::step_decimals(s), k)); if (s > 0) c.check("range_value", Math::range_step_decimals(s) == k, "range_step_decimals"); c.check("zero", Math::range_step_decimals(0) == 16 && Math::step_decimals(0) == 0, "a zero step"); }
	c.label("half_float"); { uint16_t h = (uint16_t)r.next(); int ex = (h >> 10) & 31; double want = (h & 0x8000 ? -1.0 : 1.0) * (ex == 0 ? (h & 0x3ff) * std::pow(2, -24) : (1 + (h & 0x3ff) / 1024.0) * std::pow(2, ex - 15)); float g = Math::half_to_float(h); if (ex == 31) c.check("special", (h & 0x3ff) ? std::isnan(g) : std::isinf(g) && std::signbit(g) == (h >> 15), "half infinity or NaN"); else c.check("value", g == want && std::signbit(g) == (bool)(h >> 15), strf("half_to_float(0x%04x) = %.9g, want %.9g", h, g, want)); if (ex > 0 && ex < 31) c.check("round_trip", Math::make_half_float(g) == h, strf("make_half_float(half_to_float(0x%04x)) = 0x%04x", h, Math::make_half_float(g))); double f = fl(r.uni(-1, 1) * std::pow(2, r.range(-13, 15))); if (std::fabs(f) >= 1.0 / 8192) { double b = Math::half_to_float(Math::make_half_float((float)f)); c.check("precision", std::fabs(b - f) <= std::fabs(f) / 1024, strf("half precision of %.9g is %.9g", f, b)); } c.check("inf", std::isinf(Math::half_to_float(Math::make_half_float(1e6f))) && std::isnan(Math::half_to_float(Math::make_half_float(NAN))), "overflow and NaN"); }
	c.obs(hsh(hsh(5, (uint64_t)v), (uint64_t)x), true);
}
