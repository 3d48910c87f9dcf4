// R05: the geometry and colour value types, judged against definitions evaluated in double precision.
#include "vh.h"
#include <array>
#include <set>
#include <algorithm>
using namespace vh;

namespace r05 {
typedef std::vector<double> D;
static std::string sd(const D &v) { std::string s = "("; for (size_t i = 0; i < v.size(); i++) s += strf("%s%.9g", i ? "," : "", v[i]); return s + ")"; }
static D d(const Vector2 &v) { return { v.x, v.y }; }
static D d(const Vector3 &v) { return { v.x, v.y, v.z }; }
static D d(const Vector4 &v) { return { v.x, v.y, v.z, v.w }; }
static D d(const Vector2i &v) { return { (double)v.x, (double)v.y }; }
static D d(const Vector3i &v) { return { (double)v.x, (double)v.y, (double)v.z }; }
static D d(const Vector4i &v) { return { (double)v.x, (double)v.y, (double)v.z, (double)v.w }; }
static D d(const Color &v) { return { v.r, v.g, v.b, v.a }; }
static D d(const Quaternion &v) { return { v.x, v.y, v.z, v.w }; }
static D d(const Rect2 &v) { return { v.position.x, v.position.y, v.size.x, v.size.y }; }
static D d(const Rect2i &v) { return { (double)v.position.x, (double)v.position.y, (double)v.size.x, (double)v.size.y }; }
static D d(const AABB &v) { return { v.position.x, v.position.y, v.position.z, v.size.x, v.size.y, v.size.z }; }
static D d(const Plane &v) { return { v.normal.x, v.normal.y, v.normal.z, v.d }; }
static D d(const Basis &b) { D r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.push_back(b.rows[i][j]); return r; }
static D d(const Transform &t) { D r = d(t.basis), o = d(t.origin); r.insert(r.end(), o.begin(), o.end()); return r; }
static D d(const Transform2D &t) { D r; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) r.push_back(t.columns[i][j]); return r; }
static D d(const Projection &t) { D r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.push_back(t.matrix[i][j]); return r; }
static double mx(const D &a) { double m = 0; for (double x : a) m = std::max(m, std::fabs(x)); return m; }
static double dot(const D &a, const D &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
static double len(const D &a) { return std::sqrt(dot(a, a)); }
static D add(const D &a, const D &b, double k = 1) { D r(a); for (size_t i = 0; i < a.size(); i++) r[i] += k * b[i]; return r; }
static D sc(const D &a, double k) { D r(a); for (auto &x : r) x *= k; return r; }
static D cross(const D &a, const D &b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
template <class F> static D mp(const D &a, F f) { D r(a); for (auto &x : r) x = f(x); return r; }
template <class F> static D mp2(const D &a, const D &b, F f) { D r(a); for (size_t i = 0; i < a.size(); i++) r[i] = f(a[i], b[i]); return r; }
// Components equal within an absolute tolerance of `scale` times a few units in the last place.
static bool same(Ctx &c, const char *kind, const D &got, const D &want, double scale = 1, double rel = 1e-5) {
	bool ok = got.size() == want.size(); double tol = rel * std::max(scale, mx(want));
	for (size_t i = 0; ok && i < got.size(); i++) ok = std::fabs(got[i] - want[i]) <= tol;
	if (!ok) c.fail(kind, "got " + sd(got) + " want " + sd(want));
	return ok;
}
static bool same1(Ctx &c, const char *kind, double got, double want, double scale = 1, double rel = 1e-5) { return same(c, kind, D{ got }, D{ want }, scale, rel); }
static bool exact(Ctx &c, const char *kind, const D &got, const D &want) { bool ok = got == want; if (!ok) c.fail(kind, "got " + sd(got) + " want exactly " + sd(want)); return ok; }
static bool yes(Ctx &c, const char *kind, bool got, bool want, const std::string &what = "") { return c.check(kind, got == want, strf("answered %d, want %d ", got, want) + what); }
static uint64_t hd(const D &v, uint64_t h = 7) { for (double x : v) { union { double a; uint64_t b; } u; u.a = x; h = hsh(h, u.b); } return h; }

static float num(Rng &r) { double p = r.uni(0, 1); return p < 0.2 ? r.range(-4, 4) : p < 0.9 ? r.f(-10, 10) : r.f(-1000, 1000); }
template <class V, int N> static V rv(Rng &r) { V v; for (int i = 0; i < N; i++) v[i] = num(r); if (r.chance(0.03)) for (int i = 0; i < N; i++) v[i] = 0; return v; }
static Vector2 r2(Rng &r) { return rv<Vector2, 2>(r); }
static Vector3 r3(Rng &r) { return rv<Vector3, 3>(r); }
static Vector4 r4(Rng &r) { return rv<Vector4, 4>(r); }
template <class V, int N> static V unit(Rng &r) {
	for (;;) { D q; for (int i = 0; i < N; i++) q.push_back(r.uni(-1, 1)); double l = len(q); if (l < 0.1 || l > 1) continue; V v; for (int i = 0; i < N; i++) v[i] = (float)(q[i] / l); if (r.chance(0.1)) { int k = r.range(0, N - 1); for (int i = 0; i < N; i++) v[i] = i == k ? (r.chance(0.5) ? 1 : -1) : 0; } return v; }
}
static D cubic(const D &pre, const D &a, const D &b, const D &post, double t) { // Catmull-Rom through the four points
	D r(a.size()); for (size_t i = 0; i < a.size(); i++) { double m0 = (b[i] - pre[i]) / 2, m1 = (post[i] - a[i]) / 2, t2 = t * t, t3 = t2 * t; r[i] = (2 * t3 - 3 * t2 + 1) * a[i] + (t3 - 2 * t2 + t) * m0 + (-2 * t3 + 3 * t2) * b[i] + (t3 - t2) * m1; } return r;
}
static D bezier(const D &a, const D &p, const D &q, const D &b, double t) { // de Casteljau
	auto l = [&](const D &x, const D &y) { return add(sc(x, 1 - t), y, t); };
	D u = l(a, p), v = l(p, q), w = l(q, b); return l(l(u, v), l(v, w));
}
static bool nearhalf(double x) { double f = x - std::floor(x); return std::fabs(f - 0.5) < 1e-3; }
static double pmod(double a, double m) { double q = std::floor(a / m); return a - q * m; }
// equality of a value and its wrapped neighbours: a result next to 0 may come out next to m
static bool modsame(Ctx &c, const char *kind, const D &got, const D &a, const D &m) {
	bool ok = true; for (size_t i = 0; i < a.size() && ok; i++) { double w = pmod(a[i], m[i]), e = std::fabs(got[i] - w), t = 1e-5 * (1 + std::fabs(a[i]) + std::fabs(m[i])); ok = e <= t || std::fabs(e - std::fabs(m[i])) <= t; }
	if (!ok) c.fail(kind, sd(a) + " modulo " + sd(m) + " gave " + sd(got)); return ok;
}
static bool lexi(const D &a, const D &b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }

static void signs(Ctx &c, const D &g, const D &x) { bool ok = g.size() == x.size(); for (size_t i = 0; ok && i < x.size(); i++) ok = x[i] == 0 || g[i] == (x[i] < 0 ? -1 : 1); c.check("sign", ok, sd(x) + " has signs " + sd(g)); }
template <class V> static void ordering(Ctx &c, const V &a, const V &b) {
	D x = d(a), y = d(b); bool lt = lexi(x, y), gt = lexi(y, x);
	yes(c, "equal", a == b, x == y); yes(c, "not_equal", a != b, x != y);
	std::string w = sd(x) + " against " + sd(y);
	yes(c, "less", a < b, lt, w); yes(c, "greater", a > b, gt, w); yes(c, "less_or_equal", a <= b, !gt, w); yes(c, "greater_or_equal", a >= b, !lt, w);
}
// what the float vectors of every size share
template <class V, int N> static void realvec(Ctx &c, V &a, V &b, V &e) {
	Rng &r = c.rng; D x = d(a), y = d(b); double S = 1 + mx(x) + mx(y); float k = num(r); if (k == 0) k = 1;
	switch (r.range(0, 13)) {
		case 0: {
			c.label("arithmetic"); same(c, "sum", d(a + b), add(x, y)); same(c, "difference", d(a - b), add(x, y, -1)); exact(c, "negation", d(-a), sc(x, -1)); same(c, "product", d(a * b), mp2(x, y, [](double p, double q) { return p * q; }), S);
			same(c, "scaled", d(a * k), sc(x, k), S); same(c, "quotient_by_number", d(a / k), sc(x, 1.0 / k), S);
			bool nz = true; for (double q : y) nz = nz && q != 0; if (nz) { same(c, "quotient", d(a / b), mp2(x, y, [](double p, double q) { return p / q; })); V t = a; t /= b; exact(c, "divide_in_place", d(t), d(a / b)); }
			V t = a; t += b; exact(c, "add_in_place", d(t), d(a + b)); t = a; t -= b; exact(c, "subtract_in_place", d(t), d(a - b)); t = a; t *= b; exact(c, "multiply_in_place", d(t), d(a * b)); t = a; t *= k; exact(c, "scale_in_place", d(t), d(a * k)); t = a; t /= k; same(c, "unscale_in_place", d(t), d(a / k), S);
		} break;
		case 1: { c.label("ordering"); V t = b; for (int i = 0; i < N; i++) if (r.chance(0.6)) t[i] = a[i]; ordering(c, a, t); ordering(c, a, a); } break;
		case 2: {
			c.label("length"); same1(c, "length", a.length(), len(x)); same1(c, "length_squared", a.length_squared(), dot(x, x)); same1(c, "distance", a.distance_to(b), len(add(x, y, -1)), S); same1(c, "distance_squared", a.distance_squared_to(b), dot(add(x, y, -1), add(x, y, -1)), S * S); same1(c, "dot", a.dot(b), dot(x, y), S * S);
		} break;
		case 3: {
			c.label("normalize"); double l = len(x); D w = l > 0 ? sc(x, 1 / l) : D(N, 0.0); same(c, "normalized", d(a.normalized()), w); V t = a; t.normalize(); same(c, "normalize_in_place", d(t), w);
			if (l > 1e-3) { yes(c, "unit_is_normalized", t.is_normalized(), true, sd(d(t))); double f = r.chance(0.5) ? r.uni(0.1, 0.99) : r.uni(1.01, 3); V u = t * (float)f; yes(c, "not_normalized", u.is_normalized(), false, sd(d(u))); }
			D q = add(y, x, -1); double ql = len(q); if (ql > 1e-2 * S || ql == 0) same(c, "direction", d(a.direction_to(b)), ql > 0 ? sc(q, 1 / ql) : D(N, 0.0), 1, 1e-4);
		} break;
		case 4: { c.label("limit_length"); float m = r.f(0, 15); double l = len(x); if (std::fabs(l - m) > 1e-4 * S) same(c, "limited", d(a.limit_length(m)), l > m ? sc(x, m / l) : x, S); } break;
		case 5: {
			c.label("rounding"); bool h = false; for (double q : x) h = h || nearhalf(q);
			exact(c, "floor", d(a.floor()), mp(x, [](double q) { return std::floor(q); })); exact(c, "ceil", d(a.ceil()), mp(x, [](double q) { return std::ceil(q); })); if (!h) exact(c, "round", d(a.round()), mp(x, [](double q) { return std::floor(q + 0.5); }));
			exact(c, "abs", d(a.abs()), mp(x, [](double q) { return std::fabs(q); })); signs(c, d(a.sign()), x);
		} break;
		case 6: { c.label("interpolate"); float t = r.f(-0.5, 1.5); same(c, "linear", d(a.linear_interpolate(b, t)), add(sc(x, 1 - (double)t), y, t), S); exact(c, "linear_start", d(a.linear_interpolate(b, 0)), x); same(c, "linear_end", d(a.linear_interpolate(b, 1)), y, S); } break;
		case 7: { c.label("cubic"); float t = r.f(0, 1); V p = rv<V, N>(r); same(c, "cubic", d(a.cubic_interpolate(b, e, p, t)), cubic(d(e), x, y, d(p), t), S + mx(d(e)) + mx(d(p))); } break;
		case 8: {
			c.label("posmod"); float m = r.f(0.3, 5) * (r.chance(0.3) ? -1 : 1); modsame(c, "posmod", d(a.posmod(m)), x, D(N, m)); V mv; for (int i = 0; i < N; i++) mv[i] = r.f(0.3, 5) * (r.chance(0.3) ? -1 : 1); modsame(c, "posmodv", d(a.posmodv(mv)), x, d(mv));
		} break;
		case 9: {
			c.label("snap"); V st; for (int i = 0; i < N; i++) st[i] = r.chance(0.2) ? 0 : r.f(0.1, 3); D s = d(st), w(x); bool amb = false;
			for (int i = 0; i < N; i++) if (s[i] != 0) { double q = x[i] / s[i]; amb = amb || nearhalf(q); w[i] = std::floor(q + 0.5) * s[i]; }
			if (!amb) same(c, "snapped", d(a.snapped(st)), w, S);
		} break;
		case 10: {
			c.label("approximate"); V t = a; yes(c, "approx_itself", a.is_equal_approx(t), true); int k2 = r.range(0, N - 1); t[k2] += (1 + std::fabs(t[k2])) * 0.01f * (r.chance(0.5) ? 1 : -1); yes(c, "approx_different", a.is_equal_approx(t), false, sd(x) + " and " + sd(d(t)));
			V z; for (int i = 0; i < N; i++) z[i] = 0; yes(c, "zero_is_zero", z.is_zero_approx(), true); z[k2] = r.chance(0.5) ? 0.01f : -0.01f; yes(c, "not_zero", z.is_zero_approx(), false, sd(d(z)));
		} break;
		case 11: { c.label("set_all"); V t = a; t.set_all(k); exact(c, "set_all", d(t), D(N, k)); } break;
		case 12: {
			c.label("axes"); bool tie = false; for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) tie = tie || x[i] == x[j];
			if (!tie) { yes(c, "min_axis", (int)a.min_axis() == std::min_element(x.begin(), x.end()) - x.begin(), true, sd(x)); yes(c, "max_axis", (int)a.max_axis() == std::max_element(x.begin(), x.end()) - x.begin(), true, sd(x)); }
		} break;
		default: { c.label("left_scalar"); same(c, "left_scaled", d(k * a), sc(x, k), S); } break;
	}
	c.obs(hd(x, hd(y)), true);
}
// what the 2 and 3 component vectors share
template <class V, int N> static void dirvec(Ctx &c, V &a, V &b) {
	Rng &r = c.rng; D x = d(a), y = d(b); double S = 1 + mx(x) + mx(y);
	switch (r.range(0, 5)) {
		case 0: { c.label("project"); if (dot(y, y) > 1e-2) same(c, "project", d(a.project(b)), sc(y, dot(x, y) / dot(y, y)), S); } break;
		case 1: case 2: {
			c.label("mirror"); V n = unit<V, N>(r); D m = d(n); D par = sc(m, dot(x, m)), per = add(x, par, -1);
			same(c, "slide", d(a.slide(n)), per, S); same(c, "bounce", d(a.bounce(n)), add(per, par, -1), S); same(c, "reflect", d(a.reflect(n)), add(par, per, -1), S);
		} break;
		case 3: { c.label("move_toward"); float s = r.f(0, 10); D v = add(y, x, -1); double l = len(v); if (std::fabs(l - s) > 1e-4 * S && l > 1e-3) same(c, "move_toward", d(a.move_toward(b, s)), l <= s ? y : add(x, v, s / l), S); } break;
		case 4: { c.label("bezier"); float t = r.f(0, 1); V p = rv<V, N>(r), q = rv<V, N>(r); same(c, "bezier", d(a.bezier_interpolate(p, q, b, t)), bezier(x, d(p), d(q), y, t), S + mx(d(p)) + mx(d(q))); } break;
		default: { c.label("refusals"); V n = unit<V, N>(r) * r.f(1.5, 3); exact(c, "slide_refused", d(a.slide(n)), D(N, 0.0)); exact(c, "reflect_refused", d(a.reflect(n)), D(N, 0.0)); } break;
	}
	c.obs(hd(x, hd(y)), true);
}
template <class V, int N> static void intvec(Ctx &c) {
	Rng &r = c.rng; V a, b; int big = r.chance(0.3) ? 20000 : 9; for (int i = 0; i < N; i++) { a[i] = r.range(-big, big); b[i] = r.chance(0.4) ? a[i] : r.range(-big, big); }
	D x = d(a), y = d(b); int k = r.range(1, 50) * (r.chance(0.5) ? 1 : -1); auto tr = [](double q) { return std::trunc(q) + 0.0; };
	switch (r.range(0, 4)) {
		case 0: {
			c.label("arithmetic"); exact(c, "sum", d(a + b), add(x, y)); exact(c, "difference", d(a - b), add(x, y, -1)); exact(c, "negation", d(-a), sc(x, -1)); exact(c, "product", d(a * b), mp2(x, y, [](double p, double q) { return p * q; })); exact(c, "scaled", d(a * k), sc(x, k)); exact(c, "quotient_by_number", d(a / k), mp(x, [&](double q) { return tr(q / k); }));
			bool nz = true; for (double q : y) nz = nz && q != 0; if (nz) exact(c, "quotient", d(a / b), mp2(x, y, [&](double p, double q) { return tr(p / q); }));
			V t = a; t += b; exact(c, "add_in_place", d(t), d(a + b)); t = a; t -= b; exact(c, "subtract_in_place", d(t), d(a - b)); t = a; t *= k; exact(c, "scale_in_place", d(t), d(a * k)); t = a; t /= k; exact(c, "unscale_in_place", d(t), d(a / k));
		} break;
		case 1: { c.label("ordering"); if (r.chance(0.3)) { int q = r.range(0, N - 1); a[q] = 2147483000 - r.range(0, 60); for (int i = 0; i < N; i++) b[i] = a[i]; b[q] += r.range(-3, 3); } ordering(c, a, b); } break;
		case 2: { c.label("length"); if (r.chance(0.3)) { for (int i = 0; i < N; i++) a[i] = r.range(-1500000000, 100000000); x = d(a); } double l2 = 0; for (double q : x) l2 += q * q; same1(c, "length_squared", (double)a.length_squared(), l2, 1, 1e-12); same1(c, "length", a.length(), std::sqrt(l2), 1, 1e-12); } break;
		case 3: { c.label("parts"); exact(c, "abs", d(a.abs()), mp(x, [](double q) { return std::fabs(q); })); signs(c, d(a.sign()), x);
			V lo, hi; for (int i = 0; i < N; i++) { lo[i] = r.range(-big, 0); hi[i] = r.range(0, big); } exact(c, "clamp", d(a.clamp(lo, hi)), [&] { D w(N); for (int i = 0; i < N; i++) w[i] = a[i] < lo[i] ? lo[i] : a[i] > hi[i] ? hi[i] : a[i]; return w; }()); V t = a; t.set_all(k); exact(c, "set_all", d(t), D(N, (double)k)); 
			float w = r.f(0, 1); D z = d(a.linear_interpolate(b, w)); bool ok = true; for (int i = 0; i < N; i++) ok = ok && std::fabs(z[i] - (x[i] + w * (y[i] - x[i]))) < 1.01; c.check("linear", ok, sd(x) + " to " + sd(y) + strf(" at %g gave ", w) + sd(z)); exact(c, "linear_start", d(a.linear_interpolate(b, 0)), x); exact(c, "linear_end", d(a.linear_interpolate(b, 1)), y);
		} break;
		default: { c.label("axes"); bool tie = false; for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) tie = tie || x[i] == x[j]; if (!tie) { yes(c, "min_axis", (int)a.min_axis() == std::min_element(x.begin(), x.end()) - x.begin(), true, sd(x)); yes(c, "max_axis", (int)a.max_axis() == std::max_element(x.begin(), x.end()) - x.begin(), true, sd(x)); } } break;
	}
	c.obs(hd(x, hd(y)), true);
}
static double angdiff(double a, double b) { double q = std::fmod(std::fabs(a - b), 2 * M_PI); return std::min(q, 2 * M_PI - q); }
} // namespace r05
using namespace r05;

UNIT("R05", "vector2", 160000, 1600000) {
	Rng &r = c.rng; Vector2 a = r2(r), b = r2(r), e = r2(r);
	int w = r.range(0, 3); if (w == 0) { dirvec<Vector2, 2>(c, a, b); return; } if (w < 3) { realvec<Vector2, 2>(c, a, b, e); return; }
	D x = d(a), y = d(b); double S = 1 + mx(x) + mx(y);
	switch (r.range(0, 4)) {
		case 0: {
			c.label("angles"); if (len(x) > 1e-2 && len(y) > 1e-2 && len(add(x, y, -1)) > 1e-2) {
				double ax = std::atan2(x[1], x[0]), ay = std::atan2(y[1], y[0]);
				c.check("angle", angdiff(a.angle(), ax) < 1e-4, sd(x)); c.check("angle_to", angdiff(a.angle_to(b), ay - ax) < 1e-4, sd(x) + sd(y)); c.check("angle_range", std::fabs(a.angle_to(b)) <= 3.1416, "");
				c.check("angle_to_point", angdiff(a.angle_to_point(b), std::atan2(x[1] - y[1], x[0] - y[0])) < 1e-3, sd(x) + sd(y));
				float g = r.f(-6, 6); double cs = std::cos(g), sn = std::sin(g); same(c, "rotated", d(a.rotated(g)), { x[0] * cs - x[1] * sn, x[0] * sn + x[1] * cs }, S);
				Vector2 t; t.set_rotation(g); same(c, "set_rotation", d(t), { cs, sn });
				Vector2 u = a.normalized(), v = b.normalized(); float q = r.f(0, 1); double th = std::remainder(ay - ax, 2 * M_PI); if (std::fabs(th) < 3.1) same(c, "slerp", d(u.slerp(v, q)), { std::cos(ax + q * th), std::sin(ax + q * th) }, 1, 1e-4);
			}
		} break;
		case 1: { c.label("cross"); same1(c, "cross", a.cross(b), x[0] * y[1] - x[1] * y[0], S * S); exact(c, "orthogonal", d(a.orthogonal()), { x[1], -x[0] + 0.0 }); exact(c, "tangent", d(a.tangent()), d(a.orthogonal())); } break;
		case 2: { c.label("minmax"); exact(c, "min", d(a.min(b)), mp2(x, y, [](double p, double q) { return std::min(p, q); })); exact(c, "max", d(a.max(b)), mp2(x, y, [](double p, double q) { return std::max(p, q); })); float t = r.f(0, 1); exact(c, "static_linear", d(Vector2::linear_interpolate(a, b, t)), d(a.linear_interpolate(b, t))); } break;
		case 3: { c.label("line"); Vector2 n = unit<Vector2, 2>(r); float dd = r.f(-5, 5); D m = d(n); same(c, "plane_project", d(n.plane_project(dd, a)), add(x, m, -(dot(m, x) - dd)), S); } break;
		default: { c.label("text"); Vector2 t(r.range(-99, 99), r.range(-99, 99) / 4.0f); std::string s = CharString(String(t).utf8()).get_data(); float p, q; c.check("text", sscanf(s.c_str(), "(%f, %f)", &p, &q) == 2 && p == t.x && q == t.y, s); Vector2i i2 = t; exact(c, "to_integers", d(i2), { t.x, std::trunc(t.y) + 0.0 }); } break;
	}
	c.obs(hd(x, hd(y)), true);
}
UNIT("R05", "vector3", 160000, 1600000) {
	Rng &r = c.rng; Vector3 a = r3(r), b = r3(r), e = r3(r);
	int w = r.range(0, 3); if (w == 0) { dirvec<Vector3, 3>(c, a, b); return; } if (w < 3) { realvec<Vector3, 3>(c, a, b, e); return; }
	D x = d(a), y = d(b); double S = 1 + mx(x) + mx(y);
	switch (r.range(0, 5)) {
		case 0: {
			c.label("angles"); if (len(x) > 1e-2 && len(y) > 1e-2) {
				D cr = cross(x, y); double th = std::atan2(len(cr), dot(x, y)); same1(c, "angle_to", a.angle_to(b), th, 1, 1e-4);
				Vector3 ax = r3(r); double s = dot(cr, d(ax)); if (std::fabs(s) > 1e-3 * S * S * (1 + mx(d(ax)))) same1(c, "signed_angle_to", a.signed_angle_to(b, ax), s < 0 ? -th : th, 1, 1e-4);
				if (th > 0.05 && th < 3.09) { float q = r.f(0, 1); double la = len(x), lb = len(y), l = la + (lb - la) * q, k = std::sin(th); D p = add(sc(x, std::sin((1 - q) * th) / k / la), y, std::sin(q * th) / k / lb); same(c, "slerp", d(a.slerp(b, q)), sc(p, l), S, 3e-4); }
			}
		} break;
		case 1: { c.label("cross"); same(c, "cross", d(a.cross(b)), cross(x, y), S * S); D o; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o.push_back(x[i] * y[j]); same(c, "outer", d(a.outer(b)), o, S * S); exact(c, "diagonal", d(a.to_diagonal_matrix()), { x[0], 0, 0, 0, x[1], 0, 0, 0, x[2] }); } break;
		case 2: {
			c.label("rotated"); Vector3 ax = unit<Vector3, 3>(r); float g = r.f(-6, 6); D k = d(ax); double cs = std::cos(g), sn = std::sin(g); D want = add(add(sc(x, cs), cross(k, x), sn), k, dot(k, x) * (1 - cs)); // Rodrigues
			same(c, "rotated", d(a.rotated(ax, g)), want, S, 3e-5); Vector3 t = a; t.rotate(ax, g); same(c, "rotate_in_place", d(t), want, S, 3e-5);
		} break;
		case 3: { c.label("parts"); Vector3 lo, hi; for (int i = 0; i < 3; i++) { lo[i] = r.f(-9, 0); hi[i] = r.f(0, 9); } D w3(3); for (int i = 0; i < 3; i++) w3[i] = x[i] < lo[i] ? lo[i] : x[i] > hi[i] ? hi[i] : x[i]; exact(c, "clamp", d(a.clamp(lo, hi)), w3); bool nz = x[0] && x[1] && x[2]; if (nz) same(c, "inverse", d(a.inverse()), mp(x, [](double q) { return 1 / q; })); Vector3 t = a; t.zero(); exact(c, "zero", d(t), { 0, 0, 0 }); } break;
		case 4: { c.label("axis"); int i = r.range(0, 2); Vector3 t = a; t.set_axis(i, 7); D w3 = x; w3[i] = 7; exact(c, "set_axis", d(t), w3); yes(c, "get_axis", t.get_axis(i) == 7 && a.get_axis(i) == a[i], true); t.set_axis(r.chance(0.5) ? 3 : -1, 1); c.check("axis_refused", t.get_axis(3) == 0 && t.get_axis(-1) == 0 && d(t) == w3, "axis outside the vector"); Vector3 sn = a; Vector3 st(0.5f, 2, 0); sn.snap(st); exact(c, "snap_in_place", d(sn), d(a.snapped(st))); } break;
		default: { c.label("text"); Vector3 t(r.range(-99, 99), r.range(-99, 99) / 4.0f, r.range(-9, 9)); std::string s = CharString(String(t).utf8()).get_data(); float p, q, u; c.check("text", sscanf(s.c_str(), "(%f, %f, %f)", &p, &q, &u) == 3 && p == t.x && q == t.y && u == t.z, s); } break;
	}
	c.obs(hd(x, hd(y)), true);
}
UNIT("R05", "vector4", 160000, 1600000) {
	Rng &r = c.rng; Vector4 a = r4(r), b = r4(r), e = r4(r); if (r.chance(0.8)) { realvec<Vector4, 4>(c, a, b, e); return; }
	D x = d(a); c.label("parts");
	Vector4 lo, hi; for (int i = 0; i < 4; i++) { lo[i] = r.f(-9, 0); hi[i] = r.f(0, 9); } D w(4); for (int i = 0; i < 4; i++) w[i] = x[i] < lo[i] ? lo[i] : x[i] > hi[i] ? hi[i] : x[i]; exact(c, "clamp", d(a.clamp(lo, hi)), w); bool nz = x[0] && x[1] && x[2] && x[3]; if (nz) same(c, "inverse", d(a.inverse()), mp(x, [](double q) { return 1 / q; })); Vector4 t = a; t.zero(); exact(c, "zero", d(t), { 0, 0, 0, 0 });
	int i = r.range(0, 3); t = a; t.set_axis(i, 7); D w2 = x; w2[i] = 7; exact(c, "set_axis", d(t), w2); yes(c, "get_axis", t.get_axis(i) == 7 && a.get_axis(i) == a[i], true); t.set_axis(r.chance(0.5) ? 4 : -1, 1); c.check("axis_refused", t.get_axis(4) == 0 && t.get_axis(-1) == 0 && d(t) == w2, "axis outside the vector"); Vector4 sn = a; Vector4 st(0.5f, 2, 0, 1); sn.snap(st); exact(c, "snap_in_place", d(sn), d(a.snapped(st)));
	c.obs(hd(x), true);
}
UNIT("R05", "integer_vectors", 160000, 1600000) {
	Rng &r = c.rng; int n = r.range(0, 3); if (n == 0) intvec<Vector2i, 2>(c); else if (n == 1) intvec<Vector3i, 3>(c); else if (n == 2) intvec<Vector4i, 4>(c); else {
		auto rnd = [&] { return r.range(-500, 500); }; int m = r.range(1, 30) * (r.chance(0.5) ? 1 : -1);
		Vector3i a(rnd(), rnd(), rnd()), p(r.range(1, 9), r.range(1, 9), -r.range(1, 9)); Vector4i b(rnd(), rnd(), rnd(), rnd()), q(r.range(1, 9), -r.range(1, 9), r.range(1, 9), r.range(1, 9)); Vector2i e(rnd(), rnd()), g(rnd(), rnd()); c.label("rest");
		exact(c, "remainder", d(a % p), { (double)(a.x % p.x), (double)(a.y % p.y), (double)(a.z % p.z) }); exact(c, "remainder4", d(b % q), { (double)(b.x % q.x), (double)(b.y % q.y), (double)(b.z % q.z), (double)(b.w % q.w) }); exact(c, "remainder_number", d(a % m), { (double)(a.x % m), (double)(a.y % m), (double)(a.z % m) }); exact(c, "remainder4_number", d(b % m), { (double)(b.x % m), (double)(b.y % m), (double)(b.z % m), (double)(b.w % m) });
		Vector3i t = a; t %= p; exact(c, "remainder_in_place", d(t), d(a % p)); t = a; t *= p; exact(c, "multiply_in_place", d(t), d(a * p)); t = a; t /= p; exact(c, "divide_in_place", d(t), d(a / p)); t = a; t %= m; exact(c, "remainder_number_in_place", d(t), d(a % m)); Vector4i u = b; u %= q; exact(c, "remainder4_in_place", d(u), d(b % q)); u = b; u *= q; exact(c, "multiply4_in_place", d(u), d(b * q)); u = b; u /= q; exact(c, "divide4_in_place", d(u), d(b / q)); u = b; u %= m; exact(c, "remainder4_number_in_place", d(u), d(b % m));
		int i = r.range(0, 2), j = r.range(0, 3); t = a; t.set_axis(i, m); D w = d(a); w[i] = m; exact(c, "set_axis", d(t), w); u = b; u.set_axis(j, m); w = d(b); w[j] = m; exact(c, "set_axis4", d(u), w); yes(c, "get_axis", a.get_axis(i) == a[i] && b.get_axis(j) == b[j], true); D w0 = d(t); t.set_axis(3, 1); u.set_axis(-1, 1); c.check("axis_refused", a.get_axis(-1) == 0 && b.get_axis(4) == 0 && d(u) == w && d(t) == w0, "axis outside the vector"); t.zero(); u.zero(); exact(c, "zero", d(t), { 0, 0, 0 }); exact(c, "zero4", d(u), { 0, 0, 0, 0 });
		exact(c, "to_vector3", d(a.to_vector3()), d(a)); exact(c, "to_vector4", d(b.to_vector4()), d(b)); exact(c, "to_vector2", d(e.to_vector2()), d(e)); exact(c, "min", d(e.min(g)), { (double)std::min(e.x, g.x), (double)std::min(e.y, g.y) }); exact(c, "max", d(e.max(g)), { (double)std::max(e.x, g.x), (double)std::max(e.y, g.y) }); if (e.y) same1(c, "aspect", e.aspect(), e.x / (double)e.y);
		std::string s = CharString(String(b).utf8()).get_data(); c.check("text", s == strf("(%d, %d, %d, %d)", b.x, b.y, b.z, b.w), s); s = CharString(String(a).utf8()).get_data(); c.check("text3", s == strf("(%d, %d, %d)", a.x, a.y, a.z), s); s = CharString(String(e).utf8()).get_data(); c.check("text2", s == strf("(%d, %d)", e.x, e.y), s);
		c.obs(hd(d(a), hd(d(b))), true);
	}
}

UNIT("R05", "color", 240000, 2400000) {
	Rng &r = c.rng; auto col = [&](bool in) { auto q = [&]() -> float { return r.chance(0.2) ? r.range(0, 1) : r.chance(0.3) ? r.range(0, 255) / 255.0f : in ? r.f(0, 1) : r.f(0, 4); }; return Color(q(), q(), q(), q()); };
	Color a = col(true), b = col(true); D x = d(a), y = d(b);
	switch (r.range(0, 9)) {
		case 0: {
			c.label("packed"); auto q = [](double v, double m) { return (uint64_t)std::floor(v * m + 0.5); }; bool h = false; for (double v : x) h = h || nearhalf(v * 255) || std::fabs(std::fmod(v * 65535, 1) - 0.5) < 0.02;
			if (!h) { uint64_t R = q(x[0], 255), G = q(x[1], 255), B = q(x[2], 255), A = q(x[3], 255); c.check("rgba32", a.to_rgba32() == (uint32_t)(R << 24 | G << 16 | B << 8 | A), sd(x)); c.check("argb32", a.to_argb32() == (uint32_t)(A << 24 | R << 16 | G << 8 | B), sd(x)); c.check("abgr32", a.to_abgr32() == (uint32_t)(A << 24 | B << 16 | G << 8 | R), sd(x));
				yes(c, "r8", a.get_r8() == (int)R && a.get_g8() == (int)G && a.get_b8() == (int)B && a.get_a8() == (int)A, true, sd(x)); R = q(x[0], 65535); G = q(x[1], 65535); B = q(x[2], 65535); A = q(x[3], 65535); c.check("rgba64", a.to_rgba64() == (R << 48 | G << 32 | B << 16 | A), sd(x)); c.check("argb64", a.to_argb64() == (A << 48 | R << 32 | G << 16 | B), sd(x)); c.check("abgr64", a.to_abgr64() == (A << 48 | B << 32 | G << 16 | R), sd(x)); }
			uint32_t v = (uint32_t)r.next(); uint64_t v6 = r.next(); c.check("hex_round_trip", Color::hex(v).to_rgba32() == v, strf("%08x", v)); c.check("hex64_round_trip", Color::hex64(v6).to_rgba64() == v6, strf("%016llx", (unsigned long long)v6)); Color g; int i = r.range(-20, 280), j = r.range(0, 255); g.set_r8(i); g.set_g8(j); g.set_b8(255 - j); g.set_a8(i); double ci = std::min(255, std::max(0, i)) / 255.0; same(c, "set8", d(g), { ci, j / 255.0, (255 - j) / 255.0, ci }); same(c, "color8", d(Color::color8(j, 3, 255)), { j / 255.0, 3 / 255.0, 1, 1 }); same(c, "color8a", d(Color::color8(1, 2, j, 9)), { 1 / 255.0, 2 / 255.0, j / 255.0, 9 / 255.0 });
		} break;
		case 1: {
			c.label("html"); static const char *dg = "0123456789abcdef"; int n[] = { 3, 4, 6, 8 }; int L = r.chance(0.8) ? n[r.range(0, 3)] : r.range(0, 10); std::string s; for (int i = 0; i < L; i++) { char ch = dg[r.range(0, 15)]; s += r.chance(0.3) ? (char)toupper(ch) : ch; } bool bad = L != 3 && L != 4 && L != 6 && L != 8; if (L && r.chance(0.15)) { s[r.range(0, L - 1)] = "gxz #-/:@`G"[r.range(0, 10)]; bad = true; }
			std::string in = (r.chance(0.5) && !bad ? "#" : "") + s; String gs(in.c_str()); bool lead = !s.empty() && s[0] == '#'; if (lead) break;
			yes(c, "html_is_valid", Color::html_is_valid(gs), !bad, "\"" + in + "\""); if (bad) { if (L) { Color z = Color::html(gs); c.check("html_refused", z == Color(), "\"" + in + "\""); } break; }
			std::string e = s; if (L < 5) { e = ""; for (char ch : s) { e += ch; e += ch; } } auto hv = [&](int i) { return std::stoi(e.substr(i, 2), nullptr, 16) / 255.0; }; int o = e.size() == 8 ? 2 : 0; same(c, "html", d(Color::html(gs)), { hv(o), hv(o + 2), hv(o + 4), o ? hv(0) : 1.0 });
			Color q = Color::hex((uint32_t)r.next()); std::string t = CharString(q.to_html(true).utf8()).get_data(); c.check("to_html", t == strf("%02x%02x%02x%02x", q.get_a8(), q.get_r8(), q.get_g8(), q.get_b8()), t); t = CharString(q.to_html(false).utf8()).get_data(); c.check("to_html_opaque", t == strf("%02x%02x%02x", q.get_r8(), q.get_g8(), q.get_b8()), t);
		} break;
		case 2: case 3: {
			c.label("hsv"); double hi = std::max({ x[0], x[1], x[2] }), lo = std::min({ x[0], x[1], x[2] }), de = hi - lo; same1(c, "v", a.get_v(), hi); same1(c, "s", a.get_s(), hi > 0 ? de / hi : 0, 1, 1e-4);
			if (de > 1e-2) { double h = hi == x[0] ? (x[1] - x[2]) / de : hi == x[1] ? 2 + (x[2] - x[0]) / de : 4 + (x[0] - x[1]) / de; h /= 6; if (h < 0) h += 1; double df = std::fabs(a.get_h() - h); c.check("h", std::min(df, std::fabs(1 - df)) < 1e-4, sd(x) + strf(" hue %g want %g", a.get_h(), h)); }
			double H = r.f(0, 1), Sx = r.f(0, 1), V = r.f(0, 1), A = r.f(0, 1); if (r.chance(0.2)) H = r.range(0, 6) / 6.0; Color t = b; t.set_hsv(H, Sx, V, A); auto ch = [&](double n) { double k = std::fmod(n + H * 6, 6); return V - V * Sx * std::max(0.0, std::min({ k, 4 - k, 1.0 })); }; D w{ ch(5), ch(3), ch(1), A };
			same(c, "set_hsv", d(t), w, 1, 2e-5); same(c, "from_hsv", d(b.from_hsv(H, Sx, V, A)), w, 1, 2e-5); if (de > 0.02) { Color u = b; u.set_hsv(a.get_h(), a.get_s(), a.get_v(), a.a); same(c, "hsv_round_trip", d(u), x, 1, 1e-4); Color q = a; float nv = r.f(0.1, 1); q.set_v(nv); same(c, "set_v_scales", d(q), { x[0] * nv / hi, x[1] * nv / hi, x[2] * nv / hi, x[3] }, 1, 1e-4); }
		} break;
		case 4: {
			c.label("arithmetic"); float k = r.f(0.1, 3); same(c, "sum", d(a + b), add(x, y)); same(c, "difference", d(a - b), add(x, y, -1)); same(c, "product", d(a * b), mp2(x, y, [](double p, double q) { return p * q; })); same(c, "scaled", d(a * k), sc(x, k)); same(c, "quotient_number", d(a / k), sc(x, 1.0 / k)); Color z(r.f(0.1, 1), r.f(0.1, 1), r.f(0.1, 1), r.f(0.1, 1)); same(c, "quotient", d(a / z), mp2(x, d(z), [](double p, double q) { return p / q; }));
			Color t = a; t += b; exact(c, "add_in_place", d(t), d(a + b)); t = a; t -= b; exact(c, "subtract_in_place", d(t), d(a - b)); t = a; t *= b; exact(c, "multiply_in_place", d(t), d(a * b)); t = a; t *= k; exact(c, "scale_in_place", d(t), d(a * k)); t = a; t /= k; exact(c, "unscale_in_place", d(t), d(a / k)); t = a; t /= z; exact(c, "divide_in_place", d(t), d(a / z));
			Color o = b; for (int i = 0; i < 4; i++) if (r.chance(0.6)) o[i] = a[i]; yes(c, "less", a < o, lexi(x, d(o)), sd(x) + sd(d(o))); yes(c, "equal", a == o, x == d(o)); yes(c, "not_equal", a != o, x != d(o));
		} break;
		case 5: {
			c.label("adjust"); float k = r.f(0, 1); same(c, "inverted", d(a.inverted()), { 1 - x[0], 1 - x[1], 1 - x[2], x[3] }); same(c, "darkened", d(a.darkened(k)), { x[0] * (1 - k), x[1] * (1 - k), x[2] * (1 - k), x[3] }); same(c, "lightened", d(a.lightened(k)), { x[0] + (1 - x[0]) * k, x[1] + (1 - x[1]) * k, x[2] + (1 - x[2]) * k, x[3] }); same(c, "linear", d(a.linear_interpolate(b, k)), add(sc(x, 1 - (double)k), y, k)); same1(c, "luminance", a.get_luminance(), 0.2126 * x[0] + 0.7152 * x[1] + 0.0722 * x[2]);
			bool edge = false; for (double v : x) edge = edge || std::fabs(v - 0.5) < 1e-3; if (!edge) same(c, "contrasted", d(a.contrasted()), { std::fmod(x[0] + 0.5, 1), std::fmod(x[1] + 0.5, 1), std::fmod(x[2] + 0.5, 1), x[3] });
			Color big(r.f(-1, 2), r.f(-1, 2), r.f(-1, 2), r.f(-1, 2)); exact(c, "clamped", d(big.clamp()), mp(d(big), [](double v) { return std::min(1.0, std::max(0.0, v)); })); exact(c, "with_alpha", d(Color(a, k)), { x[0], x[1], x[2], (double)k });
		} break;
		case 6: { c.label("blend"); double sa = 1 - y[3], al = x[3] * sa + y[3]; if (al > 1e-2 || al == 0) { D w(4, 0.0); if (al > 0) for (int i = 0; i < 3; i++) w[i] = (x[i] * x[3] * sa + y[i] * y[3]) / al; w[3] = al; same(c, "over", d(a.blend(b)), w, 1, 1e-4); } } break;
		case 7: { c.label("srgb"); auto lin = [](double v) { return v <= 0.04045 ? v / 12.92 : std::pow((v + 0.055) / 1.055, 2.4); }; auto srgb = [](double v) { return v <= 0.0031308 ? v * 12.92 : 1.055 * std::pow(v, 1 / 2.4) - 0.055; }; same(c, "to_linear", d(a.to_linear()), { lin(x[0]), lin(x[1]), lin(x[2]), x[3] }, 1, 3e-5); same(c, "to_srgb", d(a.to_srgb()), { srgb(x[0]), srgb(x[1]), srgb(x[2]), x[3] }, 1, 3e-5); same(c, "srgb_round_trip", d(a.to_linear().to_srgb()), x, 1, 1e-4); } break;
		case 8: { c.label("rgbe"); Color t = col(false); if (r.chance(0.2)) t = t * std::pow(2.0f, (float)r.range(-10, 10)); D w = d(t); w[3] = 1; double m = std::max({ w[0], w[1], w[2] }); D g = d(Color::from_rgbe9995(t.to_rgbe9995())); bool ok = g[3] == 1; for (int i = 0; i < 3; i++) ok = ok && std::fabs(g[i] - w[i]) <= m / 500 + 1e-7; c.check("shared_exponent", ok, sd(w) + " came back as " + sd(g)); } break;
		default: { c.label("approximate"); Color t = a; yes(c, "approx_itself", a.is_equal_approx(t), true); int k = r.range(0, 3); t[k] += 0.02f; yes(c, "approx_different", a.is_equal_approx(t), false, sd(x) + sd(d(t))); } break;
	}
	c.obs(hd(x, hd(y)), true);
}

namespace r05 {
// an axis aligned box of any dimension, as its two corners
struct Bx { D lo, hi; };
static Bx bx(const D &p, const D &s) { return { p, add(p, s) }; }
static bool overlap(const Bx &a, const Bx &b, bool closed, double m = 0) { for (size_t i = 0; i < a.lo.size(); i++) { if (closed ? (a.lo[i] > b.hi[i] + m || b.lo[i] > a.hi[i] + m) : (a.lo[i] >= b.hi[i] + m || b.lo[i] >= a.hi[i] + m)) return false; } return true; }
static bool contains(const Bx &a, const D &p, bool open_end) { for (size_t i = 0; i < p.size(); i++) if (p[i] < a.lo[i] || (open_end ? p[i] >= a.hi[i] : p[i] > a.hi[i])) return false; return true; }
static bool inside(const Bx &a, const Bx &b) { for (size_t i = 0; i < a.lo.size(); i++) if (b.lo[i] < a.lo[i] || b.hi[i] > a.hi[i]) return false; return true; } // b in a
static Bx meet(const Bx &a, const Bx &b) { Bx r = a; for (size_t i = 0; i < a.lo.size(); i++) { r.lo[i] = std::max(a.lo[i], b.lo[i]); r.hi[i] = std::min(a.hi[i], b.hi[i]); } return r; }
static Bx join(const Bx &a, const Bx &b) { Bx r = a; for (size_t i = 0; i < a.lo.size(); i++) { r.lo[i] = std::min(a.lo[i], b.lo[i]); r.hi[i] = std::max(a.hi[i], b.hi[i]); } return r; }
static D flat(const Bx &b) { D r = b.lo; for (size_t i = 0; i < b.lo.size(); i++) r.push_back(b.hi[i] - b.lo[i]); return r; }
// the part of from + t * dir, t0 <= t <= t1, inside the box grown by m; axis: the one it enters through, -1 if it starts inside
static bool clipline(const Bx &b, const D &from, const D &dir, double t0, double t1, double m, double &ta, int &axis) {
	axis = -1; ta = t0; double tb = t1;
	for (size_t i = 0; i < from.size(); i++) {
		double lo = b.lo[i] - m, hi = b.hi[i] + m; if (dir[i] == 0) { if (from[i] < lo || from[i] > hi) return false; continue; }
		double p = (lo - from[i]) / dir[i], q = (hi - from[i]) / dir[i]; if (p > q) std::swap(p, q); if (p > ta) { ta = p; axis = i; } tb = std::min(tb, q); if (ta > tb) return false;
	}
	return true;
}
// the gap between two convex point sets along unit directions: > 0 disjoint, < 0 the least overlap seen
static double gap(const std::vector<D> &a, const std::vector<D> &b, const std::vector<D> &axes) {
	double best = -1e30;
	for (const D &ax : axes) { double l = len(ax); if (l < 1e-6) continue; double a0 = 1e30, a1 = -1e30, b0 = 1e30, b1 = -1e30; for (auto &p : a) { double t = dot(p, ax) / l; a0 = std::min(a0, t); a1 = std::max(a1, t); } for (auto &p : b) { double t = dot(p, ax) / l; b0 = std::min(b0, t); b1 = std::max(b1, t); } best = std::max(best, std::max(b0 - a1, a0 - b1)); }
	return best;
}
static std::vector<D> corners(const Bx &b) { std::vector<D> r; int n = b.lo.size(); for (int m = 0; m < 1 << n; m++) { D p(n); for (int i = 0; i < n; i++) p[i] = m >> i & 1 ? b.hi[i] : b.lo[i]; r.push_back(p); } return r; }
static float cell(Rng &r) { return r.range(-6, 6); }
static float ext(Rng &r) { return r.range(0, 7); }
static Rect2 rrect(Rng &r) { return Rect2(cell(r), cell(r), ext(r), ext(r)); }
static Bx bx(const Rect2 &q) { return bx(d(q.position), d(q.size)); }
static Bx bx(const Rect2i &q) { return bx(d(q.position), d(q.size)); }
static Bx bx(const AABB &q) { return bx(d(q.position), d(q.size)); }
template <class R> static void rectcommon(Ctx &c, const R &a, const R &b, bool closed) {
	Bx p = bx(a), q = bx(b); std::string w = sd(d(a)) + " and " + sd(d(b));
	yes(c, "encloses", a.encloses(b), inside(p, q), w); yes(c, "encloses_itself", a.encloses(a), true, sd(d(a)));
	bool open = overlap(p, q, false); D none(4, 0.0);
	if (open) { yes(c, "intersects", a.intersects(b), true, w); exact(c, "intersection", d(a.intersection(b)), flat(meet(p, q))); exact(c, "clip", d(a.clip(b)), flat(meet(p, q))); }
	else if (!overlap(p, q, true)) { yes(c, "disjoint", a.intersects(b), false, w); exact(c, "no_intersection", d(a.intersection(b)), none); exact(c, "no_clip", d(a.clip(b)), none); }
	else if (!closed) yes(c, "touching", a.intersects(b), false, w);
	exact(c, "merge", d(a.merge(b)), flat(join(p, q))); yes(c, "equal", a == b, d(a) == d(b)); yes(c, "not_equal", a != b, d(a) != d(b));
	yes(c, "has_no_area", a.has_no_area(), a.size.x <= 0 || a.size.y <= 0); same1(c, "area", a.get_area(), (double)a.size.x * a.size.y);
}
template <class R, class T> static void rectgrow(Ctx &c, const R &a, T k, T l, T t, T q, T u) {
	Bx p = bx(a); D w = flat({ add(p.lo, D(2, -(double)k)), add(p.hi, D(2, (double)k)) }); exact(c, "grow", d(a.grow(k)), w); R g = a; g.grow_by(k); exact(c, "grow_by", d(g), w);
	exact(c, "grow_individual", d(a.grow_individual(l, t, q, u)), { p.lo[0] - l, p.lo[1] - t, (double)a.size.x + l + q, (double)a.size.y + t + u });
	exact(c, "grow_left", d(a.grow_margin(MARGIN_LEFT, k)), { p.lo[0] - k, p.lo[1], (double)a.size.x + k, (double)a.size.y }); exact(c, "grow_top", d(a.grow_margin(MARGIN_TOP, k)), { p.lo[0], p.lo[1] - k, (double)a.size.x, (double)a.size.y + k });
	exact(c, "grow_right", d(a.grow_margin(MARGIN_RIGHT, k)), { p.lo[0], p.lo[1], (double)a.size.x + k, (double)a.size.y }); exact(c, "grow_bottom", d(a.grow_margin(MARGIN_BOTTOM, k)), { p.lo[0], p.lo[1], (double)a.size.x, (double)a.size.y + k });
	for (int s = 0; s < 4; s++) exact(c, "grow_side", d(a.grow_side((Side)s, k)), d(a.grow_margin((Margin)s, k)));
}
} // namespace r05

UNIT("R05", "rect2", 240000, 2400000) {
	Rng &r = c.rng; Rect2 a = rrect(r), b = rrect(r); if (r.chance(0.3)) b = Rect2(a.position + Vector2(r.range(0, 2), r.range(0, 2)), Vector2(r.range(0, 4), r.range(0, 4))); Bx p = bx(a), q = bx(b); std::string w = sd(d(a)) + " and " + sd(d(b)); bool ne = a.size.x > 0 && a.size.y > 0;
	switch (r.range(0, 6)) {
		case 0: { if (!ne || b.size.x <= 0 || b.size.y <= 0) return; c.label("relations"); rectcommon(c, a, b, false); yes(c, "intersects_with_borders", a.intersects(b, true), overlap(p, q, true), w); yes(c, "approx_itself", a.is_equal_approx(a), true); Rect2 t = a; (r.chance(0.5) ? t.position : t.size)[r.range(0, 1)] += 0.5f; yes(c, "approx_different", a.is_equal_approx(t), false); } break;
		case 1: { c.label("grow"); rectgrow<Rect2, float>(c, a, r.range(0, 9), r.range(-3, 9), r.range(-3, 9), r.range(-3, 9), r.range(-3, 9)); } break;
		case 2: {
			c.label("points"); Vector2 v(r.range(-8, 8), r.range(-8, 8)); D m = d(v); yes(c, "has_point", a.has_point(v), contains(p, m, true), sd(d(a)) + " " + sd(m)); Bx e = join(p, { m, m }); exact(c, "expand", d(a.expand(v)), flat(e)); Rect2 t = a; t.expand_to(v); exact(c, "expand_to", d(t), flat(e)); exact(c, "end", d(a.get_end()), p.hi); same(c, "center", d(a.get_center()), sc(add(p.lo, p.hi), 0.5)); t = a; t.set_end(v); exact(c, "set_end", d(t), { p.lo[0], p.lo[1], m[0] - p.lo[0], m[1] - p.lo[1] });
			Rect2 n = t.abs(); exact(c, "abs", d(n), { std::min(p.lo[0], m[0]), std::min(p.lo[1], m[1]), std::fabs(m[0] - p.lo[0]), std::fabs(m[1] - p.lo[1]) });
			double dx = std::max({ p.lo[0] - m[0], 0.0, m[0] - p.hi[0] }), dy = std::max({ p.lo[1] - m[1], 0.0, m[1] - p.hi[1] }); if (dx == 0 || dy == 0) { bool ex = m[0] == p.hi[0] || m[1] == p.hi[1]; if (!ex) same1(c, "distance", a.distance_to(v), dx + dy); }
		} break;
		case 3: {
			if (!ne) return; c.label("segment"); Vector2 f(r.f(-9, 9), r.f(-9, 9)), t(r.f(-9, 9), r.f(-9, 9)); if (r.chance(0.2)) t.x = f.x; double ta, tb; int ax, bxi; D dir = add(d(t), d(f), -1); bool h1 = clipline(p, d(f), dir, 0, 1, 1e-3, ta, ax), h2 = clipline(p, d(f), dir, 0, 1, -1e-3, tb, bxi); if (h1 != h2 || (h1 && ax != bxi)) break; Vector2 pos, nor; bool g = a.intersects_segment(f, t, &pos, &nor); yes(c, "intersects_segment", g, h1, sd(d(a)) + sd(d(f)) + sd(d(t))); yes(c, "segment_without_outputs", a.intersects_segment(f, t), h1);
			if (h1 && g) { clipline(p, d(f), dir, 0, 1, 0, ta, ax); same(c, "entry_point", d(pos), add(d(f), dir, ta), 20); D n(2, 0.0); if (ax >= 0) n[ax] = dir[ax] > 0 ? -1 : 1; same(c, "entry_normal", d(nor), n); }
		} break;
		case 4: {
			if (!ne) return; c.label("polygon"); int n = r.range(3, 6); Vector2 ce(r.f(-9, 9), r.f(-9, 9)); float R = r.f(1, 8); D an; for (int i = 0; i < n; i++) an.push_back(r.uni(0, 6.28)); std::sort(an.begin(), an.end()); if (r.chance(0.5)) std::reverse(an.begin(), an.end()); std::vector<Vector2> pt; std::vector<D> pd, axes{ { 1, 0 }, { 0, 1 } }; bool thin = false; for (int i = 0; i < n; i++) { pt.push_back(ce + Vector2(R * std::cos(an[i]), R * std::sin(an[i]))); pd.push_back(d(pt.back())); }
			for (int i = 0; i < n; i++) { D e = add(pd[(i + 1) % n], pd[i], -1); if (len(e) < 0.2) thin = true; axes.push_back({ -e[1], e[0] }); } if (thin) break; double gp = gap(corners(p), pd, axes); if (std::fabs(gp) > 1e-2) { yes(c, "intersects_polygon", a.intersects_filled_polygon(pt.data(), n), gp < 0, sd(d(a)) + strf(" %d points around ", n) + sd(d(ce)) + strf(" radius %g gap %g", R, gp)); c.count(gp < 0 ? "polygon_hits" : "polygon_misses"); }
		} break;
		case 5: {
			if (!ne || b.size.x <= 0 || b.size.y <= 0) return; c.label("transformed"); float an = r.f(-4, 4); Vector2 s(r.f(0.3, 2) * (r.chance(0.2) ? -1 : 1), r.f(0.3, 2)); Transform2D t(an, s, 0, Vector2(r.f(-9, 9), r.f(-9, 9))); D X{ std::cos(an) * s.x, std::sin(an) * s.x }, Y{ -std::sin(an) * s.y, std::cos(an) * s.y }, O = d(t.columns[2]); std::vector<D> pts; for (auto &k : corners(q)) pts.push_back(add(add(O, X, k[0]), Y, k[1])); double gp = gap(corners(p), pts, { { 1, 0 }, { 0, 1 }, X, Y }); if (std::fabs(gp) > 1e-2) { yes(c, "intersects_transformed", a.intersects_transformed(t, b), gp < 0, w + sd(d(t))); c.count(gp < 0 ? "transformed_hits" : "transformed_misses"); }
		} break;
		default: { c.label("text"); std::string s = CharString(String(a).utf8()).get_data(); float x, y, z, u; c.check("text", sscanf(s.c_str(), "[P: (%f, %f), S: (%f, %f)]", &x, &y, &z, &u) == 4 && D{ x, y, z, u } == d(a), s); } break;
	}
	c.obs(hd(d(a), hd(d(b))), true);
}
UNIT("R05", "rect2i", 160000, 1600000) {
	Rng &r = c.rng; int big = r.chance(0.3) ? r.range(100000000, 900000000) : 0; auto rr = [&] { return Rect2i(r.range(-6, 6) + big, r.range(-6, 6) - big, r.range(0, 7), r.range(0, 7)); };
	Rect2i a = rr(), b = rr(); Bx p = bx(a); if (r.chance(0.3)) { b.position = a.position + Vector2i(r.range(0, 2), r.range(0, 2)); b.size = Vector2i(r.range(0, 4), r.range(0, 4)); } bool ne = !(a.size.x <= 0 || a.size.y <= 0 || b.size.x <= 0 || b.size.y <= 0);
	switch (r.range(0, 3)) {
		case 0: if (!ne) return; c.label("relations"); rectcommon(c, a, b, true); break;
		case 1: c.label("grow"); rectgrow<Rect2i, int>(c, a, r.range(0, 9), r.range(-3, 9), r.range(-3, 9), r.range(-3, 9), r.range(-3, 9)); break;
		case 2: {
			c.label("points"); Vector2i v(r.range(-8, 8) + big, r.range(-8, 8) - big); D m = d(v); yes(c, "has_point", a.has_point(v), contains(p, m, true), sd(d(a)) + " " + sd(m)); Bx e = join(p, { m, m }); exact(c, "expand", d(a.expand(v)), flat(e)); Rect2i t = a; t.expand_to(v); exact(c, "expand_to", d(t), flat(e)); exact(c, "end", d(a.get_end()), p.hi); exact(c, "center", d(a.get_center()), { p.lo[0] + a.size.x / 2, p.lo[1] + a.size.y / 2 }); t = a; t.set_end(v); exact(c, "set_end", d(t), { p.lo[0], p.lo[1], m[0] - p.lo[0], m[1] - p.lo[1] });
			exact(c, "abs", d(t.abs()), { std::min(p.lo[0], m[0]), std::min(p.lo[1], m[1]), std::fabs(m[0] - p.lo[0]), std::fabs(m[1] - p.lo[1]) });
		} break;
		default: { c.label("build"); int x = r.range(-1000000000, 1000000000), y = r.range(-1000000000, 1000000000), s = r.range(0, 1000000000), u = r.range(0, 1000000000); exact(c, "from_numbers", d(Rect2i(x, y, s, u)), { (double)x, (double)y, (double)s, (double)u }); exact(c, "from_points", d(Rect2i(Vector2i(x, y), Vector2i(s, u))), { (double)x, (double)y, (double)s, (double)u }); Rect2i k(r.range(-99, 99), 3, 4, 5); exact(c, "to_rect2", d(k.to_rect2()), d(k)); exact(c, "through_rect2", d(Rect2i(Rect2(k))), d(k)); std::string t = CharString(String(a).utf8()).get_data(); c.check("text", t == strf("[P: (%d, %d), S: (%d, %d)]", a.position.x, a.position.y, a.size.x, a.size.y), t); } break;
	}
	c.obs(hd(d(a), hd(d(b))), true);
}
UNIT("R05", "aabb", 240000, 2400000) {
	Rng &r = c.rng; auto rr = [&](int lo) { return AABB(Vector3(cell(r), cell(r), cell(r)), Vector3(r.range(lo, 7), r.range(lo, 7), r.range(lo, 7))); }; AABB a = rr(1), b = rr(r.chance(0.1) ? 0 : 1); if (r.chance(0.3)) { b.position = a.position + Vector3(r.range(0, 2), r.range(0, 2), r.range(0, 2)); b.size = Vector3(r.range(1, 4), r.range(1, 4), r.range(1, 4)); } Bx p = bx(a), q = bx(b); std::string w = sd(d(a)) + " and " + sd(d(b));
	switch (r.range(0, 8)) {
		case 0: {
			if (b.has_no_volume()) return; c.label("relations"); yes(c, "intersects", a.intersects(b), overlap(p, q, false), w); yes(c, "intersects_inclusive", a.intersects_inclusive(b), overlap(p, q, true), w); yes(c, "encloses", a.encloses(b), inside(p, q), w); exact(c, "merge", d(a.merge(b)), flat(join(p, q))); if (overlap(p, q, true)) exact(c, "intersection", d(a.intersection(b)), flat(meet(p, q))); else exact(c, "no_intersection", d(a.intersection(b)), D(6, 0.0)); yes(c, "equal", a == b, d(a) == d(b)); yes(c, "not_equal", a != b, d(a) != d(b)); AABB t = a; t.merge_with(b); exact(c, "merge_in_place", d(t), d(a.merge(b))); yes(c, "approx_itself", a.is_equal_approx(a), true); (r.chance(0.5) ? t.position : t.size)[r.range(0, 2)] += 0.5f; yes(c, "approx_different", a.merge(b).is_equal_approx(t), false);
		} break;
		case 1: {
			c.label("points"); Vector3 v(r.range(-8, 8), r.range(-8, 8), r.range(-8, 8)); D m = d(v); yes(c, "has_point", a.has_point(v), contains(p, m, false), sd(d(a)) + sd(m)); Bx e = join(p, { m, m }); exact(c, "expand", d(a.expand(v)), flat(e)); exact(c, "end", d(a.get_end()), p.hi); same(c, "center", d(a.get_center()), sc(add(p.lo, p.hi), 0.5)); AABB t = a; t.set_end(v); D mm = d(t.abs()), w3; for (int i = 0; i < 3; i++) w3.push_back(std::min(p.lo[i], m[i])); for (int i = 0; i < 3; i++) w3.push_back(std::fabs(m[i] - p.lo[i])); exact(c, "set_end_abs", mm, w3); int k = r.range(0, 5); exact(c, "grow", d(a.grow(k)), flat({ add(p.lo, D(3, -(double)k)), add(p.hi, D(3, (double)k)) }));
			int n = r.range(1, 8); Vector<Vector3> pts; Bx all; for (int i = 0; i < n; i++) { Vector3 z = r3(r); pts.push_back(z); all = i ? join(all, { d(z), d(z) }) : Bx{ d(z), d(z) }; } AABB cr = a; yes(c, "from_points_answer", cr.create_from_points(pts), true); same(c, "from_points", d(cr), flat(all)); Vector<Vector3> no; AABB keep = a; yes(c, "from_no_points", keep.create_from_points(no), false); exact(c, "kept", d(keep), d(a));
		} break;
		case 2: {
			c.label("size"); D s = d(b.size); same1(c, "volume", b.get_volume(), s[0] * s[1] * s[2]); yes(c, "has_no_volume", b.has_no_volume(), s[0] <= 0 || s[1] <= 0 || s[2] <= 0, w); yes(c, "has_no_surface", b.has_no_surface(), s[0] <= 0 && s[1] <= 0 && s[2] <= 0, w); double M = *std::max_element(s.begin(), s.end()), N = *std::min_element(s.begin(), s.end()); same1(c, "longest_size", b.get_longest_axis_size(), M); same1(c, "shortest_size", b.get_shortest_axis_size(), N); int i = b.get_longest_axis_index(), j = b.get_shortest_axis_index(); c.check("longest_axis", s[i] == M && d(b.get_longest_axis())[i] == 1 && len(d(b.get_longest_axis())) == 1, w); c.check("shortest_axis", s[j] == N && d(b.get_shortest_axis())[j] == 1 && len(d(b.get_shortest_axis())) == 1, w);
		} break;
		case 3: {
			c.label("corners"); std::set<D> got, want; for (auto &k : corners(p)) want.insert(k); for (int i = 0; i < 8; i++) got.insert(d(a.get_endpoint(i))); c.check("endpoints", got == want, sd(d(a))); std::set<std::pair<D, D>> ed, we; for (auto &x : want) for (auto &y : want) { int df = 0; for (int i = 0; i < 3; i++) df += x[i] != y[i]; if (df == 1 && x < y) we.insert({ x, y }); } for (int i = 0; i < 12; i++) { Vector3 f, t; a.get_edge(i, f, t); D x = d(f), y = d(t); ed.insert({ std::min(x, y), std::max(x, y) }); } c.check("edges", ed == we, sd(d(a)));
			Vector3 n = r3(r); float dd = r.f(-5, 5), lo, hi; a.project_range_in_plane(Plane(n, dd), lo, hi); double l = 1e30, h = -1e30; for (auto &x : want) { double t = dot(x, d(n)) - dd; l = std::min(l, t); h = std::max(h, t); } same(c, "projected_range", { lo, hi }, { l, h }, 10 + mx(d(n)) * 10);
			if (std::fabs(l) > 1e-2 && std::fabs(h) > 1e-2) yes(c, "intersects_plane", a.intersects_plane(Plane(n, dd)), l < 0 && h > 0, sd(d(a)) + sd(d(n)) + strf(" d %g", dd));
		} break;
		case 4: case 5: {
			c.label("lines"); Vector3 f(r.f(-9, 9), r.f(-9, 9), r.f(-9, 9)), t(r.f(-9, 9), r.f(-9, 9), r.f(-9, 9)); if (r.chance(0.7)) t = a.position + a.size * Vector3(r.f(-0.2, 1.2), r.f(-0.2, 1.2), r.f(-0.2, 1.2)); if (r.chance(0.2)) { int i = r.range(0, 2); t[i] = f[i]; } D F = d(f), dir = add(d(t), F, -1); double ta, tb; int ax, ay; std::string ww = sd(d(a)) + sd(F) + sd(dir);
			bool h1 = clipline(p, F, dir, 0, 1, 1e-3, ta, ax), h2 = clipline(p, F, dir, 0, 1, -1e-3, tb, ay); if (h1 == h2 && (!h1 || ax == ay)) { Vector3 pos, nor; bool g = a.intersects_segment(f, t, &pos, &nor); yes(c, "intersects_segment", g, h1, ww); yes(c, "segment_without_outputs", a.intersects_segment(f, t), h1); if (g && h1) { clipline(p, F, dir, 0, 1, 0, ta, ax); same(c, "entry_point", d(pos), add(F, dir, ta), 20); D n(3, 0.0); if (ax >= 0) n[ax] = dir[ax] > 0 ? -1 : 1; same(c, "entry_normal", d(nor), n); } }
			h1 = clipline(p, F, dir, 0, 1e9, 1e-3, ta, ax), h2 = clipline(p, F, dir, 0, 1e9, -1e-3, tb, ay); if (len(dir) > 1e-2 && h1 == h2 && (!h1 || (ax == ay && ax >= 0))) { Vector3 dv = t - f, pos, nor; bool g = a.intersects_ray(f, dv, &pos, &nor); yes(c, "intersects_ray", g, h1, ww); if (dir[0] && dir[1] && dir[2]) yes(c, "smits_ray", a.smits_intersect_ray(f, dv, 0, 1e9), h1, ww); if (g && h1) { clipline(p, F, dir, 0, 1e9, 0, ta, ax); same(c, "ray_entry_point", d(pos), add(F, dir, ta), 30); D n(3, 0.0); n[ax] = dir[ax] > 0 ? -1 : 1; same(c, "ray_entry_normal", d(nor), n); c.count("ray_hits"); } else c.count("ray_misses"); }
		} break;
		case 6: {
			c.label("convex_shape"); Basis m(Vector3(r.f(-3, 3), r.f(-3, 3), r.f(-3, 3))); Vector3 ce(r.f(-9, 9), r.f(-9, 9), r.f(-9, 9)), h(r.f(0.5, 9), r.f(0.5, 9), r.f(0.5, 9)); std::vector<Plane> pl; std::vector<Vector3> pts; std::vector<D> pd; for (int i = 0; i < 3; i++) { Vector3 n = m.get_column(i); pl.push_back(Plane(n, n.dot(ce) + h[i])); pl.push_back(Plane(-n, -n.dot(ce) + h[i])); } for (int k = 0; k < 8; k++) { Vector3 v = ce; for (int i = 0; i < 3; i++) v += m.get_column(i) * (k >> i & 1 ? h[i] : -h[i]); pts.push_back(v); pd.push_back(d(v)); }
			std::vector<D> cs = corners(p); D A0 = d(m.get_column(0)), A1 = d(m.get_column(1)), A2 = d(m.get_column(2)); double face = gap(cs, pd, { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, A0, A1, A2 }); if (std::fabs(face) > 1e-2) { yes(c, "intersects_convex_shape", a.intersects_convex_shape(pl.data(), 6, pts.data(), 8), face < 0, sd(d(a)) + strf("gap %g", face)); c.count(face < 0 ? "shape_hits" : "shape_misses"); } double out = -1e30; for (auto &k : cs) for (auto &P : pl) out = std::max(out, dot(k, d(P.normal)) - P.d); if (std::fabs(out) > 1e-3) yes(c, "inside_convex_shape", a.inside_convex_shape(pl.data(), 6), out < 0, sd(d(a)));
		} break;
		case 7: { c.label("quantize"); AABB t(Vector3(r.f(-9, 9), r.f(-9, 9), r.f(-9, 9)), Vector3(r.f(0.1, 9), r.f(0.1, 9), r.f(0.1, 9))); float u = r.f(0.3, 2); AABB g = t.quantized(u); Bx gb = bx(g), tb = bx(t); bool ok = true; for (int i = 0; i < 3; i++) { double x = gb.lo[i] / u, y = gb.hi[i] / u; ok = ok && std::fabs(x - std::round(x)) < 1e-3 && std::fabs(y - std::round(y)) < 1e-3 && gb.lo[i] <= tb.lo[i] + 1e-4 && gb.hi[i] >= tb.hi[i] - 1e-4 && tb.lo[i] - gb.lo[i] < u + 1e-3 && gb.hi[i] - tb.hi[i] < u + 1e-3; } c.check("quantized", ok, sd(d(t)) + strf(" by %g gave ", u) + sd(d(g))); } break;
		default: { c.label("text"); std::string s = CharString(String(a).utf8()).get_data(); float v[6]; c.check("text", sscanf(s.c_str(), "[P: (%f, %f, %f), S: (%f, %f, %f)]", v, v + 1, v + 2, v + 3, v + 4, v + 5) == 6 && D(v, v + 6) == d(a), s); } break;
	}
	c.obs(hd(d(a), hd(d(b))), true);
}

UNIT("R05", "plane", 240000, 2400000) {
	Rng &r = c.rng; Vector3 n = unit<Vector3, 3>(r); float dd = num(r); Plane p(n, dd); D N = d(n); Vector3 a = r3(r), b = r3(r); D x = d(a), y = d(b); double da = dot(N, x) - dd, db = dot(N, y) - dd, S = 1 + mx(x) + mx(y) + std::fabs(dd); std::string w = sd(d(p)) + sd(x) + sd(y);
	switch (r.range(0, 5)) {
		case 0: {
			c.label("points"); same1(c, "distance", p.distance_to(a), da, S); if (std::fabs(da) > 1e-4 * S) { yes(c, "is_point_over", p.is_point_over(a), da > 0, w); yes(c, "has_no_point", p.has_point(a, std::fabs(da) / 2), false, w); yes(c, "has_point", p.has_point(a, std::fabs(da) * 2), true, w); } same(c, "project", d(p.project(a)), add(x, N, -da), S); same1(c, "any_point", dot(N, d(p.get_any_point())), dd, S); exact(c, "center", d(p.center()), d(p.get_any_point()));
			D pe = d(p.get_any_perpendicular_normal()); same(c, "perpendicular", { dot(pe, N), len(pe) }, { 0, 1 }, 1, 1e-4);
		} break;
		case 1: {
			c.label("normalize"); float k = r.f(0.1, 9); Plane q(n * k, dd * k); same(c, "normalized", d(q.normalized()), d(p), S, 1e-4); exact(c, "zero_normalized", d(Plane(0, 0, 0, 3).normalized()), D(4, 0.0)); exact(c, "opposite", d(-p), sc(d(p), -1)); Plane t = p; yes(c, "equal", t == p && !(t != p), true); yes(c, "approx", p.is_equal_approx(t) && p.is_equal_approx_any_side(-p) && p.is_equal_approx_any_side(p), true, w); t.d += 0.1f * (1 + std::fabs(dd)); yes(c, "approx_different", p.is_equal_approx(t) || p.is_equal_approx_any_side(t) || p.is_equal_approx_any_side(-t) || p == t, false, w); t = p; t.normal = n + Vector3(0.1f, 0, 0); yes(c, "approx_other_normal", p.is_equal_approx(t) || p.is_equal_approx_any_side(t), false, w); if (std::fabs(dd) > 0.1) yes(c, "approx_opposite", p.is_equal_approx(-p), false, w);
		} break;
		case 2: {
			c.label("three_points"); Vector3 q = r3(r); D z = d(q), cr = cross(add(x, z, -1), add(x, y, -1)); double l = len(cr); if (l < 0.05 * S * S) break; Plane t(a, b, q), u(a, b, q, COUNTERCLOCKWISE); D m = sc(cr, 1 / l); same(c, "normal", d(t.normal), m, 1, 1e-3); same(c, "normal_counterclockwise", d(u.normal), sc(m, -1), 1, 1e-3); for (auto *v : { &x, &y, &z }) { same1(c, "through_point", dot(d(t.normal), *v) - t.d, 0, S, 1e-3); same1(c, "through_point_counterclockwise", dot(d(u.normal), *v) - u.d, 0, S, 1e-3); } exact(c, "point_normal", d(Plane(a, n).normal), N); same1(c, "point_normal_d", Plane(a, n).d, dot(x, N), S);
		} break;
		case 3: {
			c.label("three_planes"); Plane q(unit<Vector3, 3>(r), num(r)), s(unit<Vector3, 3>(r), num(r)); double det = dot(cross(N, d(q.normal)), d(s.normal)); Vector3 o; if (std::fabs(det) > 0.1) { bool g = p.intersect_3(q, s, &o); yes(c, "meet", g, true); double T = 1 + std::fabs(dd) + std::fabs(q.d) + std::fabs(s.d); same(c, "meeting_point", { dot(N, d(o)) - dd, dot(d(q.normal), d(o)) - q.d, dot(d(s.normal), d(o)) - s.d }, { 0, 0, 0 }, T, 1e-4); yes(c, "meet_without_output", p.intersect_3(q, s), true); } yes(c, "parallel_do_not_meet", p.intersect_3(Plane(n, dd + 3), q, &o), false, w);
		} break;
		default: {
			c.label("lines"); Vector3 o; if (std::fabs(da - db) < 0.05 * S || std::fabs(da) < 1e-3 * S || std::fabs(db) < 1e-3 * S) break; bool hit = (da > 0) != (db > 0); bool g = p.intersects_segment(a, b, &o); yes(c, "intersects_segment", g, hit, w); double t = da / (da - db); if (g && hit) same(c, "crossing", d(o), add(x, add(y, x, -1), t), S, 1e-4); g = p.intersects_ray(a, b - a, &o); yes(c, "intersects_ray", g, t > 0, w); if (g && t > 0 && t < 10) same(c, "ray_crossing", d(o), add(x, add(y, x, -1), t), S * (1 + t), 1e-4); Vector3 par = p.get_any_perpendicular_normal(); if (std::fabs(dot(d(par), N)) < 1e-6) yes(c, "parallel_ray", p.intersects_ray(a, par, &o), false, w);
		} break;
	}
	c.obs(hd(d(p), hd(x, hd(y))), true);
}
UNIT("R05", "face3", 240000, 2400000) {
	Rng &r = c.rng; auto pt = [&] { return r.chance(0.3) ? Vector3(r.range(-4, 4), r.range(-4, 4), r.range(-4, 4)) : Vector3(r.f(-9, 9), r.f(-9, 9), r.f(-9, 9)); }; Face3 f(pt(), pt(), pt()); D v[3] = { d(f.vertex[0]), d(f.vertex[1]), d(f.vertex[2]) }; D cr = cross(add(v[0], v[2], -1), add(v[0], v[1], -1)); double ar = len(cr) / 2; if (ar < 0.3) return; D N = sc(cr, 0.5 / ar); std::string w = sd(v[0]) + sd(v[1]) + sd(v[2]);
	auto area = [](const Face3 &q) { return len(cross(add(d(q.vertex[1]), d(q.vertex[0]), -1), add(d(q.vertex[2]), d(q.vertex[0]), -1))) / 2; };
	switch (r.range(0, 7)) {
		case 0: {
			c.label("measures"); same1(c, "area", f.get_area(), ar, 20); same1(c, "twice_area_squared", f.get_twice_area_squared(), 4 * ar * ar, 100); yes(c, "is_degenerate", f.is_degenerate(), false, w); yes(c, "flat_is_degenerate", Face3(f.vertex[0], f.vertex[1], f.vertex[1]).is_degenerate(), true); same(c, "median", d(f.get_median_point()), sc(add(add(v[0], v[1]), v[2]), 1 / 3.0), 10); Plane p = f.get_plane(); same(c, "plane_normal", d(p.normal), N, 1, 1e-3); same1(c, "plane_distance", p.d, dot(N, v[0]), 20, 1e-3); Plane p2 = f.get_plane(COUNTERCLOCKWISE); same(c, "plane_counterclockwise", d(p2), sc(d(p), -1), 10, 1e-3); Bx b = join(join({ v[0], v[0] }, { v[1], v[1] }), { v[2], v[2] }); same(c, "aabb", d(f.get_aabb()), flat(b), 20); std::string s = CharString(String(f).utf8()).get_data(); float q[9]; bool ok = sscanf(s.c_str(), "(%f, %f, %f), (%f, %f, %f), (%f, %f, %f)", q, q + 1, q + 2, q + 3, q + 4, q + 5, q + 6, q + 7, q + 8) == 9; for (int i = 0; ok && i < 9; i++) ok = std::fabs(q[i] - v[i / 3][i % 3]) < 1e-4; c.check("text", ok, s);
		} break;
		case 1: { c.label("random_point"); Math::seed(r.next()); for (int i = 0; i < 6; i++) { D p = d(f.get_random_point_inside()); double s = 0; for (int k = 0; k < 3; k++) s += len(cross(add(v[k], p, -1), add(v[(k + 1) % 3], p, -1))) / 2; same1(c, "inside", s, ar, 50, 1e-4); } } break;
		case 2: {
			c.label("closest_point"); Vector3 p(r.f(-15, 15), r.f(-15, 15), r.f(-15, 15)); D P = d(p); double mnE = 1e30; for (int k = 0; k < 3; k++) mnE = std::min(mnE, len(add(v[k], v[(k + 1) % 3], -1))); if (mnE < 0.5) break; // nearest of: the foot of the perpendicular when it is inside, and the nearest points of the edges
			double best = 1e30; D bp; auto take = [&](const D &z) { double l = len(add(z, P, -1)); if (l < best) { best = l; bp = z; } }; D foot = add(P, N, -(dot(N, P) - dot(N, v[0]))); double s = 0; for (int k = 0; k < 3; k++) s += len(cross(add(v[k], foot, -1), add(v[(k + 1) % 3], foot, -1))) / 2; if (s < ar * (1 + 1e-9)) take(foot); for (int k = 0; k < 3; k++) { D e = add(v[(k + 1) % 3], v[k], -1); double t = dot(add(P, v[k], -1), e) / dot(e, e); take(add(v[k], e, std::min(1.0, std::max(0.0, t)))); } D g = d(f.get_closest_point_to(p)); c.check("closest", std::fabs(len(add(g, P, -1)) - best) < 2e-2 && len(add(g, bp, -1)) < 0.3, w + " to " + sd(P) + " gave " + sd(g) + " want " + sd(bp));
		} break;
		case 3: {
			c.label("split"); Plane p(unit<Vector3, 3>(r), r.f(-6, 6)); int in = r.range(0, 3); if (in == 1) { p.d = p.normal.dot(f.vertex[r.range(0, 2)]); } else if (in == 2) { int i = r.range(0, 2); Vector3 e = (f.vertex[(i + 1) % 3] - f.vertex[i]).normalized(), o = unit<Vector3, 3>(r); Vector3 n = o - e * e.dot(o); if (n.length() < 0.2) break; p = Plane(f.vertex[i], n.normalized()); }
			double dist[3], wo = 0, wu = 0; int on = 0, over = 0, under = 0; bool amb = false; for (int i = 0; i < 3; i++) { dist[i] = dot(d(p.normal), v[i]) - p.d; if (p.has_point(f.vertex[i])) { on++; amb = amb || std::fabs(dist[i]) > 8e-6; } else { (dist[i] > 0 ? over : under)++; amb = amb || std::fabs(dist[i]) < 0.05; } } if (amb || on == 3) break;
			auto part = [&](bool up) { std::vector<D> poly; for (int i = 0; i < 3; i++) { int j = (i + 1) % 3; double di = up ? dist[i] : -dist[i], dj = up ? dist[j] : -dist[j]; if (std::fabs(di) < 1e-5 || di > 0) poly.push_back(v[i]); if (std::fabs(di) >= 1e-5 && std::fabs(dj) >= 1e-5 && (di > 0) != (dj > 0)) poly.push_back(add(v[i], add(v[j], v[i], -1), di / (di - dj))); } double s = 0; for (size_t k = 2; k < poly.size(); k++) s += len(cross(add(poly[k - 1], poly[0], -1), add(poly[k], poly[0], -1))) / 2; return s; }; wo = part(true); wu = part(false);
			std::vector<Face3> res(3); bool up[3] = { false, false, false }; int n = f.split_by_plane(p, res.data(), up); double go = 0, gu = 0; bool side = n >= 1 && n <= 3; for (int i = 0; i < n && i < 3; i++) { (up[i] ? go : gu) += area(res[i]); for (int k = 0; k < 3; k++) { double t = dot(d(p.normal), d(res[i].vertex[k])) - p.d; side = side && (up[i] ? t > -1e-3 : t < 1e-3); } } c.check("pieces_on_their_side", side, w + sd(d(p)) + strf(" %d pieces", n)); same(c, "areas", { go, gu }, { wo, wu }, 50, 1e-4); c.count(strf("split_%d_on_%d_over_%d_under", on, over, under).c_str());
		} break;
		case 4: {
			c.label("box"); AABB a(Vector3(r.f(-9, 9), r.f(-9, 9), r.f(-9, 9)), Vector3(r.f(0.5, 9), r.f(0.5, 9), r.f(0.5, 9))); std::vector<D> ax{ { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, N }; for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) { D u(3, 0.0); u[i] = 1; D q = cross(u, add(v[(k + 1) % 3], v[k], -1)); if (len(q) > 0.05) ax.push_back(q); } double g = gap(corners(bx(a)), { v[0], v[1], v[2] }, ax); if (std::fabs(g) < 1e-2) break; yes(c, "intersects_aabb", f.intersects_aabb(a), g < 0, w + sd(d(a))); yes(c, "intersects_aabb2", f.intersects_aabb2(a), g < 0, w + sd(d(a))); c.count(g < 0 ? "box_hits" : "box_misses");
			Transform t(Basis(Vector3(r.f(-3, 3), r.f(-1, 1), r.f(-3, 3))), r3(r)); Vector3 n = r3(r); float lo, hi; f.project_range(n, t, lo, hi); double l = 1e30, h = -1e30; for (int i = 0; i < 3; i++) { D z = d(t.origin); for (int k = 0; k < 3; k++) z[k] += dot(d(t.basis.rows[k]), v[i]); double q = dot(z, d(n)); l = std::min(l, q); h = std::max(h, q); } same(c, "project_range", { lo, hi }, { l, h }, 20 * (1 + mx(d(n))) * (1 + mx(d(t.origin))));
		} break;
		case 6: {
			c.label("line"); Vector3 from(r.f(-12, 12), r.f(-12, 12), r.f(-12, 12)), to(r.f(-12, 12), r.f(-12, 12), r.f(-12, 12)); if (r.chance(.7)) { double w0 = r.f(-.3, 1.2), w1 = r.f(-.3, 1.2); Vector3 q = f.vertex[0] * (1 - w0 - w1) + f.vertex[1] * w0 + f.vertex[2] * w1; to = from + (q - from) * r.f(-1.5, 2.5); }
			D P = d(from), dir = add(d(to), P, -1); double den = dot(N, dir), L = len(dir); if (L < .5 || std::fabs(den) < .03 * L || ar < 1) break; double t = (dot(N, v[0]) - dot(N, P)) / den; D at = add(P, dir, t); double bc[3]; bool amb = std::fabs(t) * L < .05; double mn = 1;
			for (int k = 0; k < 3; k++) { bc[k] = dot(N, cross(add(v[(k + 2) % 3], at, -1), add(v[(k + 1) % 3], at, -1))) / (2 * ar); mn = std::min(mn, bc[k]); } amb = amb || std::fabs(mn) < 5e-3; if (amb) break;
			bool inside = mn > 0; Vector3 o; bool g = f.intersects_ray(from, to - from, &o); yes(c, "intersects_ray", g, inside && t > 0, w + " from " + sd(P) + " along " + sd(dir)); if (g && inside && t > 0) same(c, "ray_point", d(o), at, 40 * (1 + std::fabs(t)), 1e-4); yes(c, "ray_without_output", f.intersects_ray(from, to - from), g, w);
			if (std::fabs(t - 1) < 5e-3) break; g = f.intersects_segment(from, to, &o); yes(c, "intersects_segment", g, inside && t > 0 && t < 1, w + " from " + sd(P) + " to " + sd(d(to))); if (g && inside && t > 0) same(c, "segment_point", d(o), at, 40, 1e-4); yes(c, "segment_without_output", f.intersects_segment(from, to), g, w);
		} break;
		case 5: {
			c.label("support"); double cd = dot(N, v[0]); if (std::fabs(cd) > .02) yes(c, "clock_direction", f.get_clock_dir() == CLOCKWISE, cd < 0, w);
			Vector3 n = unit<Vector3, 3>(r); int k = r.range(0, 2); if (r.chance(.4)) { Vector3 e = (f.vertex[(k + 1) % 3] - f.vertex[k]).normalized(); n = n - e * e.dot(n); if (n.length() < .1) break; n.normalize(); } else if (r.chance(.3)) n = Vector3(N[0], N[1], N[2]); Transform tr; if (r.chance(.5)) { tr.basis = Basis(unit<Vector3, 3>(r), r.f(0, 3)); tr.origin = Vector3(r.f(-5, 5), r.f(-5, 5), r.f(-5, 5)); }
			Vector3 wn = tr.basis.xform(n), out[4] = { Vector3(99, 99, 99), Vector3(99, 99, 99), Vector3(99, 99, 99), Vector3(99, 99, 99) }; int cnt = -7, mx = r.range(1, 4); f.get_support(wn, tr, out, &cnt, mx); D dn = d(n); double best = -1e30; int bi = 0; for (int q = 0; q < 3; q++) { double z = dot(dn, v[q]); if (z > best) { best = z; bi = q; } }
			if (!c.check("support_count", cnt >= 1 && cnt <= std::min(3, mx), w + strf(" %d support points of at most %d", cnt, mx))) break;
			bool seen[3] = { false, false, false }; double diam = 0; for (int q = 0; q < 3; q++) diam = std::max(diam, len(add(v[q], v[(q + 1) % 3], -1)));
			for (int q = 0; q < cnt; q++) { int id = -1; for (int z = 0; z < 3; z++) if (len(add(d(out[q]), d(tr.xform(f.vertex[z])), -1)) < 1e-4 && !seen[z]) { id = z; break; } if (!c.check("support_vertex", id >= 0, w + " a support point that is no vertex")) break; seen[id] = true; c.check("support_far", best - dot(dn, v[id]) <= (dot(N, dn) < .979 ? .052 : .21) * diam + 1e-3, w + strf(" support point %d lies %g behind", id, best - dot(dn, v[id]))); }
			double fd = dot(N, dn); if (fd > .981) { yes(c, "support_face", cnt == std::min(3, mx), true, w); break; } if (fd > .979) break;
			bool edge = false, sure = true, near = false; for (int q = 0; q < 3; q++) { if (q != bi && std::fabs(dot(dn, v[q]) - best) < 2e-3) near = true; } for (int q : { bi, (bi + 2) % 3 }) { D e = add(v[q], v[(q + 1) % 3], -1); double z = std::fabs(dot(sc(e, 1 / len(e)), dn)); if (z < .048) edge = true; else if (z < .052) sure = false; }
			if (edge) yes(c, "support_edge", cnt == std::min(2, mx), true, w + " towards " + sd(dn)); else if (sure && !near) yes(c, "support_single", cnt == 1, true, w + " towards " + sd(dn));
		} break;
		default: {
			c.label("side"); Face3 g(pt(), pt(), pt()); if (r.chance(0.2)) g = Face3(f.vertex[0], f.vertex[1] , f.vertex[2]); else if (r.chance(0.3)) g.vertex[r.range(0, 2)] = f.vertex[r.range(0, 2)]; int o = 0, u = 0; bool amb = false; Plane p = f.get_plane(); for (int i = 0; i < 3; i++) { bool shared = false; for (int k = 0; k < 3; k++) shared = shared || g.vertex[i] == f.vertex[k]; if (shared) { amb = amb || !p.has_point(g.vertex[i]); continue; } double t = dot(N, d(g.vertex[i])) - dot(N, v[0]); amb = amb || std::fabs(t) < 1e-2; (t > 0 ? o : u)++; } if (amb) break; int want = o && !u ? Face3::SIDE_OVER : u && !o ? Face3::SIDE_UNDER : !u && !o ? Face3::SIDE_COPLANAR : Face3::SIDE_SPANNING; c.check("side_of", f.get_side_of(g) == want, strf("side %d want %d ", (int)f.get_side_of(g), want) + w); if (want == Face3::SIDE_OVER) c.check("side_of_counterclockwise", f.get_side_of(g, COUNTERCLOCKWISE) == Face3::SIDE_UNDER, w);
		} break;
	}
	c.obs(hd(v[0], hd(v[1], hd(v[2]))), true);
}

// ---- rotations and matrices: everything below is judged on 3x3 (row major) matrices of doubles ----
static D mm(const D &a, const D &b) { D r(9, 0.0); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) r[3 * i + j] += a[3 * i + k] * b[3 * k + j]; return r; }
static D mt(const D &a) { D r(9); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[3 * j + i] = a[3 * i + j]; return r; }
static D mv(const D &a, const D &v) { D r(3, 0.0); for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) r[i] += a[3 * i + k] * v[k]; return r; }
static D dg(double x, double y, double z) { return { x, 0, 0, 0, y, 0, 0, 0, z }; }
static D dg(const Vector3 &v) { return dg(v.x, v.y, v.z); }
static D dg3(const D &v) { return dg(v[0], v[1], v[2]); }
static double det3(const D &a) { return a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]); }
static D inv3(const D &a) { double q = 1 / det3(a); D r(9); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int a1 = (j + 1) % 3, a2 = (j + 2) % 3, b1 = (i + 1) % 3, b2 = (i + 2) % 3; r[3 * i + j] = (a[3 * a1 + b1] * a[3 * a2 + b2] - a[3 * a1 + b2] * a[3 * a2 + b1]) * q; } return r; }
static D rod(const D &n, double t) { double c = std::cos(t), s = std::sin(t), l = len(n), x = n[0] / l, y = n[1] / l, z = n[2] / l; return { c + x * x * (1 - c), x * y * (1 - c) - z * s, x * z * (1 - c) + y * s, y * x * (1 - c) + z * s, c + y * y * (1 - c), y * z * (1 - c) - x * s, z * x * (1 - c) - y * s, z * y * (1 - c) + x * s, c + z * z * (1 - c) }; }
static D ax3(int i, double t) { return rod({ i == 0 ? 1.0 : 0, i == 1 ? 1.0 : 0, i == 2 ? 1.0 : 0 }, t); }
static D qm(const D &q) { double l = dot(q, q), s = 2 / l, x = q[0], y = q[1], z = q[2], w = q[3]; return { 1 - s * (y * y + z * z), s * (x * y - w * z), s * (x * z + w * y), s * (x * y + w * z), 1 - s * (x * x + z * z), s * (y * z - w * x), s * (x * z - w * y), s * (y * z + w * x), 1 - s * (x * x + y * y) }; }
static D qmul(const D &a, const D &b) { D u{ a[0], a[1], a[2] }, v{ b[0], b[1], b[2] }, w = add(add(sc(v, a[3]), u, b[3]), cross(u, v)); return { w[0], w[1], w[2], a[3] * b[3] - dot(u, v) }; }
static D euler(const char *o, const D &e) { D r = dg(1, 1, 1); for (int i = 0; i < 3; i++) r = mm(r, ax3(o[i] - 'x', e[o[i] - 'x'])); return r; }
static D slerpd(D a, D b, double t, bool shortest) { double k = dot(a, b); if (shortest && k < 0) { k = -k; b = sc(b, -1); } if (k > 1 - 1e-12) return add(sc(a, 1 - t), b, t); double w = std::acos(std::max(-1.0, std::min(1.0, k))), s = std::sin(w); return add(sc(a, std::sin((1 - t) * w) / s), b, std::sin(t * w) / s); }
static D ortho(const D &a) { D t = mt(a), c[3]; for (int i = 0; i < 3; i++) { c[i] = D(t.begin() + 3 * i, t.begin() + 3 * i + 3); for (int k = 0; k < i; k++) c[i] = add(c[i], c[k], -dot(c[i], c[k])); c[i] = sc(c[i], 1 / len(c[i])); } D r; for (auto &q : c) r.insert(r.end(), q.begin(), q.end()); return mt(r); }
static double angle_of(const D &a) { D s{ a[7] - a[5], a[2] - a[6], a[3] - a[1] }; return std::atan2(len(s), a[0] + a[4] + a[8] - 1); }
static Quaternion rq(Rng &r) { if (r.chance(0.06)) { static const float h[3][4] = { { 0, 0, 0, 1 }, { 0, 1, 0, 0 }, { 0, 0, -1, 0 } }; int k = r.range(0, 2); return Quaternion(h[k][0], h[k][1], h[k][2], h[k][3]); } for (;;) { D q; for (int i = 0; i < 4; i++) q.push_back(r.uni(-1, 1)); double l = len(q); if (l < 0.1 || l > 1) continue; return Quaternion(q[0] / l, q[1] / l, q[2] / l, q[3] / l); } }
static Basis rb(Rng &r) { D m = qm(d(rq(r))); return Basis(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]); }
static Vector3 ra(Rng &r) { auto a = [&] { return r.chance(0.15) ? (float)(Math_PI / 2 * r.range(-2, 2)) : r.f(-3.1f, 3.1f); }; return Vector3(a(), a(), a()); }
static Vector3 rs(Rng &r, bool neg) { auto a = [&] { float x = r.chance(0.2) ? 1 : r.f(0.4f, 2); return neg && r.chance(0.4) ? -x : x; }; return Vector3(a(), a(), a()); }
static Basis mk(const D &m) { return Basis(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]); }
static Basis gen(Rng &r) { Basis b; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) b.rows[i][j] = r.chance(0.2) ? r.range(-3, 3) : r.f(-4, 4); return b; }
static Basis genreg(Rng &r) { for (;;) { Basis b = gen(r); if (std::fabs(det3(d(b))) > 2) return b; } }
static bool rotsame(Ctx &c, const char *kind, const Quaternion &q, const D &m, double rel = 1e-5) { D x = d(q); return same1(c, kind, len(x), 1, 1, 1e-4) && same(c, kind, qm(x), m, 1, rel); }

UNIT("R05", "quaternion", 240000, 2400000) {
	Rng &r = c.rng; Quaternion a = rq(r), b = rq(r); D x = d(a), y = d(b), A = qm(x), B = qm(y); float t = r.f(0, 1);
	switch (r.range(0, 15)) {
		case 0: {
			c.label("components"); float k = num(r); Quaternion g(num(r), num(r), num(r), num(r)); D u = d(g); double S = 1 + mx(u); same(c, "sum", d(g + b), add(u, y), S); same(c, "difference", d(g - b), add(u, y, -1), S); exact(c, "negation", d(-g), sc(u, -1)); same(c, "scaled", d(g * k), sc(u, k), S); if (k != 0) same(c, "unscaled", d(g / k), sc(u, 1.0 / k), S);
			Quaternion z = g; z += b; exact(c, "add_in_place", d(z), d(g + b)); z = g; z -= b; exact(c, "subtract_in_place", d(z), d(g - b)); z = g; z *= k; exact(c, "scale_in_place", d(z), d(g * k)); same1(c, "dot", g.dot(b), dot(u, y), S); same1(c, "length", g.length(), len(u)); same1(c, "length_squared", g.length_squared(), dot(u, u)); yes(c, "equal", g == g, true); z = g; z[r.range(0, 3)] += 1 + S; yes(c, "different", g == z, false); yes(c, "not_equal", g != z, true); yes(c, "approx", g.is_equal_approx(g), true); yes(c, "not_approx", g.is_equal_approx(z), false);
			if (len(u) > 0.1) { same(c, "normalized", d(g.normalized()), sc(u, 1 / len(u))); z = g; z.normalize(); exact(c, "normalize_in_place", d(z), d(g.normalized())); yes(c, "is_normalized", z.is_normalized(), true); if (std::fabs(len(u) - 1) > 0.01) yes(c, "is_not_normalized", g.is_normalized(), false); }
		} break;
		case 1: {
			c.label("compose"); same(c, "product", d(a * b), qmul(x, y)); same(c, "product_rotates_second_then_first", qm(d(a * b)), mm(A, B)); Quaternion z = a; z *= b; exact(c, "multiply_in_place", d(z), d(a * b)); z = a; z *= z; same(c, "square_in_place", d(z), qmul(x, x)); Vector3 v = r3(r); same(c, "times_vector", d(a * v), qmul(x, { v.x, v.y, v.z, 0 }), 1 + mx(d(v)));
		} break;
		case 2: { c.label("xform"); Vector3 v = r3(r); same(c, "xform", d(a.xform(v)), mv(A, d(v)), 1 + mx(d(v))); rotsame(c, "inverse", a.inverse(), mt(A)); Quaternion g = a * r.f(1.3f, 3); exact(c, "xform_refused", d(g.xform(v)), d(v)); exact(c, "inverse_refused", d(g.inverse()), { 0, 0, 0, 1 }); } break;
		case 3: { c.label("axis_angle"); Vector3 n = unit<Vector3, 3>(r); float w = r.chance(0.2) ? (float)(Math_PI * r.range(-2, 2) / 2) : r.f(-6, 6); rotsame(c, "from_axis_angle", Quaternion(n, w), rod(d(n), w)); Quaternion q; q.set_axis_angle(n, w); exact(c, "set_axis_angle", d(q), d(Quaternion(n, w))); Vector3 bad = n * r.f(1.5f, 3); Quaternion z = a; z.set_axis_angle(bad, w); exact(c, "axis_refused", d(z), x); } break;
		case 4: {
			c.label("get_axis_angle"); if (std::fabs(x[3]) < 0.999) { Vector3 n; float w; a.get_axis_angle(n, w); same1(c, "axis_is_unit", n.length(), 1, 1, 1e-3); same(c, "axis_angle_rotation", rod(d(n), w), A, 1, 1e-4); same(c, "get_axis", d(a.get_axis()), d(n), 1, 1e-4); same1(c, "get_angle", a.get_angle(), w, 1, 1e-4); } else same1(c, "small_angle", std::min<double>(a.get_angle(), 2 * M_PI - a.get_angle()), 2 * std::acos(std::min(1.0, std::fabs(x[3]))), 1, 3e-3);
		} break;
		case 5: {
			c.label("log_exp"); if (std::fabs(x[3]) < 0.999) { Quaternion l = a.log(); double w = 2 * std::acos(x[3]), s = std::sqrt(1 - x[3] * x[3]); same(c, "log", d(l), { x[0] / s * w, x[1] / s * w, x[2] / s * w, 0 }, 1, 1e-4); same(c, "exp_of_log", d(l.exp()), x, 1, 1e-4); }
			Vector3 n = unit<Vector3, 3>(r) * r.f(0.01f, 3); Quaternion e = Quaternion(n.x, n.y, n.z, 0).exp(); rotsame(c, "exp", e, rod(d(n), len(d(n)))); exact(c, "exp_of_zero", d(Quaternion(0, 0, 0, 0).exp()), { 0, 0, 0, 1 });
		} break;
		case 6: {
			c.label("slerp"); double k = dot(x, y); if (r.chance(0.3)) { b = Quaternion(unit<Vector3, 3>(r), r.chance(0.5) ? r.f(0.0001f, 0.02f) : r.f(0.02f, 3)) * a; b.normalize(); if (r.chance(0.3)) b = -b; y = d(b); k = dot(x, y); }
			if (std::fabs(k) > 1e-3) { same(c, "slerp", d(a.slerp(b, t)), slerpd(x, y, t, true), 1, 5e-5); same(c, "slerp_start", d(a.slerp(b, 0)), x, 1, 1e-5); same(c, "slerp_end", qm(d(a.slerp(b, 1))), qm(y), 1, 5e-5); }
			if (std::fabs(k) < 0.999) same(c, "slerpni", d(a.slerpni(b, t)), slerpd(x, y, t, false), 1, 2e-4); else if (k > 0.99999) same(c, "slerpni_near", d(a.slerpni(b, t)), slerpd(x, y, t, false), 1, 2e-2);
			Quaternion bad = b * 2; exact(c, "slerp_refused", d(a.slerp(bad, t)), { 0, 0, 0, 1 }); exact(c, "slerpni_refused", d(bad.slerpni(a, t)), { 0, 0, 0, 1 });
		} break;
		case 7: {
			c.label("cubic_slerp"); Quaternion p = rq(r), q = rq(r); D P = d(p), Q = d(q); double k1 = dot(x, y), k2 = dot(P, Q); if (std::fabs(k1) < 1e-3 || std::fabs(k1) > 0.999 || std::fabs(k2) > 0.99) break;
			D s = slerpd(x, y, t, true), u = slerpd(P, Q, t, false); double k3 = dot(s, u); if (std::fabs(k3) > 0.99) break; same(c, "cubic_slerp", d(a.cubic_slerp(b, p, q, t)), slerpd(s, u, 2 * t * (1 - t), false), 1, 1e-3);
		} break;
		case 8: {
			c.label("spherical_cubic"); D n = d(unit<Vector3, 3>(r)); double o = r.uni(-1, 1), an[4]; for (auto &q : an) q = o + r.uni(-1.1, 1.1); auto at = [&](double w) { return Quaternion(Vector3(n[0], n[1], n[2]), (float)w); }; Quaternion base = rq(r);
			auto mk2 = [&](double w) { Quaternion q = base * at(w); q.normalize(); return r.chance(0.3) ? -q : q; }; Quaternion pre = mk2(an[0]), from = mk2(an[1]), to = mk2(an[2]), post = mk2(an[3]);
			double w = cubic({ an[0] }, { an[1] }, { an[2] }, { an[3] }, t)[0]; same(c, "spherical_cubic_about_one_axis", qm(d(from.spherical_cubic_interpolate(to, pre, post, t))), mm(qm(d(base)), rod(n, w)), 1, 0.02);
		} break;
		case 9: {
			c.label("euler"); Vector3 e = ra(r); Quaternion q; q.set_euler_xyz(e); rotsame(c, "set_euler_xyz", q, euler("xyz", d(e))); q.set_euler_yxz(e); rotsame(c, "set_euler_yxz", q, euler("yxz", d(e))); q.set_euler(e); rotsame(c, "set_euler", q, euler("yxz", d(e))); rotsame(c, "euler_constructor", Quaternion(e), euler("yxz", d(e)));
			double m = std::fabs(A[2]); if (m < 0.9998) same(c, "get_euler_xyz", euler("xyz", d(a.get_euler_xyz())), A, 1, 3e-4); if (std::fabs(A[5]) < 0.9998) { same(c, "get_euler_yxz", euler("yxz", d(a.get_euler_yxz())), A, 1, 3e-4); exact(c, "get_euler", d(a.get_euler()), d(a.get_euler_yxz())); }
		} break;
		case 10: {
			c.label("shortest_arc"); Vector3 u = unit<Vector3, 3>(r), v = unit<Vector3, 3>(r); bool opp = r.chance(0.3); if (opp) v = -u; double k = dot(d(u), d(v)); if (!opp && k < -0.995) break; Quaternion q(u, v); same1(c, "arc_is_unit", q.length(), 1, 1, 1e-4); same(c, opp ? "opposite_directions" : "arc_takes_first_to_second", mv(qm(d(q)), d(u)), d(v), 1, 1e-3); same1(c, "arc_is_shortest", angle_of(qm(d(q))), std::acos(std::max(-1.0, std::min(1.0, k))), 1, 5e-3);
		} break;
		case 11: { c.label("angle_to"); same1(c, "angle_to", a.angle_to(b), angle_of(mm(mt(A), B)), 1, 3e-3); same1(c, "angle_to_itself", a.angle_to(r.chance(0.5) ? a : -a), 0, 1, 3e-3); } break;
		case 12: { c.label("matrix"); same(c, "to_matrix", d(Basis(a)), A); Quaternion g = a * r.f(0.4f, 3); same(c, "unnormalised_to_matrix", d(Basis(g)), A); rotsame(c, "from_matrix", Basis(a).get_quaternion(), A); } break;
		case 13: {
			c.label("half_turns"); Vector3 n = unit<Vector3, 3>(r); float w = Math_PI + (r.chance(0.4) ? 0 : r.f(-0.2f, 0.2f)); D m = rod(d(n), w); Basis bb = mk(m); rotsame(c, "from_half_turn", bb.get_quaternion(), m, 1e-4);
		} break;
		case 14: { c.label("variant"); Variant v = a; Quaternion back = v.operator Quaternion(); exact(c, "variant_round_trip", d(back), x); Basis bb = v.operator Basis(); same(c, "variant_to_basis", d(bb), A); } break;
		default: { c.label("default"); exact(c, "identity", d(Quaternion()), { 0, 0, 0, 1 }); Quaternion q; q.set(x[0], x[1], x[2], x[3]); exact(c, "set", d(q), x); Quaternion z(b); z = a; exact(c, "assign", d(z), x); } break;
	}
	c.obs(hd(x, hd(y)), true);
}
UNIT("R05", "basis", 320000, 3200000) {
	Rng &r = c.rng; Basis a = r.chance(0.3) ? rb(r) : gen(r), b = r.chance(0.3) ? rb(r) : gen(r); D x = d(a), y = d(b); double S = 10; Vector3 v = r3(r); D V = d(v); double SV = 10 * (1 + mx(V));
	switch (r.range(0, 25)) {
		case 0: {
			c.label("arithmetic"); float k = num(r); same(c, "sum", d(a + b), add(x, y), S); same(c, "difference", d(a - b), add(x, y, -1), S); same(c, "scaled_by_number", d(a * k), sc(x, k), S); same(c, "product", d(a * b), mm(x, y), 3 * S); Basis t = a; t *= b; exact(c, "multiply_in_place", d(t), d(a * b)); t = a; t *= t; same(c, "square_in_place", d(t), mm(x, x), 3 * S); t = a; t += b; exact(c, "add_in_place", d(t), d(a + b)); t = a; t -= b; exact(c, "subtract_in_place", d(t), d(a - b)); t = a; t *= k; exact(c, "scale_in_place", d(t), d(a * k)); same(c, "transpose_xform", d(a.transpose_xform(b)), mm(mt(x), y), 3 * S);
		} break;
		case 1: {
			c.label("xform"); same(c, "xform", d(a.xform(v)), mv(x, V), SV); same(c, "xform_inv", d(a.xform_inv(v)), mv(mt(x), V), SV); same(c, "tdot", { a.tdotx(v), a.tdoty(v), a.tdotz(v) }, mv(mt(x), V), SV); Basis g; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) g.rows[i][j] = r.range(-4, 4); Vector3i p(r.range(-900, 900), r.range(-900, 900), r.range(-900, 900)); exact(c, "integer_xform", d(g.xform(p)), mv(d(g), d(p))); exact(c, "integer_xform_inv", d(g.xform_inv(p)), mv(mt(d(g)), d(p)));
		} break;
		case 2: {
			c.label("inverse"); Basis g = genreg(r); D G = d(g); same1(c, "determinant", a.determinant(), det3(x), 50); D w = inv3(G); same(c, "inverse", d(g.inverse()), w, 1 + mx(w), 1e-4); Basis t = g; t.invert(); exact(c, "invert_in_place", d(t), d(g.inverse())); exact(c, "transposed", d(a.transposed()), mt(x)); t = a; t.transpose(); exact(c, "transpose_in_place", d(t), mt(x));
			Basis z; for (int j = 0; j < 3; j++) { z.rows[0][j] = r.range(-4, 4); z.rows[1][j] = r.range(-4, 4); z.rows[2][j] = z.rows[0][j] * 2 - z.rows[1][j]; } exact(c, "singular_refused", d(z.inverse()), d(z));
		} break;
		case 3: {
			c.label("access"); int i = r.range(0, 2); exact(c, "get_column", d(a.get_column(i)), { x[i], x[3 + i], x[6 + i] }); exact(c, "get_axis", d(a.get_axis(i)), d(a.get_column(i))); exact(c, "get_row", d(a.get_row(i)), { x[3 * i], x[3 * i + 1], x[3 * i + 2] }); exact(c, "main_diagonal", d(a.get_main_diagonal()), { x[0], x[4], x[8] }); D w = x; for (int k = 0; k < 3; k++) w[3 * k + i] = V[k]; Basis t = a; t.set_column(i, v); exact(c, "set_column", d(t), w); t = a; t.set_axis(i, v); exact(c, "set_axis", d(t), w); w = x; for (int k = 0; k < 3; k++) w[3 * i + k] = V[k]; t = a; t.set_row(i, v); exact(c, "set_row", d(t), w);
			t = a; t.set_columns(b.get_column(0), b.get_column(1), b.get_column(2)); exact(c, "set_columns", d(t), y); t = a; t.set(b.get_column(0), b.get_column(1), b.get_column(2)); exact(c, "set_by_columns", d(t), y); t = Basis(b.rows[0], b.rows[1], b.rows[2]); exact(c, "from_rows", d(t), y); t = a; t.set_diagonal(v); exact(c, "set_diagonal", d(t), dg(v)); t = a; t.set_zero(); exact(c, "set_zero", d(t), D(9, 0.0)); exact(c, "from_scale", d(Basis::from_scale(v)), dg(v)); exact(c, "identity", d(Basis()), dg(1, 1, 1));
			yes(c, "equal", a == a, true); t = a; t.rows[i][r.range(0, 2)] += 1; yes(c, "different", a == t, false); yes(c, "not_equal", a != t, true); yes(c, "approx", a.is_equal_approx(a), true); yes(c, "not_approx", a.is_equal_approx(t), false);
		} break;
		case 4: case 5: {
			c.label("euler"); Vector3 e = ra(r); Basis t; static const char *o[6] = { "xyz", "xzy", "yzx", "yxz", "zxy", "zyx" }; int k = r.range(0, 5); 
			switch (k) { case 0: t.set_euler_xyz(e); break; case 1: t.set_euler_xzy(e); break; case 2: t.set_euler_yzx(e); break; case 3: t.set_euler_yxz(e); break; case 4: t.set_euler_zxy(e); break; default: t.set_euler_zyx(e); }
			D w = euler(o[k], d(e)); same(c, "set_euler", d(t), w); if (k == 3) { exact(c, "euler_constructor", d(Basis(e)), d(t)); Basis u; u.set_euler(e); exact(c, "set_euler_default", d(u), d(t)); }
			double mid = std::fabs(std::cos(e[o[k][1] - 'x'])); if (mid > 0.02 || mid < 1e-6) { Vector3 g; switch (k) { case 0: g = t.get_euler_xyz(); break; case 1: g = t.get_euler_xzy(); break; case 2: g = t.get_euler_yzx(); break; case 3: g = t.get_euler_yxz(); break; case 4: g = t.get_euler_zxy(); break; default: g = t.get_euler_zyx(); } if (mid < 1e-6) c.label("gimbal_lock"); if (!same(c, "euler_angles_of_the_rotation", euler(o[k], d(g)), w, 1, 3e-4)) c.fail("order", o[k]); if (k == 3) exact(c, "get_euler", d(t.get_euler()), d(g)); }
		} break;
		case 6: {
			c.label("axis_angle"); Vector3 n = unit<Vector3, 3>(r); float w = r.chance(0.2) ? (float)(Math_PI * r.range(-2, 2) / 2) : r.f(-6, 6); D m = rod(d(n), w); Basis t(n, w); same(c, "from_axis_angle", d(t), m); Basis u = a; u.set_axis_angle(n * 2, w); exact(c, "axis_refused", d(u), x); double an = angle_of(m); if (an < 0.02 && an > 1e-6) break; if (an > M_PI - 0.02 && an < M_PI - 1e-5) break;
			Vector3 p; float q; t.get_axis_angle(p, q); same1(c, "axis_is_unit", p.length(), 1, 1, 2e-3); same(c, "axis_angle_of_the_rotation", rod(d(p), q), m, 1, 1e-3); yes(c, "angle_in_range", q >= 0 && q <= (float)M_PI + 1e-4, true, strf("%g", q));
		} break;
		case 7: { c.label("scale"); same(c, "scaled", d(a.scaled(v)), mm(dg(v), x), SV); Basis t = a; t.scale(v); exact(c, "scale_in_place", d(t), d(a.scaled(v))); same(c, "scaled_local", d(a.scaled_local(v)), mm(x, dg(v)), SV); t = a; t.scale_local(v); exact(c, "scale_local_in_place", d(t), d(a.scaled_local(v))); } break;
		case 8: {
			c.label("rotate"); Vector3 n = unit<Vector3, 3>(r); float w = r.f(-6, 6); D m = rod(d(n), w); same(c, "rotated", d(a.rotated(n, w)), mm(m, x), S); Basis t = a; t.rotate(n, w); exact(c, "rotate_in_place", d(t), d(a.rotated(n, w))); same(c, "rotated_local", d(a.rotated_local(n, w)), mm(x, m), S); t = a; t.rotate_local(n, w); exact(c, "rotate_local_in_place", d(t), d(a.rotated_local(n, w)));
			Vector3 e = ra(r); same(c, "rotated_by_euler", d(a.rotated(e)), mm(euler("yxz", d(e)), x), S); t = a; t.rotate(e); exact(c, "rotate_by_euler_in_place", d(t), d(a.rotated(e))); exact(c, "rotatedv", d(a.rotatedv(e)), d(t)); Quaternion q = rq(r); same(c, "rotated_by_quaternion", d(a.rotated(q)), mm(qm(d(q)), x), S); t = a; t.rotate(q); exact(c, "rotate_by_quaternion_in_place", d(t), d(a.rotated(q))); exact(c, "rotatedq", d(a.rotatedq(q)), d(t));
		} break;
		case 9: {
			c.label("rotation_and_scale"); Quaternion q = rq(r); Vector3 s = rs(r, true); D R = qm(d(q)), M = mm(R, dg(s)); Basis t(q, s); same(c, "quaternion_scale", d(t), M); Vector3 n = unit<Vector3, 3>(r); float w = r.f(-6, 6); same(c, "axis_angle_scale", d(Basis(n, w, s)), mm(rod(d(n), w), dg(s))); Vector3 e = ra(r); same(c, "euler_scale", d(Basis(e, s)), mm(euler("yxz", d(e)), dg(s)));
			same(c, "get_scale_abs", d(t.get_scale_abs()), { std::fabs(s.x), std::fabs(s.y), std::fabs(s.z) }); D gs = dg(t.get_scale()); same(c, "rotation_times_scale", mm(qm(d(t.get_rotation_quaternion())), gs), M, 2, 1e-4);
			D back = mm(M, inv3(gs)); if (std::fabs(back[5]) < 0.9998) same(c, "rotation_euler_times_scale", mm(euler("yxz", d(t.get_rotation_euler())), gs), M, 2, 5e-4); double an = angle_of(back); if (an > 0.02 && an < M_PI - 0.02) { Vector3 p; float g; t.get_rotation_axis_angle(p, g); same(c, "rotation_axis_angle_times_scale", mm(rod(d(p), g), gs), M, 2, 1e-3); }
			D MtM = mm(mt(d(t)), d(t)); double off = std::max({ std::fabs(MtM[1]), std::fabs(MtM[2]), std::fabs(MtM[5]) }); if (off < 1e-6) { Basis o; Vector3 p = t.rotref_posscale_decomposition(o); yes(c, "decomposition_scale_positive", p.x > 0 && p.y > 0 && p.z > 0, true, sd(d(p))); same(c, "decomposition", mm(d(o), dg(p)), M, 2, 1e-4); same(c, "decomposition_orthogonal", mm(d(o), mt(d(o))), dg(1, 1, 1), 1, 1e-4); }
		} break;
		case 10: {
			c.label("local_rotation_and_scale"); Quaternion q = rq(r); Vector3 s = rs(r, false); D R = qm(d(q)), M = mm(dg(s), R); Basis t = mk(M); same(c, "get_scale_local", d(t.get_scale_local()), d(s)); double an = angle_of(R); if (an > 0.02 && an < M_PI - 0.02) { Vector3 p; float g; t.get_rotation_axis_angle_local(p, g); same(c, "local_axis_angle", rod(d(p), g), R, 1, 1e-3); }
		} break;
		case 11: {
			c.label("orthonormalize"); Basis g = genreg(r); D G = d(g), w = ortho(G); bool bad = false; for (int i = 0; i < 3; i++) bad = bad || len({ G[i], G[3 + i], G[6 + i] }) < 0.3; if (std::fabs(det3(G)) < 8 || bad) break; same(c, "orthonormalized", d(g.orthonormalized()), w, 1, 1e-4); Basis t = g; t.orthonormalize(); exact(c, "orthonormalize_in_place", d(t), d(g.orthonormalized()));
		} break;
		case 12: { c.label("orthogonalize"); Vector3 s = rs(r, true); D M = mm(d(rb(r)), dg(s)); Basis t = mk(M); same(c, "orthogonal_stays", d(t.orthogonalized()), M, 2, 1e-4); Basis u = t; u.orthogonalize(); exact(c, "orthogonalize_in_place", d(u), d(t.orthogonalized())); } break;
		case 13: {
			c.label("predicates"); Basis q = rb(r); yes(c, "rotation_is_rotation", q.is_rotation(), true, sd(d(q))); yes(c, "rotation_is_orthogonal", q.is_orthogonal(), true, sd(d(q))); Basis m = q.scaled_local(Vector3(1, -1, 1)); yes(c, "mirror_is_not_rotation", m.is_rotation(), false, sd(d(m))); yes(c, "mirror_is_orthogonal", m.is_orthogonal(), true, sd(d(m))); float k = r.chance(0.5) ? r.f(0.3f, 0.97f) : r.f(1.03f, 2); Basis z = q * k; yes(c, "scaled_is_not_orthogonal", z.is_orthogonal(), false, sd(d(z))); yes(c, "scaled_is_not_rotation", z.is_rotation(), false, sd(d(z)));
			Basis n; n.set_diagonal(v); yes(c, "diagonal", n.is_diagonal(), true); int i = r.range(0, 2), j = (i + r.range(1, 2)) % 3; n.rows[i][j] = r.chance(0.5) ? 0.01f : -0.01f; yes(c, "not_diagonal", n.is_diagonal(), false, sd(d(n))); Basis s = a; for (int p = 0; p < 3; p++) for (int g = 0; g < p; g++) s.rows[p][g] = s.rows[g][p]; yes(c, "symmetric", s.is_symmetric(), true); s.rows[i][j] += r.chance(0.5) ? 1 + std::fabs(s.rows[i][j]) : -1 - std::fabs(s.rows[i][j]); yes(c, "not_symmetric", s.is_symmetric(), false, sd(d(s))); if (s.diagonalize() != Basis()) c.fail("asymmetric_not_refused", sd(d(s)));
		} break;
		case 14: case 15: {
			c.label("diagonalize"); Basis s = r.chance(0.4) ? Basis() : gen(r); if (r.chance(0.3)) { s = Basis(); s.set_diagonal(v); int i = r.range(0, 1); s.rows[i][2] = r.f(-2, 2); } for (int p = 0; p < 3; p++) for (int g = 0; g < p; g++) s.rows[p][g] = s.rows[g][p]; D M = d(s); double sc0 = 1 + mx(M); Basis t = s, q = t.diagonalize(); D Q = d(q), T = d(t); same(c, "diagonalising_rotation", mm(Q, mt(Q)), dg(1, 1, 1), 1, 1e-3); same1(c, "diagonalising_rotation_is_proper", det3(Q), 1, 1, 1e-3); same(c, "diagonalised", mm(mm(Q, M), mt(Q)), T, sc0, 1e-3); same(c, "off_diagonal", { T[1], T[2], T[5] }, { 0, 0, 0 }, sc0, 5e-3);
		} break;
		case 16: { c.label("uniform_scale"); bool z = false; D w, n; double l = 0; for (int i = 0; i < 3; i++) { double q = len({ x[3 * i], x[3 * i + 1], x[3 * i + 2] }); z = z || q < 0.05; l += q / 3; } if (z) break; same1(c, "uniform_scale", a.get_uniform_scale(), l); for (int i = 0; i < 3; i++) { double q = len({ x[3 * i], x[3 * i + 1], x[3 * i + 2] }); for (int j = 0; j < 3; j++) w.push_back(x[3 * i + j] / q * l); } Basis t = a; t.make_scale_uniform(); same(c, "made_uniform", d(t), w, S); } break;
		case 17: {
			c.label("orthogonal_index"); std::set<D> seen; for (int i = 0; i < 24; i++) { Basis t; t.set_orthogonal_index(i); D w = d(t); seen.insert(w); c.check("index_round_trip", t.get_orthogonal_index() == i, strf("%d", i)); exact(c, "orthogonal_basis", mm(w, mt(w)), dg(1, 1, 1)); same1(c, "orthogonal_basis_proper", det3(w), 1); Basis u = t; for (int p = 0; p < 3; p++) for (int g = 0; g < 3; g++) u.rows[p][g] += r.f(-0.4f, 0.4f); c.check("index_of_nearby", u.get_orthogonal_index() == i, strf("%d", i)); } c.check("twenty_four", seen.size() == 24, strf("%d", (int)seen.size())); Basis t = a; t.set_orthogonal_index(r.chance(0.5) ? 24 + r.range(0, 9) : -r.range(1, 9)); exact(c, "index_refused", d(t), x);
		} break;
		case 18: { c.label("interpolate"); float t = r.f(0, 1); same(c, "lerp", d(a.lerp(b, t)), add(sc(x, 1 - (double)t), y, t), S); Quaternion p = rq(r), q = rq(r); double k = dot(d(p), d(q)); if (std::fabs(k) > 0.02) same(c, "slerp", d(Basis(p).slerp(Basis(q), t)), qm(slerpd(d(p), d(q), t, true)), 1, 1e-3); } break;
		case 19: {
			c.label("looking_at"); Vector3 f = unit<Vector3, 3>(r) * r.f(0.1f, 9), u = unit<Vector3, 3>(r) * r.f(0.1f, 4); D F = d(f), U = d(u); if (len(cross(F, U)) < 0.05 * len(F) * len(U)) break; bool front = r.chance(0.4); D m = d(Basis::looking_at(f, u, front)), X{ m[0], m[3], m[6] }, Y{ m[1], m[4], m[7] }, Z{ m[2], m[5], m[8] }; same(c, "looks_at_target", Z, sc(F, (front ? 1 : -1) / len(F)), 1, 1e-4); same1(c, "side_is_level", dot(X, U) / len(U), 0, 1, 1e-4); yes(c, "upright", dot(Y, U) > 0, true); same(c, "orthonormal", mm(m, mt(m)), dg(1, 1, 1), 1, 1e-4); same1(c, "right_handed", det3(m), 1, 1, 1e-4);
			exact(c, "zero_target_refused", d(Basis::looking_at(Vector3(), u)), dg(1, 1, 1)); exact(c, "zero_up_refused", d(Basis::looking_at(f, Vector3())), dg(1, 1, 1));
		} break;
		case 20: { c.label("from_z"); Vector3 n = unit<Vector3, 3>(r); Basis t = a; t.from_z(n); D m = d(t); exact(c, "third_row", { m[6], m[7], m[8] }, d(n)); same(c, "completed_basis", mm(m, mt(m)), dg(1, 1, 1), 1, 1e-4); } break;
		case 21: {
			c.label("rotate_to_align"); Vector3 u = unit<Vector3, 3>(r), w = unit<Vector3, 3>(r); if (len(cross(d(u), d(w))) < 0.03) break; Basis q = rb(r), t = q; t.rotate_to_align(u, w); D R = mm(d(t), mt(d(q))); same(c, "aligned", mv(R, d(u)), d(w), 1, 2e-4); same1(c, "smallest_rotation", angle_of(R), std::acos(dot(d(u), d(w))), 1, 1e-3); Basis z = q; z.rotate_to_align(u, u); exact(c, "already_aligned", d(z), d(q));
		} break;
		case 22: { c.label("normals"); Basis g = genreg(r); D n = d(unit<Vector3, 3>(r)); D w = mv(mt(inv3(d(g))), n); w = sc(w, 1 / len(w)); Vector3 N(n[0], n[1], n[2]); same(c, "normal", d(g.xform_normal(N)), w, 1, 1e-3); same(c, "normal_fast", d(g.get_normal_xform_basis().xform_normal_fast(N)), w, 1, 1e-3); } break;
		case 23: { c.label("vector_rotation"); Vector3 n = unit<Vector3, 3>(r); float w = r.f(-6, 6); same(c, "vector_rotated", d(v.rotated(n, w)), mv(rod(d(n), w), V), 1 + mx(V)); Vector3 u = v; u.rotate(n, w); exact(c, "vector_rotate_in_place", d(u), d(v.rotated(n, w))); } break;
		case 24: { c.label("refused_quaternion"); Basis z = rb(r) * r.f(1.2f, 2); exact(c, "not_a_rotation", d(z.get_quaternion()), { 0, 0, 0, 1 }); } break;
		default: { c.label("ratio_compare"); yes(c, "ratio_same", a.is_equal_approx_ratio(a, a), true); Basis z = a; int i = r.range(0, 2), j = r.range(0, 2); z.rows[i][j] = z.rows[i][j] == 0 ? 1 : z.rows[i][j] * 1.5f; yes(c, "ratio_different", a.is_equal_approx_ratio(a, z), false, sd(x) + sd(d(z))); } break;
	}
	c.obs(hd(x, hd(y)), true);
}

// ---- transforms: a 2D transform as a 3x3 matrix, a 3D transform and a projection as 4x4 matrices of doubles ----
static D m2(const Transform2D &t) { return { t.columns[0].x, t.columns[1].x, t.columns[2].x, t.columns[0].y, t.columns[1].y, t.columns[2].y, 0, 0, 1 }; }
static D m2(double xx, double xy, double yx, double yy, double ox, double oy) { return { xx, yx, ox, xy, yy, oy, 0, 0, 1 }; }
static D rot2(double w) { return { std::cos(w), -std::sin(w), 0, std::sin(w), std::cos(w), 0, 0, 0, 1 }; }
static D tr2(double x, double y) { return { 1, 0, x, 0, 1, y, 0, 0, 1 }; }
static D ap2(const D &m, const D &v) { D w = mv(m, { v[0], v[1], 1 }); return { w[0], w[1] }; }
static Transform2D rt2(Rng &r, bool rigid = false) { // rigid, scaled or arbitrary
	if (rigid || r.chance(0.3)) return Transform2D(r.f(-3.1f, 3.1f), Vector2(r.f(-9, 9), r.f(-9, 9)));
	for (;;) { Transform2D t(r.f(-4, 4), r.f(-4, 4), r.f(-4, 4), r.f(-4, 4), r.f(-9, 9), r.f(-9, 9)); if (std::fabs(t.columns[0].x * t.columns[1].y - t.columns[0].y * t.columns[1].x) > 1) return t; }
}
static Vector2 rsc2(Rng &r, bool neg) { return Vector2(r.f(0.4f, 3), (neg && r.chance(0.4) ? -1 : 1) * r.f(0.4f, 3)); }
static double wrapd(double a) { return std::remainder(a, 2 * M_PI); }

UNIT("R05", "transform2d", 240000, 2400000) {
	Rng &r = c.rng; Transform2D a = rt2(r), b = rt2(r); D A = m2(a), B = m2(b); Vector2 v(r.f(-9, 9), r.f(-9, 9)); D V = d(v); double S = 40; Rect2 q(Vector2(r.f(-9, 9), r.f(-9, 9)), Vector2(r.f(0, 9), r.f(0, 9)));
	auto box = [](const D &m, const Rect2 &k) { D lo{ 1e30, 1e30 }, hi{ -1e30, -1e30 }; for (int i = 0; i < 4; i++) { D p = ap2(m, { k.position.x + (i & 1 ? (double)k.size.x : 0), k.position.y + (i & 2 ? (double)k.size.y : 0) }); for (int j = 0; j < 2; j++) { lo[j] = std::min(lo[j], p[j]); hi[j] = std::max(hi[j], p[j]); } } return D{ lo[0], lo[1], hi[0] - lo[0], hi[1] - lo[1] }; };
	auto is = [&](const char *k, const Transform2D &t, const D &w, double rel = 1e-5) { same(c, k, m2(t), w, S, rel); };
	switch (r.range(0, 14)) {
		case 0: { c.label("compose"); is("product", a * b, mm(A, B)); Transform2D t = a; t *= b; exact(c, "multiply_in_place", m2(t), m2(a * b)); t = a; t *= t; is("square_in_place", t, mm(A, A)); float k = r.f(-3, 3); D w = d(a); same(c, "scaled_by_number", d(a * k), sc(w, k), S); t = a; t *= k; exact(c, "scale_by_number_in_place", d(t), d(a * k)); same(c, "product_applies_second_first", d((a * b).xform(v)), ap2(A, ap2(B, V)), 10 * S); } break;
		case 1: {
			c.label("xform"); same(c, "xform", d(a.xform(v)), ap2(A, V), S); D lin = A; lin[2] = lin[5] = 0; same(c, "basis_xform", d(a.basis_xform(v)), ap2(lin, V), S); Transform2D g = rt2(r, true); D Gi = inv3(m2(g)); same(c, "xform_inv_of_rigid", d(g.xform_inv(v)), ap2(Gi, V), S); same(c, "basis_xform_inv", d(a.basis_xform_inv(v)), ap2(mt(lin), V), S);
			same(c, "rect_xform", d(a.xform(q)), box(A, q), S); same(c, "rect_xform_inv_of_rigid", d(g.xform_inv(q)), box(Gi, q), S);
		} break;
		case 2: {
			c.label("integer_xform"); Transform2D g(r.range(-4, 4), r.range(-4, 4), r.range(-4, 4), r.range(-4, 4), r.range(-99, 99), r.range(-99, 99)); D G = m2(g), lin = G; lin[2] = lin[5] = 0; Vector2i p(r.range(-900, 900), r.range(-900, 900)); exact(c, "integer_xform", d(g.xform(p)), ap2(G, d(p))); exact(c, "integer_basis_xform", d(g.basis_xform(p)), ap2(lin, d(p))); exact(c, "integer_basis_xform_inv", d(g.basis_xform_inv(p)), ap2(mt(lin), d(p))); Vector2i o(p.x - (int)G[2], p.y - (int)G[5]); exact(c, "integer_xform_inv", d(g.xform_inv(p)), ap2(mt(lin), d(o)));
			PoolVector<Vector2i> l; int n = r.range(0, 5); for (int i = 0; i < n; i++) l.push_back(Vector2i(r.range(-90, 90), r.range(-90, 90))); PoolVector<Vector2i> f = g.xform(l), h = g.xform_inv(l); bool ok = f.size() == n && h.size() == n; for (int i = 0; ok && i < n; i++) ok = f.get(i) == g.xform(l.get(i)) && h.get(i) == g.xform_inv(l.get(i)); c.check("integer_list_xform", ok, strf("%d points", n));
		} break;
		case 3: { c.label("list"); PoolVector<Vector2> l; int n = r.range(0, 6); for (int i = 0; i < n; i++) l.push_back(r2(r)); PoolVector<Vector2> f = a.xform(l), h = a.xform_inv(l); bool ok = f.size() == n && h.size() == n; for (int i = 0; ok && i < n; i++) ok = f.get(i) == a.xform(l.get(i)) && h.get(i) == a.xform_inv(l.get(i)); c.check("list_xform", ok, strf("%d points", n)); } break;
		case 4: {
			c.label("inverse"); D w = inv3(A); same(c, "affine_inverse", m2(a.affine_inverse()), w, 1 + mx(w), 1e-4); Transform2D t = a; t.affine_invert(); exact(c, "affine_invert_in_place", m2(t), m2(a.affine_inverse())); Transform2D g = rt2(r, true); same(c, "inverse_of_rigid", m2(g.inverse()), inv3(m2(g)), S); t = g; t.invert(); exact(c, "invert_in_place", m2(t), m2(g.inverse())); same1(c, "basis_determinant", a.basis_determinant(), A[0] * A[4] - A[1] * A[3], S); float k = r.range(-3, 3); Transform2D z(1, k, 2, 2 * k, r.f(-3, 3), 1); exact(c, "singular_refused", m2(z.affine_inverse()), m2(z));
		} break;
		case 5: {
			c.label("rotation_scale_skew"); float w = r.f(-3.1f, 3.1f), k = r.f(-1.3f, 1.3f); Vector2 s = rsc2(r, false); D M = m2(std::cos(w) * s.x, std::sin(w) * s.x, -std::sin((double)w + k) * s.y, std::cos((double)w + k) * s.y, v.x, v.y); Transform2D t(w, s, k, v); is("from_rotation_scale_skew", t, M); Transform2D u = a; u.set_origin(v); u.set_rotation_scale_and_skew(w, s, k); is("set_rotation_scale_skew", u, M); same1(c, "get_rotation", wrapd(t.get_rotation() - w), 0, 1, 1e-4); same1(c, "get_skew", t.get_skew(), k, 1, 2e-3); same(c, "get_scale", d(t.get_scale()), d(s), 1, 1e-4);
			Vector2 s2 = rsc2(r, true); u.set_rotation_and_scale(w, s2); is("set_rotation_and_scale", u, m2(std::cos(w) * s2.x, std::sin(w) * s2.x, -std::sin(w) * s2.y, std::cos(w) * s2.y, v.x, v.y)); same(c, "get_mirrored_scale", d(u.get_scale()), d(s2), 1, 1e-4); same1(c, "get_mirrored_skew", u.get_skew(), 0, 1, 2e-3); is("from_rotation", Transform2D(w, v), mm(tr2(v.x, v.y), rot2(w)));
			float w2 = r.f(-3.1f, 3.1f); Transform2D x = u; x.set_rotation(w2); is("set_rotation_keeps_scale", x, m2(std::cos(w2) * s2.x, std::sin(w2) * s2.x, -std::sin(w2) * s2.y, std::cos(w2) * s2.y, v.x, v.y), 3e-5);
			x = u; x.set_skew(k); same1(c, "set_skew", x.get_skew(), k, 1, 2e-3); same1(c, "set_skew_keeps_rotation", wrapd(x.get_rotation() - u.get_rotation()), 0, 1, 1e-5); same(c, "set_skew_keeps_scale", d(x.get_scale()), d(s2), 1, 1e-4);
			x = a; Vector2 s3 = rsc2(r, true); x.set_scale(s3); double l0 = std::hypot(A[0], A[3]), l1 = std::hypot(A[1], A[4]); is("set_scale", x, m2(A[0] / l0 * s3.x, A[3] / l0 * s3.x, A[1] / l1 * s3.y, A[4] / l1 * s3.y, A[2], A[5]));
		} break;
		case 6: { c.label("rotate"); float w = r.f(-6, 6); is("rotated", a.rotated(w), mm(rot2(w), A)); Transform2D t = a; t.rotate(w); exact(c, "rotate_in_place", m2(t), m2(a.rotated(w))); is("rotated_local", a.rotated_local(w), mm(A, rot2(w))); } break;
		case 7: { c.label("scale"); Vector2 s(r.f(-3, 3), r.f(-3, 3)); D G = dg(s.x, s.y, 1), lin = A, w = mm(G, A), bs = w; bs[2] = A[2]; bs[5] = A[5]; is("scaled", a.scaled(s), w); Transform2D t = a; t.scale(s); exact(c, "scale_in_place", m2(t), m2(a.scaled(s))); is("basis_scaled", a.basis_scaled(s), bs); t = a; t.scale_basis(s); exact(c, "scale_basis_in_place", m2(t), m2(a.basis_scaled(s))); is("scaled_local", a.scaled_local(s), mm(A, G)); } break;
		case 8: {
			c.label("translate"); D w = mm(tr2(v.x, v.y), A), l = mm(A, tr2(v.x, v.y)), u = A; u[2] = u[5] = 0; is("translated", a.translated(v), w); is("translated_local", a.translated_local(v), l); is("untranslated", a.untranslated(), u); Transform2D t = a; t.translate(v); is("translate", t, w); t = a; t.translate(v.x, v.y); is("translate_xy", t, w); t = a; t.translater(v.x, v.y); is("translater", t, w); t = a; t.translatev(v); is("translatev", t, w); t = a; t.translate_local(v); is("translate_local", t, l); t = a; t.translate_local(v.x, v.y); is("translate_local_xy", t, l); t = a; t.translate_localr(v.x, v.y); is("translate_localr", t, l); t = a; t.translate_localv(v); is("translate_localv", t, l);
		} break;
		case 9: { c.label("orthonormalize"); double l = std::hypot(A[0], A[3]), x = A[0] / l, y = A[3] / l, sg = A[0] * A[4] - A[1] * A[3] < 0 ? -1 : 1; if (std::fabs(A[0] * A[4] - A[1] * A[3]) < 0.1 * l) break; is("orthonormalized", a.orthonormalized(), m2(x, y, -y * sg, x * sg, A[2], A[5]), 3e-5); Transform2D t = a; t.orthonormalize(); exact(c, "orthonormalize_in_place", m2(t), m2(a.orthonormalized())); } break;
		case 10: { c.label("looking_at"); Vector2 s = rsc2(r, true); Transform2D t(r.f(-3.1f, 3.1f), Vector2(r.f(-9, 9), r.f(-9, 9))); t = t.scaled_local(s); D o = d(t.columns[2]), e = add(V, o, -1); if (len(e) < 0.3) break; Transform2D u = t.looking_at(v); exact(c, "looking_keeps_origin", d(u.columns[2]), o); D xx = d(u.columns[0]); same(c, "looks_at", sc(xx, 1 / len(xx)), sc(e, 1 / len(e)), 1, 1e-4); } break;
		case 11: case 12: {
			c.label("interpolate"); float w1 = r.f(-3.1f, 3.1f), dw = r.f(-2.9f, 2.9f), t = r.f(0, 1); Vector2 s1 = rsc2(r, false), s2 = rsc2(r, false), o1(r.f(-9, 9), r.f(-9, 9)), o2(r.f(-9, 9), r.f(-9, 9)); if (r.chance(0.3)) { s1.y = -s1.y; s2.y = -s2.y; } if (r.chance(0.2)) dw = 0; Transform2D p(w1, o1), g(w1 + dw, o2); p = p.scaled_local(s1); g = g.scaled_local(s2);
			auto at = [&](double k) { D s = add(sc(d(s1), 1 - k), d(s2), k), o = add(sc(d(o1), 1 - k), d(o2), k); double w = w1 + dw * k; return m2(std::cos(w) * s[0], std::sin(w) * s[0], -std::sin(w) * s[1], std::cos(w) * s[1], o[0], o[1]); }; is("interpolated_start", p.interpolate_with(g, 0), at(0), 5e-5); is("interpolated_end", p.interpolate_with(g, 1), at(1), 5e-5); is("interpolated", p.interpolate_with(g, t), at(t), 5e-5);
		} break;
		case 13: {
			c.label("access"); int i = r.range(0, 2); exact(c, "get_axis", d(a.get_axis(i)), { A[i], A[3 + i] }); exact(c, "get_column", d(a.get_column(i)), d(a.get_axis(i))); exact(c, "get_origin", d(a.get_origin()), { A[2], A[5] }); D w = A; w[i] = v.x; w[3 + i] = v.y; Transform2D t = a; t.set_axis(i, v); exact(c, "set_axis", m2(t), w); t = a; t.set_column(i, v); exact(c, "set_column", m2(t), w); int z = r.chance(0.5) ? r.range(3, 9) : -r.range(1, 9); t = a; t.set_axis(z, v); exact(c, "set_axis_refused", m2(t), A); t.set_column(z, v); exact(c, "set_column_refused", m2(t), A); exact(c, "get_axis_refused", d(a.get_axis(z)), { 0, 0 });
			exact(c, "identity", m2(Transform2D()), dg(1, 1, 1)); exact(c, "from_columns", m2(Transform2D(a.columns[0], a.columns[1], a.columns[2])), A);
		} break;
		default: { c.label("compare"); yes(c, "equal", a == a, true); yes(c, "not_different", a != a, false); yes(c, "approx", a.is_equal_approx(a), true); Transform2D t = a; t.columns[r.range(0, 2)][r.range(0, 1)] += 1; yes(c, "different", a == t, false); yes(c, "not_equal", a != t, true); yes(c, "not_approx", a.is_equal_approx(t), false); } break;
	}
	c.obs(hd(A, hd(B)), true);
}
static D T4(const D &b, const D &o) { return { b[0], b[1], b[2], o[0], b[3], b[4], b[5], o[1], b[6], b[7], b[8], o[2], 0, 0, 0, 1 }; }
static D m4(const Transform &t) { return T4(d(t.basis), d(t.origin)); }
static D m4(const Projection &p) { D r(16); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r[4 * j + i] = p.matrix[i][j]; return r; }
static D mm4(const D &a, const D &b) { D r(16, 0.0); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) for (int k = 0; k < 4; k++) r[4 * i + j] += a[4 * i + k] * b[4 * k + j]; return r; }
static D mv4(const D &a, const D &v) { D r(4, 0.0); for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) r[i] += a[4 * i + k] * v[k]; return r; }
static D ap3(const D &m, const D &v) { D w = mv4(m, { v[0], v[1], v[2], 1 }); return { w[0], w[1], w[2] }; }
static D lin3(const D &m) { return { m[0], m[1], m[2], m[4], m[5], m[6], m[8], m[9], m[10] }; }
static D inv4(const D &m) { D l = inv3(lin3(m)), o = sc(mv(l, { m[3], m[7], m[11] }), -1); return T4(l, o); }
static D I3() { return dg(1, 1, 1); }
static Transform rt3(Rng &r, bool rigid = false) { Vector3 o(r.f(-9, 9), r.f(-9, 9), r.f(-9, 9)); return Transform(rigid || r.chance(0.3) ? rb(r) : genreg(r), o); }

UNIT("R05", "transform", 240000, 2400000) {
	Rng &r = c.rng; Transform a = rt3(r), b = rt3(r), g = rt3(r, true); D A = m4(a), B = m4(b), G = m4(g); Vector3 v(r.f(-9, 9), r.f(-9, 9), r.f(-9, 9)); D V = d(v); double S = 60; D lin = lin3(A), o = d(a.origin);
	auto is = [&](const char *k, const Transform &t, const D &w, double rel = 1e-5) { same(c, k, m4(t), w, S, rel); };
	switch (r.range(0, 16)) {
		case 0: { c.label("compose"); is("product", a * b, mm4(A, B)); Transform t = a; t *= b; exact(c, "multiply_in_place", d(t), d(a * b)); t = a; t *= t; is("square_in_place", t, mm4(A, A)); float k = r.f(-3, 3); same(c, "scaled_by_number", d(a * k), sc(d(a), k), S); t = a; t *= k; exact(c, "scale_by_number_in_place", d(t), d(a * k)); same(c, "product_applies_second_first", d((a * b).xform(v)), ap3(A, ap3(B, V)), 10 * S); } break;
		case 1: {
			c.label("xform"); same(c, "xform", d(a.xform(v)), ap3(A, V), S); same(c, "xform_inv_of_rigid", d(g.xform_inv(v)), ap3(inv4(G), V), S); Transform z(Basis(), Vector3(r.range(-99, 99), r.range(-99, 99), r.range(-99, 99))); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) z.basis.rows[i][j] = r.range(-4, 4); D Z = m4(z); Vector3i p(r.range(-900, 900), r.range(-900, 900), r.range(-900, 900)); exact(c, "integer_xform", d(z.xform(p)), ap3(Z, d(p))); exact(c, "integer_xform_inv", d(z.xform_inv(p)), mv(mt(lin3(Z)), add(d(p), d(z.origin), -1)));
			PoolVector<Vector3> l; PoolVector<Vector3i> li; int n = r.range(0, 5); for (int i = 0; i < n; i++) { l.push_back(r3(r)); li.push_back(Vector3i(r.range(-90, 90), r.range(-90, 90), r.range(-90, 90))); } PoolVector<Vector3> f = a.xform(l), h = a.xform_inv(l); PoolVector<Vector3i> fi = z.xform(li), hi = z.xform_inv(li); bool ok = f.size() == n && h.size() == n && fi.size() == n && hi.size() == n; for (int i = 0; ok && i < n; i++) ok = f.get(i) == a.xform(l.get(i)) && h.get(i) == a.xform_inv(l.get(i)) && fi.get(i) == z.xform(li.get(i)) && hi.get(i) == z.xform_inv(li.get(i)); c.check("list_xform", ok, strf("%d points", n));
		} break;
		case 2: {
			c.label("box"); AABB q(Vector3(r.f(-9, 9), r.f(-9, 9), r.f(-9, 9)), Vector3(r.f(0, 9), r.f(0, 9), r.f(0, 9))); auto box = [&](const D &m) { D lo(3, 1e30), hi(3, -1e30); for (int i = 0; i < 8; i++) { D p = ap3(m, { q.position.x + (i & 1 ? (double)q.size.x : 0), q.position.y + (i & 2 ? (double)q.size.y : 0), q.position.z + (i & 4 ? (double)q.size.z : 0) }); for (int j = 0; j < 3; j++) { lo[j] = std::min(lo[j], p[j]); hi[j] = std::max(hi[j], p[j]); } } D w = lo; for (int j = 0; j < 3; j++) w.push_back(hi[j] - lo[j]); return w; };
			same(c, "box_xform", d(a.xform(q)), box(A), S); same(c, "box_xform_inv_of_rigid", d(g.xform_inv(q)), box(inv4(G)), S);
		} break;
		case 3: {
			c.label("plane"); Plane p(unit<Vector3, 3>(r), r.f(-9, 9)); auto want = [&](const D &m) { D n = mv(mt(inv3(lin3(m))), d(p.normal)), on = ap3(m, sc(d(p.normal), p.d)); n = sc(n, 1 / len(n)); n.push_back(dot({ n[0], n[1], n[2] }, on)); return n; }; same(c, "plane_xform", d(a.xform(p)), want(A), S, 5e-5); D Ai = inv4(A); same(c, "plane_xform_inv", d(a.xform_inv(p)), want(Ai), S, 5e-5); Basis it = a.basis.inverse().transposed(); exact(c, "plane_xform_fast", d(a.xform_fast(p, it)), d(a.xform(p))); exact(c, "plane_xform_inv_fast", d(Transform::xform_inv_fast(p, a.affine_inverse(), a.basis.transposed())), d(a.xform_inv(p)));
		} break;
		case 4: { c.label("inverse"); D w = inv4(A); same(c, "affine_inverse", m4(a.affine_inverse()), w, 1 + mx(w), 2e-4); Transform t = a; t.affine_invert(); exact(c, "affine_invert_in_place", d(t), d(a.affine_inverse())); is("inverse_of_rigid", g.inverse(), inv4(G)); t = g; t.invert(); exact(c, "invert_in_place", d(t), d(g.inverse())); is("inverse_xform", g.inverse_xform(b), mm4(inv4(G), B)); } break;
		case 5: { c.label("rotate"); Vector3 n = unit<Vector3, 3>(r); float w = r.f(-6, 6); D R = T4(rod(d(n), w), { 0, 0, 0 }); is("rotated", a.rotated(n, w), mm4(R, A)); Transform t = a; t.rotate(n, w); exact(c, "rotate_in_place", d(t), d(a.rotated(n, w))); is("rotated_local", a.rotated_local(n, w), mm4(A, R)); t = a; t.rotate_local(n, w); exact(c, "rotate_local_in_place", d(t), d(a.rotated_local(n, w))); t = a; t.rotate_basis(n, w); is("rotate_basis", t, T4(mm(rod(d(n), w), lin), o)); } break;
		case 6: { c.label("scale"); Vector3 s(r.f(-3, 3), r.f(-3, 3), r.f(-3, 3)); D K = T4(dg(s), { 0, 0, 0 }); is("scaled", a.scaled(s), mm4(K, A)); Transform t = a; t.scale(s); exact(c, "scale_in_place", d(t), d(a.scaled(s))); is("scaled_local", a.scaled_local(s), mm4(A, K)); t = a; t.scale_basis(s); is("scale_basis", t, T4(mm(dg(s), lin), o)); } break;
		case 7: { c.label("translate"); D K = T4(I3(), V), w = mm4(K, A), l = mm4(A, K); is("translated", a.translated(v), w); is("translated_local", a.translated_local(v), l); Transform t = a; t.translate_local(v); is("translate_local", t, l); t = a; t.translate_local(v.x, v.y, v.z); is("translate_local_xyz", t, l); t = a; t.translate_localr(v.x, v.y, v.z); is("translate_localr", t, l); t = a; t.translate_localv(v); is("translate_localv", t, l); } break;
		case 8: { c.label("orthonormalize"); exact(c, "orthonormalized", d(a.orthonormalized()), d(Transform(a.basis.orthonormalized(), a.origin))); Transform t = a; t.orthonormalize(); exact(c, "orthonormalize_in_place", d(t), d(a.orthonormalized())); exact(c, "orthogonalized", d(a.orthogonalized()), d(Transform(a.basis.orthogonalized(), a.origin))); t = a; t.orthogonalize(); exact(c, "orthogonalize_in_place", d(t), d(a.orthogonalized())); } break;
		case 9: { c.label("looking_at"); Vector3 f = unit<Vector3, 3>(r) * r.f(0.5f, 9), u = unit<Vector3, 3>(r); if (len(cross(d(f), d(u))) < 0.05 * len(d(f))) break; Transform t = a.looking_at(a.origin + f, u); exact(c, "looking_keeps_origin", d(t.origin), o); D m = d(t.basis), F = d(f); same(c, "looks_at", { m[2], m[5], m[8] }, sc(F, -1 / len(F)), 1, 2e-4); same(c, "looking_orthonormal", mm(m, mt(m)), I3(), 1, 1e-4); yes(c, "looking_upright", m[1] * u.x + m[4] * u.y + m[7] * u.z > 0, true); Transform s; s.set_look_at(v, v + f, u); exact(c, "set_look_at_origin", d(s.origin), V); m = d(s.basis); same(c, "set_look_at", { m[2], m[5], m[8] }, sc(F, -1 / len(F)), 1, 2e-4); } break;
		case 10: case 11: {
			c.label("interpolate"); Quaternion p = rq(r), q = rq(r); double k = dot(d(p), d(q)); if (std::fabs(k) < 0.02) break; Vector3 s1 = rs(r, false), s2 = rs(r, false); if (r.chance(0.2)) { s1 = -s1; s2 = -s2; } Vector3 o2(r.f(-9, 9), r.f(-9, 9), r.f(-9, 9)); Transform x(Basis(p, s1), v), y(Basis(q, s2), o2); float t = r.f(0, 1); auto at = [&](double w) { return T4(mm(qm(slerpd(d(p), d(q), w, true)), dg3(add(sc(d(s1), 1 - w), d(s2), w))), add(sc(V, 1 - w), d(o2), w)); };
			is("interpolated", x.interpolate_with(y, t), at(t), 1e-4); is("interpolated_start", x.interpolate_with(y, 0), at(0), 1e-4); is("interpolated_end", x.interpolate_with(y, 1), at(1), 1e-4); exact(c, "spherical_interpolate", d(x.spherical_interpolate_with(y, t)), d(x.interpolate_with(y, t)));
		} break;
		case 12: { c.label("access"); exact(c, "get_basis", d(a.get_basis()), lin); exact(c, "get_origin", d(a.get_origin()), o); Transform t = a; t.set_basis(b.basis); t.set_origin(v); exact(c, "set_parts", d(t), d(Transform(b.basis, v))); t.set(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); exact(c, "set", m4(t), { 1, 2, 3, 10, 4, 5, 6, 11, 7, 8, 9, 12, 0, 0, 0, 1 }); exact(c, "from_numbers", d(Transform(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)), d(t)); exact(c, "from_columns", m4(Transform(Vector3(1, 2, 3), Vector3(4, 5, 6), Vector3(7, 8, 9), v)), T4({ 1, 4, 7, 2, 5, 8, 3, 6, 9 }, V)); exact(c, "identity", m4(Transform()), T4(I3(), { 0, 0, 0 })); } break;
		case 13: { c.label("compare"); yes(c, "equal", a == a, true); yes(c, "not_different", a != a, false); yes(c, "approx", a.is_equal_approx(a), true); Transform t = a; if (r.chance(0.5)) t.origin[r.range(0, 2)] += 1; else t.basis.rows[r.range(0, 2)][r.range(0, 2)] += 1; yes(c, "different", a == t, false); yes(c, "not_equal", a != t, true); yes(c, "not_approx", a.is_equal_approx(t), false); } break;
		case 14: { c.label("variant"); Variant w = a; Transform back = w.operator Transform(); exact(c, "variant_round_trip", d(back), d(a)); Variant x = Transform2D(1, 2, 3, 4, 5, 6); Transform2D y = x.operator Transform2D(); exact(c, "variant_round_trip_2d", d(y), { 1, 2, 3, 4, 5, 6 }); } break;
		default: { c.label("projection_of_transform"); Projection p(a); exact(c, "to_projection", m4(p), A); Transform t = p; exact(c, "from_projection", d(t), d(a)); } break;
	}
	c.obs(hd(A, hd(B)), true);
}
static double det4(D m) { double q = 1; for (int k = 0; k < 4; k++) { int p = k; for (int i = k; i < 4; i++) if (std::fabs(m[4 * i + k]) > std::fabs(m[4 * p + k])) p = i; if (m[4 * p + k] == 0) return 0; if (p != k) { for (int j = 0; j < 4; j++) std::swap(m[4 * p + j], m[4 * k + j]); q = -q; } q *= m[4 * k + k]; for (int i = k + 1; i < 4; i++) { double f = m[4 * i + k] / m[4 * k + k]; for (int j = k; j < 4; j++) m[4 * i + j] -= f * m[4 * k + j]; } } return q; }
static D frustum(double l, double rr, double b, double t, double n, double f) { return { 2 * n / (rr - l), 0, (rr + l) / (rr - l), 0, 0, 2 * n / (t - b), (t + b) / (t - b), 0, 0, 0, -(f + n) / (f - n), -2 * f * n / (f - n), 0, 0, -1, 0 }; }
static D orthod(double l, double rr, double b, double t, double n, double f) { return { 2 / (rr - l), 0, 0, -(rr + l) / (rr - l), 0, 2 / (t - b), 0, -(t + b) / (t - b), 0, 0, -2 / (f - n), -(f + n) / (f - n), 0, 0, 0, 1 }; }
UNIT("R05", "projection", 240000, 2400000) {
	Rng &r = c.rng; Projection a, b; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { a.matrix[i][j] = r.chance(0.2) ? r.range(-2, 2) : r.f(-3, 3); b.matrix[i][j] = r.f(-3, 3); } D A = m4(a), B = m4(b); double S = 40;
	double n = r.f(0.05f, 2), f = n + r.f(1, 60), l = r.f(-3, 2), rr = l + r.f(0.3f, 3), bo = r.f(-3, 2), to = bo + r.f(0.3f, 3); float N = n, F = f, L = l, R = rr, BO = bo, T = to; n = N; f = F; l = L; rr = R; bo = BO; to = T;
	float fov = r.f(20, 140), asp = r.f(0.4f, 2.5f); double tn = std::tan(fov * M_PI / 360); bool flip = r.chance(0.3); if (flip) tn /= asp; double ye = tn * n, xe = ye * asp; D P = frustum(-xe, xe, -ye, ye, n, f);
	auto is = [&](const char *k, const Projection &p, const D &w, double rel = 3e-5) { return same(c, k, m4(p), w, 1, rel); };
	switch (r.range(0, 16)) {
		case 0: { c.label("compose"); same(c, "product", m4(a * b), mm4(A, B), S); Vector4 v(r.f(-5, 5), r.f(-5, 5), r.f(-5, 5), r.f(-5, 5)); same(c, "xform", d(a.xform(v)), mv4(A, d(v)), S); D At(16); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) At[4 * i + j] = A[4 * j + i]; same(c, "xform_inv", d(a.xform_inv(v)), mv4(At, d(v)), S); D w = mv4(A, { v.x, v.y, v.z, 1 }); if (std::fabs(w[3]) > 0.5) same(c, "xform_point", d(a.xform(Vector3(v.x, v.y, v.z))), { w[0] / w[3], w[1] / w[3], w[2] / w[3] }, S); } break;
		case 1: { c.label("inverse"); double q = det4(A); same1(c, "determinant", a.determinant(), q, 300); if (std::fabs(q) > 3) { same(c, "inverse", mm4(A, m4(a.inverse())), T4(I3(), { 0, 0, 0 }), S, 1e-4); Projection t = a; t.invert(); exact(c, "invert_in_place", m4(t), m4(a.inverse())); } } break;
		case 2: { c.label("perspective"); if (tn > 8) break; Projection t = a; t.set_perspective(fov, asp, N, F, flip); is("set_perspective", t, P, 1e-4); exact(c, "set_perspective1", m4([&] { Projection z; z.set_perspective1(fov, asp, N, F, flip); return z; }()), m4(t)); exact(c, "create_perspective", m4(Projection::create_perspective(fov, asp, N, F, flip)), m4(t)); Projection mono; mono.set_perspective(fov, asp, N, F, flip, 0, 0.06f, 2); is("perspective_without_eye", mono, P, 1e-4); } break;
		case 3: {
			c.label("stereo"); if (tn > 8) break; float iod = r.f(0.02f, 0.3f), conv = r.f(1, 20); for (int eye = 1; eye <= 2; eye++) { double sg = eye == 1 ? 1 : -1, sh = sg * iod / 2 * n / conv; D w = mm4(frustum(-xe + sh, xe + sh, -ye, ye, n, f), T4(I3(), { sg * iod / 2, 0, 0 })); Projection t; t.set_perspective(fov, asp, N, F, flip, eye, iod, conv); is("eye_perspective", t, w, 1e-4); exact(c, "create_perspective_hmd", m4(Projection::create_perspective_hmd(fov, asp, N, F, flip, eye, iod, conv)), m4(t)); Projection z; z.set_perspective2(fov, asp, N, F, flip, eye, iod, conv); exact(c, "set_perspective2", m4(z), m4(t)); }
			float wid = r.f(0.1f, 0.2f), lens = r.f(0.03f, 0.06f), over = r.f(1, 2); double f1 = iod * 0.3 * 0.5 / lens, f2 = (wid - iod * 0.3) * 0.5 / lens, f3 = wid / 4 / lens, ad = (f1 + f2) * (over - 1) / 2; f1 += ad; f2 += ad; f3 = f3 * over / asp; float id = iod * 0.3f; if (f1 + f2 < 0.1 || f2 < -f1 + 0.1) break; Projection h; h.set_for_hmd(1, asp, id, wid, lens, over, N, F); is("left_headset_eye", h, frustum(-f2 * n, f1 * n, -f3 * n, f3 * n, n, f), 2e-4); h.set_for_hmd(2, asp, id, wid, lens, over, N, F); is("right_headset_eye", h, frustum(-f1 * n, f2 * n, -f3 * n, f3 * n, n, f), 2e-4); exact(c, "create_for_hmd", m4(Projection::create_for_hmd(2, asp, id, wid, lens, over, N, F)), m4(h));
		} break;
		case 4: {
			c.label("orthogonal"); Projection t = a; t.set_orthogonal(L, R, BO, T, N, F); D w = orthod(l, rr, bo, to, n, f); same(c, "set_orthogonal", m4(t), w, 1 + mx(w), 3e-5); Projection z = Projection::create_orthogonal(L, R, BO, T, N, F); exact(c, "create_orthogonal", m4(z), m4(t)); z = a; z.set_orthogonal1(L, R, BO, T, N, F); exact(c, "set_orthogonal1", m4(z), m4(t)); yes(c, "is_orthogonal", t.is_orthogonal(), true);
			float sz = r.f(0.5f, 9); double h = flip ? sz / asp : sz, wd = h * asp; t.set_orthogonal(sz, asp, N, F, flip); w = orthod(-wd / 2, wd / 2, -h / 2, h / 2, n, f); is("orthogonal_by_size", t, w, 1e-4); exact(c, "create_orthogonal_aspect", m4(Projection::create_orthogonal_aspect(sz, asp, N, F, flip)), m4(t)); z = a; z.set_orthogonal2(sz, asp, N, F, flip); exact(c, "set_orthogonal2", m4(z), m4(t));
			same1(c, "orthogonal_near", t.get_z_near(), n, 5 + f, 1e-4); same1(c, "orthogonal_far", t.get_z_far(), f, 5 + f, 1e-4); same(c, "orthogonal_half_extents", d(t.get_viewport_half_extents()), { wd / 2, h / 2 }, 10, 1e-4); same(c, "orthogonal_far_half_extents", d(t.get_far_plane_half_extents()), { wd / 2, h / 2 }, 10, 1e-4); same1(c, "orthogonal_aspect", t.get_aspect(), asp, 1, 1e-3); same1(c, "orthogonal_lod", t.get_lod_multiplier(), wd / 2, 10, 1e-4);
		} break;
		case 5: {
			c.label("frustum"); Projection t = a; t.set_frustum(L, R, BO, T, N, F); D w = frustum(l, rr, bo, to, n, f); same(c, "set_frustum", m4(t), w, 1 + mx(w), 3e-5); yes(c, "frustum_is_not_orthogonal", t.is_orthogonal(), false); exact(c, "create_frustum", m4(Projection::create_frustum(L, R, BO, T, N, F)), m4(t)); Projection z = a; z.set_frustum1(L, R, BO, T, N, F); exact(c, "set_frustum1", m4(z), m4(t)); float sz = r.f(0.5f, 4); Vector2 of(r.f(-0.4f, 0.4f), r.f(-0.4f, 0.4f)); double h = flip ? sz / asp : sz, wd = h * asp; w = frustum(-wd / 2 + of.x, wd / 2 + of.x, -h / 2 + of.y, h / 2 + of.y, n, f); t.set_frustum(sz, asp, of, N, F, flip); same(c, "frustum_by_size", m4(t), w, 1 + mx(w), 1e-4); exact(c, "create_frustum_aspect", m4(Projection::create_frustum_aspect(sz, asp, of, N, F, flip)), m4(t)); z = a; z.set_frustum2(sz, asp, of, N, F, flip); exact(c, "set_frustum2", m4(z), m4(t));
			z = a; switch (r.range(0, 2)) { case 0: z.set_frustum(R, L, BO, T, N, F); break; case 1: z.set_frustum(L, R, T, BO, N, F); break; default: z.set_frustum(L, R, BO, T, F, N); } exact(c, "inverted_frustum_refused", m4(z), A);
		} break;
		case 6: case 7: {
			c.label("perspective_queries"); if (tn > 5) break; Projection t; t.set_perspective(fov, asp, N, F, flip); double an = n * 3 + f * f / n; same1(c, "near", t.get_z_near(), n, n, 1e-3); if (f / n < 300) same1(c, "far", t.get_z_far(), f, f, 2e-2); same1(c, "aspect", t.get_aspect(), asp, asp, 1e-3); same1(c, "horizontal_field_of_view", t.get_fov(), std::atan(tn * asp) * 360 / M_PI, 1, 0.05); same(c, "near_half_extents", d(t.get_viewport_half_extents()), { xe, ye }, xe + ye, 2e-3); if (f / n < 300) same(c, "far_half_extents", d(t.get_far_plane_half_extents()), { xe * f / n, ye * f / n }, (xe + ye) * f / n, 3e-2); same1(c, "lod", t.get_lod_multiplier(), 2 * xe / n, 1 + 2 * xe / n, 3e-3); (void)an;
			same1(c, "vertical_field_of_view", Projection::get_fovy(fov, asp), std::atan(asp * std::tan(fov * M_PI / 360)) * 360 / M_PI, 100, 1e-4); same1(c, "calculate_fovy", t.calculate_fovy(fov, asp), Projection::get_fovy(fov, asp), 100, 1e-6); Projection z; z.set_frustum(-(float)xe * 0.7f, (float)xe, -(float)ye, (float)ye * 0.8f, N, F); same1(c, "uneven_field_of_view", z.get_fov(), (std::atan(xe / n) + std::atan(xe * 0.7 / n)) * 180 / M_PI, 1, 0.05);
			float nn = N * r.f(0.6f, 1.5f); if (nn < F * 0.8f && f / n < 300) { t.adjust_perspective_znear(nn); D w = P; w[10] = -(f + nn) / (f - nn); w[11] = -2 * f * nn / (f - nn); is("near_moved", t, w, 3e-3); Projection y; y.set_perspective(fov, asp, N, F, flip); exact(c, "near_moved_copy", m4(y.perspective_znear_adjusted(nn)), m4(t)); }
		} break;
		case 8: case 9: {
			c.label("planes_and_corners"); bool per = r.chance(0.6); if (f / n > 40) { f = n * 40 * r.uni(0.2, 1); F = f; f = F; } Projection t; if (per) t.set_frustum(L, R, BO, T, N, F); else t.set_orthogonal(L, R, BO, T, N, F); Transform g(rb(r), Vector3(r.f(-5, 5), r.f(-5, 5), r.f(-5, 5))); D G = m4(g); double k = per ? f / n : 1, big = 1 + mx({ l, rr, bo, to, f }) * k; 
			double sx[2] = { l, rr }, sy[2] = { bo, to }; D cr[8]; for (int i = 0; i < 8; i++) { double q = i & 4 ? k : 1; cr[i] = { sx[i & 1] * q, sy[(i >> 1) & 1] * q, i & 4 ? -f : -n }; } double span = std::min(rr - l, to - bo) / std::max({ 1.0, std::fabs(l), std::fabs(rr), std::fabs(bo), std::fabs(to) }) ; if (span < 0.1) break;
			Vector<Plane> pl = t.get_projection_planes(g); c.check("six_planes", pl.size() == 6, strf("%d", (int)pl.size())); static const int on[6] = { 0, 1, 2, 3, 4, 5 }; (void)on; for (int i = 0; i < 6 && i < pl.size(); i++) { Plane lp = t.get_projection_plane((Projection::Planes)i); int inn = 0, touch = 0; for (int j = 0; j < 8; j++) { double x = dot(d(lp.normal), cr[j]) - lp.d, y = dot(d(pl[i].normal), ap3(G, cr[j])) - pl[i].d; bool side = i == 0 ? !(j & 4) : i == 1 ? (j & 4) != 0 : i == 2 ? !(j & 1) : i == 4 ? (j & 1) != 0 : i == 3 ? (j & 2) != 0 : !(j & 2); double tol = 5e-3 * big; c.check("plane_through_its_corners", !side || (std::fabs(x) < tol && std::fabs(y) < 2 * tol), strf("plane %d corner %d distance %g and %g", i, j, x, y)); c.check("volume_below_plane", x < tol && y < 2 * tol, strf("plane %d corner %d distance %g and %g", i, j, x, y)); inn += x < tol; touch += side; } same1(c, "plane_is_unit", lp.normal.length(), 1, 1, 1e-4); }
			Vector3 e[8]; bool ok = t.get_endpoints(g, e); yes(c, "has_corners", ok, true); if (ok) for (int i = 0; i < 8; i++) { bool near = i >= 4, right = (i & 2) != 0, bottom = i & 1; D w = ap3(G, cr[(near ? 0 : 4) + (right ? 1 : 0) + (bottom ? 0 : 2)]); same(c, "corner", d(e[i]), w, big, 1e-2); }
		} break;
		case 10: {
			c.label("boxes"); AABB q(Vector3(r.f(-9, 9), r.f(-9, 9), r.f(-9, 9)), Vector3(r.f(0.5f, 9), r.f(0.5f, 9), r.f(0.5f, 9))); Projection t = a; t.scale_translate_to_fit(q); exact(c, "create_fit_aabb", m4(Projection::create_fit_aabb(q)), m4(t)); for (int i = 0; i < 8; i++) { Vector3 p = q.position; for (int j = 0; j < 3; j++) if (i >> j & 1) p[j] += q.size[j]; same(c, "box_corner_to_cube_corner", d(t.xform(p)), { i & 1 ? 1.0 : -1, i & 2 ? 1.0 : -1, i & 4 ? 1.0 : -1 }, 1 + 40 / std::min({ q.size.x, q.size.y, q.size.z }), 1e-5); }
		} break;
		case 11: { c.label("light"); Vector3 v(r.f(-1, 1), r.f(-1, 1), r.f(-1, 1)); Projection t = a; t.set_light_bias(); same(c, "light_bias", d(t.xform(v)), { v.x * 0.5 + 0.5, v.y * 0.5 + 0.5, v.z * 0.5 + 0.5 }); Rect2 q(Vector2(r.f(-3, 3), r.f(-3, 3)), Vector2(r.f(0.1f, 3), r.f(0.1f, 3))); t = a; t.set_light_atlas_rect(q); same(c, "light_atlas", d(t.xform(v)), { q.position.x + (double)q.size.x * v.x, q.position.y + (double)q.size.y * v.y, v.z }, 10); exact(c, "create_light_atlas_rect", m4(Projection::create_light_atlas_rect(q)), m4(t)); t = a; t.set_depth_correction(flip); same(c, "depth_correction", d(t.xform(v)), { v.x, flip ? -(double)v.y : v.y, v.z * 0.5 + 0.5 }); exact(c, "create_depth_correction", m4(Projection::create_depth_correction(flip)), m4(t)); } break;
		case 12: { c.label("flip"); Projection t = a; t.flip_y(); D w1 = mm4(A, { 1, 0, 0, 0, 0, -1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1 }), w2 = mm4({ 1, 0, 0, 0, 0, -1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1 }, A); c.check("flipped", m4(t) == w1 || m4(t) == w2, sd(m4(t))); exact(c, "flipped_copy", m4(a.flipped_y()), m4(t)); t.flip_y(); exact(c, "flipped_twice", m4(t), A); } break;
		case 13: { c.label("jitter"); Vector2 o(r.f(-1, 1), r.f(-1, 1)); Projection t = a; t.add_jitter_offset(o); D w = A; w[3] += o.x; w[7] += o.y; same(c, "jitter", m4(t), w); exact(c, "jitter_copy", m4(a.jitter_offseted(o)), m4(t)); } break;
		case 14: { c.label("simple"); Projection t = a; t.set_identity(); exact(c, "identity", m4(t), T4(I3(), { 0, 0, 0 })); exact(c, "default", m4(Projection()), m4(t)); t.set_zero(); exact(c, "zero", m4(t), D(16, 0.0)); Vector3 s = r3(r); t.make_scale(s); exact(c, "make_scale", m4(t), T4(dg(s), { 0, 0, 0 })); exact(c, "from_columns", m4(Projection(a.matrix[0], a.matrix[1], a.matrix[2], a.matrix[3])), A); yes(c, "equal", a == a, true); yes(c, "not_different", a != a, false); t = a; t.matrix[r.range(0, 3)][r.range(0, 3)] += 1; yes(c, "different", a == t, false); yes(c, "not_equal", a != t, true); Variant v = a; Projection back = v.operator Projection(); exact(c, "variant_round_trip", m4(back), A); } break;
		default: { c.label("perspective_inverse"); if (tn > 5 || f / n > 60) break; Projection t; t.set_perspective(fov, asp, N, F, flip); D I = mm4(P, m4(t.inverse())); same(c, "perspective_inverse", I, T4(I3(), { 0, 0, 0 }), 1 + f, 1e-3); } break;
	}
	c.obs(hd(A, hd(B)), true);
}
