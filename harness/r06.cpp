// R06: dynamically typed values (variants), arrays and dictionaries against a plain value model.
#include "vh.h"
#include <memory>
#include <map>
#include <algorithm>
#include <functional>
typedef std::u32string US;
namespace r06 {
typedef Variant VT;
struct V;
struct Arr { std::vector<V> v; };
struct Dic { std::vector<std::pair<V, V>> v; };
// A model value: the type, and only the fields that type uses.
struct V {
	int t = VT::NIL;
	int64_t i = 0; // BOOL, INT
	double r = 0; // REAL
	US s; // STRING, STRING_NAME
	std::vector<double> c; // components of the value types; flattened elements of the pool arrays
	std::vector<US> ss;
	std::shared_ptr<Arr> a;
	std::shared_ptr<Dic> d;
	int o = -1; // OBJECT: index into the case's objects, -1 null
};
static String ST(const US &s) { String r; for (char32_t ch : s) r += (CharType)ch; return r; }
static US UT(const String &s) { US r; for (int i = 0; i < s.length(); i++) r += (char32_t)s[i]; return r; }
static std::string u8(const US &s) { std::string o; for (char32_t ch : s) { if (ch >= 32 && ch < 127) o += (char)ch; else o += strf("\\u%04x", (unsigned)ch); } return o; }
static const char *TN[] = { "NIL", "BOOL", "INT", "REAL", "STRING", "RECT2", "RECT2I", "VECTOR2", "VECTOR2I", "VECTOR3", "VECTOR3I", "VECTOR4", "VECTOR4I", "PLANE", "QUATERNION", "AABB", "BASIS", "TRANSFORM", "TRANSFORM2D", "PROJECTION", "COLOR", "OBJECT", "STRING_NAME", "DICTIONARY", "ARRAY",
	"POOL_BYTE", "POOL_INT", "POOL_REAL", "POOL_STRING", "POOL_VECTOR2", "POOL_VECTOR2I", "POOL_VECTOR3", "POOL_VECTOR3I", "POOL_VECTOR4", "POOL_VECTOR4I", "POOL_COLOR" };
static int ncomp(int t) {
	switch (t) {
		case VT::RECT2: case VT::RECT2I: case VT::PLANE: case VT::QUATERNION: case VT::COLOR: case VT::VECTOR4: case VT::VECTOR4I: return 4;
		case VT::VECTOR2: case VT::VECTOR2I: return 2;
		case VT::VECTOR3: case VT::VECTOR3I: return 3;
		case VT::AABB: case VT::TRANSFORM2D: return 6;
		case VT::BASIS: return 9; case VT::TRANSFORM: return 12; case VT::PROJECTION: return 16;
	}
	return 0;
}
static bool isint(int t) { return t == VT::RECT2I || t == VT::VECTOR2I || t == VT::VECTOR3I || t == VT::VECTOR4I || t == VT::POOL_BYTE_ARRAY || t == VT::POOL_INT_ARRAY || t == VT::POOL_VECTOR2I_ARRAY || t == VT::POOL_VECTOR3I_ARRAY || t == VT::POOL_VECTOR4I_ARRAY; }
static int stride(int t) {
	switch (t) {
		case VT::POOL_BYTE_ARRAY: case VT::POOL_INT_ARRAY: case VT::POOL_REAL_ARRAY: return 1;
		case VT::POOL_VECTOR2_ARRAY: case VT::POOL_VECTOR2I_ARRAY: return 2;
		case VT::POOL_VECTOR3_ARRAY: case VT::POOL_VECTOR3I_ARRAY: return 3;
		case VT::POOL_VECTOR4_ARRAY: case VT::POOL_VECTOR4I_ARRAY: case VT::POOL_COLOR_ARRAY: return 4;
	}
	return 0;
}
static int elemtype(int t) {
	switch (t) {
		case VT::POOL_BYTE_ARRAY: case VT::POOL_INT_ARRAY: return VT::INT;
		case VT::POOL_REAL_ARRAY: return VT::REAL; case VT::POOL_STRING_ARRAY: return VT::STRING;
		case VT::POOL_VECTOR2_ARRAY: return VT::VECTOR2; case VT::POOL_VECTOR2I_ARRAY: return VT::VECTOR2I;
		case VT::POOL_VECTOR3_ARRAY: return VT::VECTOR3; case VT::POOL_VECTOR3I_ARRAY: return VT::VECTOR3I;
		case VT::POOL_VECTOR4_ARRAY: return VT::VECTOR4; case VT::POOL_VECTOR4I_ARRAY: return VT::VECTOR4I;
		case VT::POOL_COLOR_ARRAY: return VT::COLOR;
	}
	return VT::NIL;
}
static bool ispool(int t) { return t >= VT::POOL_BYTE_ARRAY && t <= VT::POOL_COLOR_ARRAY; }
static bool isvec(int t) { return t >= VT::VECTOR2 && t <= VT::VECTOR4I; }
static bool isnum(int t) { return t == VT::INT || t == VT::REAL; }
static V vnil() { return V(); }
static V vb(bool b) { V v; v.t = VT::BOOL; v.i = b; return v; }
static V vi(int64_t i) { V v; v.t = VT::INT; v.i = i; return v; }
static V vr(double r) { V v; v.t = VT::REAL; v.r = r; return v; }
static V vs(const US &s) { V v; v.t = VT::STRING; v.s = s; return v; }
static V vc(int t, const std::vector<double> &c) { V v; v.t = t; v.c = c; return v; }
static V va() { V v; v.t = VT::ARRAY; v.a = std::make_shared<Arr>(); return v; }
static V vd() { V v; v.t = VT::DICTIONARY; v.d = std::make_shared<Dic>(); return v; }
static double num(const V &v) { return v.t == VT::REAL ? v.r : (double)v.i; }
static V pelem(const V &p, int i) { // element i of a pool array
	V e; e.t = elemtype(p.t);
	if (e.t == VT::STRING) e.s = p.ss[i];
	else if (e.t == VT::INT) e.i = (int64_t)p.c[i];
	else if (e.t == VT::REAL) e.r = p.c[i];
	else { int k = stride(p.t); e.c.assign(p.c.begin() + i * k, p.c.begin() + (i + 1) * k); }
	return e;
}
static int psize(const V &p) { return p.t == VT::POOL_STRING_ARRAY ? (int)p.ss.size() : (int)p.c.size() / stride(p.t); }
static void pset(V &p, int i, const V &e) {
	if (p.t == VT::POOL_STRING_ARRAY) { p.ss[i] = e.s; return; }
	int k = stride(p.t);
	if (k == 1) { double x = num(e); p.c[i] = p.t == VT::POOL_REAL_ARRAY ? (double)(real_t)x : p.t == VT::POOL_BYTE_ARRAY ? (double)(uint8_t)(int64_t)x : (double)(int)(int64_t)x; return; }
	for (int j = 0; j < k; j++) p.c[i * k + j] = e.c[j];
}
static bool sn(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
// Content equality, type-strict.
static bool eqv(const V &a, const V &b, double tol = 0) {
	if (a.t != b.t) return false;
	switch (a.t) {
		case VT::NIL: return true;
		case VT::BOOL: case VT::INT: return a.i == b.i;
		case VT::REAL: return sn(a.r, b.r) || std::fabs(a.r - b.r) <= tol * (1 + std::fabs(a.r) + std::fabs(b.r));
		case VT::STRING: case VT::STRING_NAME: return a.s == b.s;
		case VT::OBJECT: return a.o == b.o;
		case VT::ARRAY: { if (a.a == b.a) return true; if (a.a->v.size() != b.a->v.size()) return false; for (size_t i = 0; i < a.a->v.size(); i++) if (!eqv(a.a->v[i], b.a->v[i], tol)) return false; return true; }
		case VT::DICTIONARY: { if (a.d == b.d) return true; if (a.d->v.size() != b.d->v.size()) return false; for (size_t i = 0; i < a.d->v.size(); i++) if (!eqv(a.d->v[i].first, b.d->v[i].first, tol) || !eqv(a.d->v[i].second, b.d->v[i].second, tol)) return false; return true; }
		case VT::POOL_STRING_ARRAY: return a.ss == b.ss;
	}
	if (a.c.size() != b.c.size()) return false;
	for (size_t i = 0; i < a.c.size(); i++) if (!(sn(a.c[i], b.c[i]) || std::fabs(a.c[i] - b.c[i]) <= tol * (1 + std::fabs(a.c[i]) + std::fabs(b.c[i])))) return false;
	return true;
}
// The library's == between variants: type-strict, arrays by content, dictionaries by identity.
static bool eqop(const V &a, const V &b) {
	if (a.t != b.t) return false;
	if (a.t == VT::DICTIONARY) return a.d == b.d;
	if (a.t == VT::ARRAY) { if (a.a->v.size() != b.a->v.size()) return false; for (size_t i = 0; i < a.a->v.size(); i++) if (!eqop(a.a->v[i], b.a->v[i])) return false; return true; }
	return eqv(a, b);
}
static std::string show(const V &v, int depth = 0) {
	std::string o = TN[v.t];
	switch (v.t) {
		case VT::NIL: return o;
		case VT::BOOL: case VT::INT: return o + strf("(%lld)", (long long)v.i);
		case VT::REAL: return o + strf("(%.9g)", v.r);
		case VT::STRING: case VT::STRING_NAME: return o + "'" + u8(v.s) + "'";
		case VT::OBJECT: return o + strf("#%d", v.o);
		case VT::POOL_STRING_ARRAY: { o += "["; for (auto &x : v.ss) o += "'" + u8(x) + "',"; return o + "]"; }
		case VT::ARRAY: { if (depth > 4) return o + "[..]"; o = "["; for (auto &x : v.a->v) { o += show(x, depth + 1) + ","; if (o.size() > 400) { o += ".."; break; } } return o + "]"; }
		case VT::DICTIONARY: { if (depth > 4) return o + "{..}"; o = "{"; for (auto &x : v.d->v) { o += show(x.first, depth + 1) + ":" + show(x.second, depth + 1) + ","; if (o.size() > 400) { o += ".."; break; } } return o + "}"; }
	}
	o += "("; for (double x : v.c) o += strf("%.9g ", x); return o + ")";
}
struct R06Obj : public Object {
	SFW_OBJECT(R06Obj, Object);
public:
	int rev = 0;
	virtual bool lt(const Variant &l, const Variant &r) { return rev ? r < l : l < r; }
	Variant foo;
	bool _set(const StringName &n, const Variant &v) { if (n == StringName("foo")) { foo = v; return true; } return false; }
	bool _get(const StringName &n, Variant &r) const { if (n == StringName("foo")) { r = foo; return true; } return false; }
};
static std::vector<Object *> *g_objs = nullptr; // objects of the current case; index = V::o

#define POOLMAKE(T, PT, EXPR) case VT::T: { PoolVector<PT> p; int n = psize(v), k = stride(v.t); (void)k; for (int i = 0; i < n; i++) { p.push_back(EXPR); } return VT(p); }
static Variant make(const V &v) {
	const std::vector<double> &c = v.c;
	auto F = [&](int i) { return (real_t)c[i]; };
	auto I = [&](int i) { return (int)c[i]; };
	switch (v.t) {
		case VT::NIL: return VT();
		case VT::BOOL: return VT((bool)v.i);
		case VT::INT: return VT((int64_t)v.i);
		case VT::REAL: return VT((double)v.r);
		case VT::STRING: return VT(ST(v.s));
		case VT::STRING_NAME: return VT(StringName(ST(v.s)));
		case VT::RECT2: return VT(Rect2(F(0), F(1), F(2), F(3)));
		case VT::RECT2I: return VT(Rect2i(I(0), I(1), I(2), I(3)));
		case VT::VECTOR2: return VT(Vector2(F(0), F(1)));
		case VT::VECTOR2I: return VT(Vector2i(I(0), I(1)));
		case VT::VECTOR3: return VT(Vector3(F(0), F(1), F(2)));
		case VT::VECTOR3I: return VT(Vector3i(I(0), I(1), I(2)));
		case VT::VECTOR4: return VT(Vector4(F(0), F(1), F(2), F(3)));
		case VT::VECTOR4I: return VT(Vector4i(I(0), I(1), I(2), I(3)));
		case VT::PLANE: return VT(Plane(F(0), F(1), F(2), F(3)));
		case VT::QUATERNION: return VT(Quaternion(F(0), F(1), F(2), F(3)));
		case VT::COLOR: return VT(Color(F(0), F(1), F(2), F(3)));
		case VT::AABB: return VT(::AABB(Vector3(F(0), F(1), F(2)), Vector3(F(3), F(4), F(5))));
		case VT::BASIS: case VT::TRANSFORM: {
			Basis b; for (int i = 0; i < 9; i++) b.rows[i / 3][i % 3] = F(i);
			if (v.t == VT::BASIS) return VT(b);
			Transform t; t.basis = b; t.origin = Vector3(F(9), F(10), F(11)); return VT(t);
		}
		case VT::TRANSFORM2D: { Transform2D t; for (int i = 0; i < 6; i++) t.columns[i / 2][i % 2] = F(i); return VT(t); }
		case VT::PROJECTION: { Projection p; for (int i = 0; i < 16; i++) p.matrix[i / 4][i % 4] = F(i); return VT(p); }
		case VT::OBJECT: return VT((const Object *)(v.o < 0 ? nullptr : (*g_objs)[v.o]));
		case VT::ARRAY: { Array a; for (auto &x : v.a->v) a.push_back(make(x)); return VT(a); }
		case VT::DICTIONARY: { Dictionary d; for (auto &x : v.d->v) d[make(x.first)] = make(x.second); return VT(d); }
		POOLMAKE(POOL_BYTE_ARRAY, uint8_t, (uint8_t)c[i])
		POOLMAKE(POOL_INT_ARRAY, int, I(i))
		POOLMAKE(POOL_REAL_ARRAY, real_t, F(i))
		POOLMAKE(POOL_STRING_ARRAY, String, ST(v.ss[i]))
		POOLMAKE(POOL_VECTOR2_ARRAY, Vector2, Vector2(F(i * k), F(i * k + 1)))
		POOLMAKE(POOL_VECTOR2I_ARRAY, Vector2i, Vector2i(I(i * k), I(i * k + 1)))
		POOLMAKE(POOL_VECTOR3_ARRAY, Vector3, Vector3(F(i * k), F(i * k + 1), F(i * k + 2)))
		POOLMAKE(POOL_VECTOR3I_ARRAY, Vector3i, Vector3i(I(i * k), I(i * k + 1), I(i * k + 2)))
		POOLMAKE(POOL_VECTOR4_ARRAY, Vector4, Vector4(F(i * k), F(i * k + 1), F(i * k + 2), F(i * k + 3)))
		POOLMAKE(POOL_VECTOR4I_ARRAY, Vector4i, Vector4i(I(i * k), I(i * k + 1), I(i * k + 2), I(i * k + 3)))
		POOLMAKE(POOL_COLOR_ARRAY, Color, Color(F(i * k), F(i * k + 1), F(i * k + 2), F(i * k + 3)))
	}
	return VT();
}
template <class P, class F> static void pread_(const P &p, F f) { for (int i = 0; i < p.size(); i++) f(p.get(i)); }
static V rd(const Variant &x, int depth = 0) {
	V v; v.t = x.get_type();
	auto P = [&](double y) { v.c.push_back(y); };
	auto P2 = [&](const Vector2 &q) { P(q.x); P(q.y); };
	auto P2i = [&](const Vector2i &q) { P(q.x); P(q.y); };
	auto P3 = [&](const Vector3 &q) { P(q.x); P(q.y); P(q.z); };
	auto P3i = [&](const Vector3i &q) { P(q.x); P(q.y); P(q.z); };
	auto P4 = [&](const Vector4 &q) { P(q.x); P(q.y); P(q.z); P(q.w); };
	auto P4i = [&](const Vector4i &q) { P(q.x); P(q.y); P(q.z); P(q.w); };
	switch (v.t) {
		case VT::BOOL: v.i = (bool)x; break;
		case VT::INT: v.i = x.operator int64_t(); break;
		case VT::REAL: v.r = x.operator double(); break;
		case VT::STRING: v.s = UT(x.operator String()); break;
		case VT::STRING_NAME: v.s = UT(String(x.operator StringName())); break;
		case VT::RECT2: { Rect2 q = x; P2(q.position); P2(q.size); break; }
		case VT::RECT2I: { Rect2i q = x; P2i(q.position); P2i(q.size); break; }
		case VT::VECTOR2: P2(x); break;
		case VT::VECTOR2I: P2i(x); break;
		case VT::VECTOR3: P3(x); break;
		case VT::VECTOR3I: P3i(x); break;
		case VT::VECTOR4: P4(x); break;
		case VT::VECTOR4I: P4i(x); break;
		case VT::PLANE: { Plane q = x; P3(q.normal); P(q.d); break; }
		case VT::QUATERNION: { Quaternion q = x; P(q.x); P(q.y); P(q.z); P(q.w); break; }
		case VT::COLOR: { Color q = x; P(q.r); P(q.g); P(q.b); P(q.a); break; }
		case VT::AABB: { ::AABB q = x; P3(q.position); P3(q.size); break; }
		case VT::BASIS: { Basis q = x; for (int i = 0; i < 3; i++) P3(q.rows[i]); break; }
		case VT::TRANSFORM: { Transform q = x; for (int i = 0; i < 3; i++) P3(q.basis.rows[i]); P3(q.origin); break; }
		case VT::TRANSFORM2D: { Transform2D q = x; for (int i = 0; i < 3; i++) P2(q.columns[i]); break; }
		case VT::PROJECTION: { Projection q = x; for (int i = 0; i < 4; i++) P4(q.matrix[i]); break; }
		case VT::OBJECT: { Object *o = x; v.o = -1; if (o) { v.o = -2; if (g_objs) for (size_t i = 0; i < g_objs->size(); i++) if ((*g_objs)[i] == o) v.o = (int)i; } break; }
		case VT::ARRAY: { Array a = x; v.a = std::make_shared<Arr>(); if (depth < 40) for (int i = 0; i < a.size(); i++) v.a->v.push_back(rd(a.get(i), depth + 1)); break; }
		case VT::DICTIONARY: { Dictionary d = x; v.d = std::make_shared<Dic>(); if (depth < 40) for (int i = 0; i < d.size(); i++) v.d->v.push_back({ rd(d.get_key_at_index(i), depth + 1), rd(d.get_value_at_index(i), depth + 1) }); break; }
		case VT::POOL_BYTE_ARRAY: pread_(x.operator PoolVector<uint8_t>(), P); break;
		case VT::POOL_INT_ARRAY: pread_(x.operator PoolVector<int>(), P); break;
		case VT::POOL_REAL_ARRAY: pread_(x.operator PoolVector<real_t>(), P); break;
		case VT::POOL_STRING_ARRAY: pread_(x.operator PoolVector<String>(), [&](const String &s) { v.ss.push_back(UT(s)); }); break;
		case VT::POOL_VECTOR2_ARRAY: pread_(x.operator PoolVector<Vector2>(), P2); break;
		case VT::POOL_VECTOR2I_ARRAY: pread_(x.operator PoolVector<Vector2i>(), P2i); break;
		case VT::POOL_VECTOR3_ARRAY: pread_(x.operator PoolVector<Vector3>(), P3); break;
		case VT::POOL_VECTOR3I_ARRAY: pread_(x.operator PoolVector<Vector3i>(), P3i); break;
		case VT::POOL_VECTOR4_ARRAY: pread_(x.operator PoolVector<Vector4>(), P4); break;
		case VT::POOL_VECTOR4I_ARRAY: pread_(x.operator PoolVector<Vector4i>(), P4i); break;
		case VT::POOL_COLOR_ARRAY: pread_(x.operator PoolVector<Color>(), [&](const Color &q) { P(q.r); P(q.g); P(q.b); P(q.a); }); break;
	}
	return v;
}
static bool is(Ctx &c, const char *kind, const Variant &got, const V &want, double tol = 0) {
	V g = rd(got);
	return c.check(kind, eqv(g, want, tol), "got " + show(g) + " want " + show(want));
}
static double q(Rng &r) { return r.chance(0.12) ? 0 : r.range(-40, 40) * 0.25; }
static US gs(Rng &r, int maxlen = 6) {
	static const char32_t al[] = { 'a', 'b', 'c', 'A', 'B', '0', '1', '9', ' ', '_', '%', '.', 0xe9, 0x3b1, 0x4e2d };
	US s; int n = r.chance(0.15) ? 0 : r.range(1, maxlen); for (int i = 0; i < n; i++) s += al[r.range(0, r.chance(0.8) ? 4 : 14)]; return s;
}
static V gen(Rng &r, int t, int depth = 0);
static int anytype(Rng &r, bool containers = true) { for (;;) { int t = r.range(0, VT::VARIANT_MAX - 1); if (t == VT::OBJECT) continue; if (!containers && (t == VT::ARRAY || t == VT::DICTIONARY)) continue; return t; } }
static int findkey(const Dic &d, const V &k) { for (size_t i = 0; i < d.v.size(); i++) if (eqv(d.v[i].first, k)) return (int)i; return -1; }
static V genkey(Rng &r) {
	static const int ts[] = { VT::INT, VT::INT, VT::STRING, VT::STRING, VT::REAL, VT::BOOL, VT::NIL, VT::STRING_NAME, VT::VECTOR2, VT::VECTOR2I, VT::VECTOR3, VT::COLOR, VT::RECT2I };
	int t = ts[r.range(0, 12)];
	if (r.chance(0.02)) { V a = va(); int n = r.range(0, 2); for (int i = 0; i < n; i++) a.a->v.push_back(vi(r.range(0, 2))); return a; }
	if (t == VT::INT) return vi(r.range(-2, 5));
	if (t == VT::REAL) return vr(r.range(-2, 4) * 0.5);
	if (t == VT::STRING || t == VT::STRING_NAME) { V v; v.t = t; v.s = US(1, U'a' + r.range(0, 3)); if (r.chance(0.3)) v.s += U'b'; return v; }
	V v = gen(r, t); for (double &x : v.c) x = std::floor(x) == x ? (double)((int)x & 1) : 0; return v;
}
static V gen(Rng &r, int t, int depth) {
	V v; v.t = t;
	switch (t) {
		case VT::NIL: return v;
		case VT::BOOL: v.i = r.range(0, 1); return v;
		case VT::INT: v.i = r.chance(0.1) ? (int64_t)r.next() : r.range(-20, 20); return v;
		case VT::REAL: v.r = r.chance(0.1) ? (double)r.f(-1e6, 1e6) : q(r); return v;
		case VT::STRING: case VT::STRING_NAME: v.s = gs(r); return v;
		case VT::POOL_STRING_ARRAY: { int n = r.range(0, 4); for (int i = 0; i < n; i++) v.ss.push_back(gs(r)); return v; }
		case VT::ARRAY: { v.a = std::make_shared<Arr>(); int n = depth > 2 ? 0 : r.range(0, 4); for (int i = 0; i < n; i++) v.a->v.push_back(gen(r, anytype(r, depth < 2), depth + 1)); return v; }
		case VT::DICTIONARY: { v.d = std::make_shared<Dic>(); int n = depth > 2 ? 0 : r.range(0, 4); for (int i = 0; i < n; i++) { V k = genkey(r); if (findkey(*v.d, k) < 0) v.d->v.push_back({ k, gen(r, anytype(r, depth < 2), depth + 1) }); } return v; }
		case VT::OBJECT: { v.o = g_objs && !g_objs->empty() ? r.range(-1, (int)g_objs->size() - 1) : -1; return v; }
	}
	int n = ncomp(t);
	if (ispool(t)) n = stride(t) * r.range(0, 4);
	for (int i = 0; i < n; i++) v.c.push_back(t == VT::POOL_BYTE_ARRAY ? r.range(0, 255) : isint(t) ? r.range(-9, 9) : q(r));
	return v;
}
static V dflt(int t) { // the value a default-constructed object of the type has
	V v; v.t = t; v.c.assign(ncomp(t), 0);
	if (t == VT::QUATERNION) v.c[3] = 1;
	if (t == VT::COLOR) v.c[3] = 1;
	if (t == VT::BASIS || t == VT::TRANSFORM) v.c[0] = v.c[4] = v.c[8] = 1;
	if (t == VT::TRANSFORM2D) v.c[0] = v.c[3] = 1;
	if (t == VT::PROJECTION) v.c[0] = v.c[5] = v.c[10] = v.c[15] = 1;
	if (t == VT::ARRAY) v.a = std::make_shared<Arr>();
	if (t == VT::DICTIONARY) v.d = std::make_shared<Dic>();
	return v;
}
static bool zerop(const V &v) {
	if (v.t == VT::OBJECT) return v.o == -1;
	if (v.t == VT::ARRAY) return v.a->v.empty();
	if (v.t == VT::DICTIONARY) return v.d->v.empty();
	return eqv(v, dflt(v.t));
}
static uint64_t hv(const V &v) { return hs(show(v)); }
static void snap_values(Ctx &c, const char *kind, const Variant &x, const V &want) { is(c, kind, x, want); }
} // namespace r06
using namespace r06;

UNIT("R06", "value.roundtrip", 60000, 1500000) {
	Rng &r = c.rng;
	std::vector<Object *> objs; for (int i = 0; i < 2; i++) objs.push_back(memnew(R06Obj)); g_objs = &objs;
	{
		int t = r.chance(0.04) ? VT::OBJECT : anytype(r);
		V m = r.chance(0.15) && t != VT::OBJECT ? dflt(t) : gen(r, t);
		c.label(TN[t]);
		Variant x = make(m);
		c.check("type", x.get_type() == t, "get_type");
		is(c, "value", x, m);
		c.check("classes", x.is_num() == isnum(t) && x.is_null() == (t == VT::NIL) && x.is_array() == (t >= VT::ARRAY), "is_num / is_null / is_array");
		c.check("is_zero", x.is_zero() == zerop(m), "is_zero of " + show(m));
		c.check("booleanize", x.booleanize() == !zerop(m) && (bool)x == !zerop(m), "truth of " + show(m));
		Variant y = x; is(c, "copy", y, m);
		V o = r.chance(0.25) ? gen(r, t) : gen(r, r.chance(0.05) ? VT::OBJECT : anytype(r));
		Variant z = make(o); z = x; is(c, "assign", z, m); is(c, "assign_source", x, m);
		y = make(o); is(c, "reassign", y, o); is(c, "copy_source", x, m);
		z = z; is(c, "self_assign", z, m);
		{ Variant w(z); z = y; is(c, "copy_outlives", w, m); is(c, "assign_back", z, o); }
		z = Variant(); c.check("nil", z.get_type() == VT::NIL, "assigning nil");
		Variant dz = x; dz.zero(); V zz = rd(dz);
		c.check("zero", dz.is_zero() && (zz.t == VT::NIL || zz.t == t), "zero() gave " + show(zz) + " from " + show(m));
		if (zz.t == t) is(c, "zero_value", dz, dflt(t));
		if (t != VT::ARRAY && t != VT::DICTIONARY) is(c, "zero_source", x, m);
		Variant du = x.duplicate(r.chance(0.5)); is(c, "duplicate", du, m);
		c.check("is_ref_shared", !x.is_ref() && !x.is_invalid_object(), "is_ref / is_invalid_object");
		c.obs(hsh(hv(m), t), !zerop(m));
	}
	for (Object *o : objs) memdelete(o);
	g_objs = nullptr;
}

// Conversions between the types, each from its definition.
UNIT("R06", "value.convert", 50000, 1000000) {
	Rng &r = c.rng;
	int kind = r.range(0, 5);
	if (kind == 0) { // numbers
		int t = r.pick(std::vector<int>{ VT::NIL, VT::BOOL, VT::INT, VT::REAL });
		V m = gen(r, t); if (t == VT::INT && !r.chance(0.1)) m.i = r.range(-100, 100);
		if (t == VT::REAL) m.r = r.range(-400, 400) * 0.25;
		double d = t == VT::NIL ? 0 : num(m); int64_t i = t == VT::REAL ? (int64_t)m.r : m.i;
		Variant x = make(m); c.label(TN[t]);
		c.check("to_double", x.operator double() == d, show(m)); c.check("to_float", x.operator float() == (float)d, show(m));
		c.check("to_int64", x.operator int64_t() == i, show(m));
		if (t != VT::REAL || i >= 0) c.check("to_uint64", x.operator uint64_t() == (uint64_t)i, show(m));
		if (i >= INT32_MIN && i <= INT32_MAX) c.check("to_int", x.operator int() == (int)i, show(m));
		if (i >= 0 && i <= 127) c.check("to_small", x.operator unsigned int() == (unsigned)i && x.operator short() == (short)i && x.operator unsigned short() == i && x.operator signed char() == i && x.operator unsigned char() == i, show(m));
		c.check("to_bool", x.operator bool() == (d != 0), show(m));
		if (t == VT::BOOL) c.check("to_string", UT(x) == (m.i ? U"True" : U"False"), "text of a bool");
		if (t == VT::NIL) c.check("to_string", UT(x) == U"Null", "text of nil");
		if (t == VT::INT) { std::string w = std::to_string(m.i); c.check("to_string", UT(x) == US(w.begin(), w.end()), "text of " + w); }
		c.obs(hv(m), d != 0);
	} else if (kind == 1) { // numerals
		int64_t i = r.chance(0.3) ? (int64_t)(r.next() >> r.range(2, 40)) * (r.chance(0.5) ? 1 : -1) : r.range(-100000, 100000);
		std::string w = std::to_string(i); Variant x = String(w.c_str()); c.label("numeral");
		c.check("to_int64", x.operator int64_t() == i, w);
		if (i >= 0) c.check("to_uint64", x.operator uint64_t() == (uint64_t)i, w);
		if (i >= INT32_MIN && i <= INT32_MAX) c.check("to_int", x.operator int() == i, w);
		c.check("to_double", std::fabs(x.operator double() - (double)i) <= 1e-9 * std::fabs((double)i), w);
		c.check("to_string_name", UT(String(x.operator StringName())) == US(w.begin(), w.end()), w);
		Variant sn = StringName(w.c_str()); c.check("name_to_string", UT(sn) == US(w.begin(), w.end()), w);
		c.obs(hs(w), i != 0);
	} else if (kind == 2) { // vectors and rectangles
		int t = r.range(VT::VECTOR2, VT::VECTOR4I); V m = gen(r, t); Variant x = make(m); c.label(TN[t]);
		for (int u = VT::VECTOR2; u <= VT::VECTOR4I; u++) {
			int n = ncomp(u); std::vector<double> w(n, 0); for (int k = 0; k < n && k < (int)m.c.size(); k++) w[k] = isint(u) ? std::trunc(m.c[k]) : m.c[k];
			V want = vc(u, w); Variant y;
			switch (u) { case VT::VECTOR2: y = x.operator Vector2(); break; case VT::VECTOR2I: y = x.operator Vector2i(); break; case VT::VECTOR3: y = x.operator Vector3(); break; case VT::VECTOR3I: y = x.operator Vector3i(); break; case VT::VECTOR4: y = x.operator Vector4(); break; default: y = x.operator Vector4i(); }
			is(c, (std::string("to_") + TN[u]).c_str(), y, want);
		}
		V rm = gen(r, r.chance(0.5) ? VT::RECT2 : VT::RECT2I); Variant rx = make(rm); std::vector<double> tr = rm.c; for (double &z : tr) z = std::trunc(z);
		is(c, "to_RECT2", rx.operator Rect2(), vc(VT::RECT2, rm.c)); is(c, "to_RECT2I", rx.operator Rect2i(), vc(VT::RECT2I, tr));
		c.obs(hsh(hv(m), hv(rm)), true);
	} else if (kind == 3) { // transforms
		int t = r.pick(std::vector<int>{ VT::BASIS, VT::TRANSFORM, VT::TRANSFORM2D, VT::PROJECTION }); V m = gen(r, t); c.label(TN[t]);
		if (t == VT::PROJECTION) { m.c[3] = m.c[7] = m.c[11] = 0; m.c[15] = 1; } // an affine matrix
		Variant x = make(m);
		double b[3][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }, o[3] = { 0, 0, 0 };
		if (t == VT::BASIS || t == VT::TRANSFORM) for (int i = 0; i < 9; i++) b[i / 3][i % 3] = m.c[i];
		if (t == VT::TRANSFORM) for (int i = 0; i < 3; i++) o[i] = m.c[9 + i];
		if (t == VT::TRANSFORM2D) { for (int i = 0; i < 4; i++) b[i % 2][i / 2] = m.c[i]; o[0] = m.c[4]; o[1] = m.c[5]; }
		if (t == VT::PROJECTION) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) b[j][i] = m.c[i * 4 + j]; for (int i = 0; i < 3; i++) o[i] = m.c[12 + i]; }
		std::vector<double> tw, pw(16, 0); for (int i = 0; i < 9; i++) tw.push_back(b[i / 3][i % 3]); for (int i = 0; i < 3; i++) tw.push_back(o[i]);
		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) pw[i * 4 + j] = b[j][i];
		for (int i = 0; i < 3; i++) pw[12 + i] = o[i]; pw[15] = 1;
		is(c, "to_transform", x.operator Transform(), vc(VT::TRANSFORM, tw)); is(c, "to_projection", x.operator Projection(), vc(VT::PROJECTION, pw));
		if (t == VT::BASIS || t == VT::TRANSFORM) is(c, "to_basis", x.operator Basis(), vc(VT::BASIS, std::vector<double>(tw.begin(), tw.begin() + 9)));
		if (t == VT::TRANSFORM) is(c, "to_transform2d", x.operator Transform2D(), vc(VT::TRANSFORM2D, { b[0][0], b[1][0], b[0][1], b[1][1], o[0], o[1] }));
		c.obs(hv(m), true);
	} else if (kind == 4) { // arrays of every kind into arrays of every other kind
		int fam = r.range(0, 2); std::vector<int> ts;
		if (fam == 0) ts = { VT::POOL_BYTE_ARRAY, VT::POOL_INT_ARRAY, VT::POOL_REAL_ARRAY, VT::ARRAY };
		else if (fam == 1) ts = { VT::POOL_STRING_ARRAY, VT::ARRAY };
		else ts = { VT::POOL_VECTOR2_ARRAY, VT::POOL_VECTOR2I_ARRAY, VT::POOL_VECTOR3_ARRAY, VT::POOL_VECTOR3I_ARRAY, VT::POOL_VECTOR4_ARRAY, VT::POOL_VECTOR4I_ARRAY, VT::ARRAY };
		int from = r.pick(ts), n = r.range(0, 7); V m; m.t = from; if (from == VT::ARRAY) m.a = std::make_shared<Arr>();
		std::vector<V> el;
		for (int i = 0; i < n; i++) {
			V e; if (from == VT::ARRAY) e = fam == 0 ? (r.chance(0.5) ? vi(r.range(0, 200)) : vr(r.range(0, 200) * 0.25)) : fam == 1 ? gen(r, r.chance(0.7) ? VT::STRING : VT::STRING_NAME) : gen(r, r.range(VT::VECTOR2, VT::VECTOR4I));
			else { e = gen(r, elemtype(from)); if (fam == 0) { e.i = r.range(0, 200); e.r = r.range(0, 800) * 0.25; } }
			el.push_back(e);
			if (from == VT::ARRAY) m.a->v.push_back(e); else if (from == VT::POOL_STRING_ARRAY) m.ss.push_back(e.s); else if (stride(from) == 1) m.c.push_back(num(e)); else m.c.insert(m.c.end(), e.c.begin(), e.c.end());
		}
		Variant x = make(m); c.label(TN[from]);
		int to = r.pick(ts); V want; want.t = to; if (to == VT::ARRAY) want.a = std::make_shared<Arr>();
		for (V &e : el) {
			if (to == VT::ARRAY) { want.a->v.push_back(e); continue; }
			if (to == VT::POOL_STRING_ARRAY) { want.ss.push_back(e.s); continue; }
			if (stride(to) == 1) { want.c.push_back(to == VT::POOL_REAL_ARRAY ? num(e) : std::trunc(num(e))); continue; }
			for (int k = 0; k < stride(to); k++) want.c.push_back(k < (int)e.c.size() ? (isint(to) ? std::trunc(e.c[k]) : e.c[k]) : 0);
		}
		Variant y;
		switch (to) {
#define CV(T, TY) case VT::T: y = x.operator TY(); break;
			CV(ARRAY, Array) CV(POOL_BYTE_ARRAY, PoolVector<uint8_t>) CV(POOL_INT_ARRAY, PoolVector<int>) CV(POOL_REAL_ARRAY, PoolVector<real_t>) CV(POOL_STRING_ARRAY, PoolVector<String>) CV(POOL_VECTOR2_ARRAY, PoolVector<Vector2>) CV(POOL_VECTOR2I_ARRAY, PoolVector<Vector2i>) CV(POOL_VECTOR3_ARRAY, PoolVector<Vector3>) CV(POOL_VECTOR3I_ARRAY, PoolVector<Vector3i>) CV(POOL_VECTOR4_ARRAY, PoolVector<Vector4>) CV(POOL_VECTOR4I_ARRAY, PoolVector<Vector4i>)
#undef CV
		}
		is(c, (std::string("to_") + TN[to]).c_str(), y, want); is(c, "source", x, m);
		// growable vectors of the same elements, there and back
		if (fam == 0) { Vector<int> w = x; bool ok = w.size() == n; for (int i = 0; ok && i < n; i++) ok = w[i] == (int)num(el[i]); c.check("to_vector_int", ok, show(m)); Vector<uint8_t> wb = x; ok = wb.size() == n; for (int i = 0; ok && i < n; i++) ok = wb[i] == (int)num(el[i]); c.check("to_vector_byte", ok, show(m)); Vector<real_t> wr = x; ok = wr.size() == n; for (int i = 0; ok && i < n; i++) ok = wr[i] == (real_t)num(el[i]); c.check("to_vector_real", ok, show(m)); V wi; wi.t = VT::POOL_INT_ARRAY; for (auto &e : el) wi.c.push_back((int)num(e)); is(c, "from_vector_int", Variant(w), wi); V wb2 = wi; wb2.t = VT::POOL_BYTE_ARRAY; is(c, "from_vector_byte", Variant(wb), wb2); V wr2; wr2.t = VT::POOL_REAL_ARRAY; for (auto &e : el) wr2.c.push_back(num(e)); is(c, "from_vector_real", Variant(wr), wr2); }
		if (fam == 1) { Vector<String> w = x; bool ok = w.size() == n; for (int i = 0; ok && i < n; i++) ok = UT(w[i]) == el[i].s; c.check("to_vector_string", ok, show(m)); V ws; ws.t = VT::POOL_STRING_ARRAY; for (auto &e : el) ws.ss.push_back(e.s); is(c, "from_vector_string", Variant(w), ws); Vector<StringName> wn = x; ok = wn.size() == n; for (int i = 0; ok && i < n; i++) ok = UT(String(wn[i])) == el[i].s; c.check("to_vector_name", ok, show(m)); }
		if (fam == 2) {
			auto comp = [&](int i, int k) { return k < (int)el[i].c.size() ? el[i].c[k] : 0.0; };
#define VV(T, D, S, ACC) { Vector<T> w = x; bool ok = w.size() == n; for (int i = 0; ok && i < n; i++) for (int k = 0; k < D; k++) if (w[i][k] != (S)comp(i, k)) ok = false; c.check("to_vector_" #T, ok, show(m)); V wv; wv.t = VT::ACC; for (int i = 0; i < n; i++) for (int k = 0; k < D; k++) wv.c.push_back((S)comp(i, k)); is(c, "from_vector_" #T, Variant(w), wv); }
			VV(Vector2, 2, real_t, POOL_VECTOR2_ARRAY) VV(Vector2i, 2, int, POOL_VECTOR2I_ARRAY) VV(Vector3, 3, real_t, POOL_VECTOR3_ARRAY) VV(Vector3i, 3, int, POOL_VECTOR3I_ARRAY) VV(Vector4, 4, real_t, POOL_VECTOR4_ARRAY) VV(Vector4i, 4, int, POOL_VECTOR4I_ARRAY)
#undef VV
			PoolVector<Face3> f = x; bool ok = f.size() == n / 3; for (int i = 0; ok && i < n / 3 * 3; i++) for (int k = 0; k < 3; k++) if (f.get(i / 3).vertex[i % 3][k] != (real_t)comp(i, k)) ok = false;
			c.check("to_faces", ok, show(m));
		}
		c.obs(hsh(hv(m), to), n > 0);
	} else { // text of containers
		std::function<US(const V &)> text = [&](const V &v) -> US {
			switch (v.t) {
				case VT::NIL: return U"Null"; case VT::BOOL: return v.i ? U"True" : U"False"; case VT::INT: { std::string w = std::to_string(v.i); return US(w.begin(), w.end()); }
				case VT::STRING: case VT::STRING_NAME: return v.s;
				case VT::ARRAY: { US o = U"["; for (size_t i = 0; i < v.a->v.size(); i++) { if (i) o += U", "; o += text(v.a->v[i]); } return o + U"]"; }
				case VT::DICTIONARY: { std::vector<std::pair<US, US>> p; for (auto &e : v.d->v) p.push_back({ text(e.first), text(e.second) }); std::stable_sort(p.begin(), p.end(), [](const std::pair<US, US> &a, const std::pair<US, US> &b) { return a.first < b.first; }); US o = U"{"; for (size_t i = 0; i < p.size(); i++) { if (i) o += U", "; o += p[i].first + U":" + p[i].second; } return o + U"}"; }
				case VT::POOL_INT_ARRAY: case VT::POOL_BYTE_ARRAY: case VT::POOL_STRING_ARRAY: { US o = U"["; for (int i = 0; i < psize(v); i++) { if (i) o += U", "; o += text(pelem(v, i)); } return o + U"]"; }
			}
			return US();
		};
		std::function<V(int)> g = [&](int depth) -> V {
			static const int ts[] = { VT::NIL, VT::BOOL, VT::INT, VT::STRING, VT::STRING_NAME, VT::POOL_INT_ARRAY, VT::POOL_BYTE_ARRAY, VT::POOL_STRING_ARRAY };
			if (depth < 3 && r.chance(0.5)) { if (r.chance(0.5)) { V v = va(); int n = r.range(0, 4); for (int i = 0; i < n; i++) v.a->v.push_back(g(depth + 1)); return v; }
				V v = vd(); int n = r.range(0, 4); std::set<US> seen; for (int i = 0; i < n; i++) { V k = r.chance(0.5) ? vi(r.range(-3, 9)) : vs(gs(r, 3)); if (seen.insert(text(k)).second) v.d->v.push_back({ k, g(depth + 1) }); } return v; }
			return gen(r, ts[r.range(0, 7)]);
		};
		V m = g(0); Variant x = make(m); c.label("text");
		c.check("text", UT(x.operator String()) == text(m), u8(UT(x.operator String())) + " want " + u8(text(m)));
		// text of a container held inside itself ends
		if (m.t == VT::ARRAY && r.chance(0.2)) { Array a = x; a.push_back(a); US s = UT(Variant(a).operator String()); c.check("self_text", s.find(U"[...]") != US::npos, u8(s)); a.pop_back(); is(c, "self_removed", a, m); }
		c.obs(hv(m), m.t >= VT::DICTIONARY);
	}
}

struct Memb { const char *name; int vt; std::vector<int> idx; }; // vt: REAL = any number
static std::vector<Memb> members(int t) {
	const int N = VT::REAL;
	switch (t) {
		case VT::RECT2: return { { "position", VT::VECTOR2, { 0, 1 } }, { "size", VT::VECTOR2, { 2, 3 } }, { "end", VT::VECTOR2, {} } };
		case VT::RECT2I: return { { "position", VT::VECTOR2I, { 0, 1 } }, { "size", VT::VECTOR2I, { 2, 3 } }, { "end", VT::VECTOR2I, {} } };
		case VT::VECTOR2: case VT::VECTOR2I: return { { "x", N, { 0 } }, { "y", N, { 1 } } };
		case VT::VECTOR3: case VT::VECTOR3I: return { { "x", N, { 0 } }, { "y", N, { 1 } }, { "z", N, { 2 } } };
		case VT::VECTOR4: case VT::VECTOR4I: case VT::QUATERNION: return { { "x", N, { 0 } }, { "y", N, { 1 } }, { "z", N, { 2 } }, { "w", N, { 3 } } };
		case VT::PLANE: return { { "x", N, { 0 } }, { "y", N, { 1 } }, { "z", N, { 2 } }, { "d", N, { 3 } }, { "normal", VT::VECTOR3, { 0, 1, 2 } } };
		case VT::AABB: return { { "position", VT::VECTOR3, { 0, 1, 2 } }, { "size", VT::VECTOR3, { 3, 4, 5 } }, { "end", VT::VECTOR3, {} } };
		case VT::BASIS: return { { "x", VT::VECTOR3, { 0, 3, 6 } }, { "y", VT::VECTOR3, { 1, 4, 7 } }, { "z", VT::VECTOR3, { 2, 5, 8 } } };
		case VT::TRANSFORM: return { { "basis", VT::BASIS, { 0, 1, 2, 3, 4, 5, 6, 7, 8 } }, { "origin", VT::VECTOR3, { 9, 10, 11 } } };
		case VT::TRANSFORM2D: return { { "x", VT::VECTOR2, { 0, 1 } }, { "y", VT::VECTOR2, { 2, 3 } }, { "origin", VT::VECTOR2, { 4, 5 } } };
		case VT::PROJECTION: return { { "x", VT::VECTOR4, { 0, 1, 2, 3 } }, { "y", VT::VECTOR4, { 4, 5, 6, 7 } }, { "z", VT::VECTOR4, { 8, 9, 10, 11 } }, { "w", VT::VECTOR4, { 12, 13, 14, 15 } } };
		case VT::COLOR: return { { "r", N, { 0 } }, { "g", N, { 1 } }, { "b", N, { 2 } }, { "a", N, { 3 } } };
	}
	return {};
}
static std::vector<Memb> indices(int t) {
	const int N = VT::REAL; std::vector<Memb> o;
	if (isvec(t) || t == VT::COLOR) { for (int i = 0; i < ncomp(t); i++) o.push_back({ "", N, { i } }); return o; }
	switch (t) {
		case VT::BASIS: return members(t);
		case VT::TRANSFORM: return { { "", VT::VECTOR3, { 0, 3, 6 } }, { "", VT::VECTOR3, { 1, 4, 7 } }, { "", VT::VECTOR3, { 2, 5, 8 } }, { "", VT::VECTOR3, { 9, 10, 11 } } };
		case VT::TRANSFORM2D: case VT::PROJECTION: return members(t);
	}
	return {};
}
static V memb_get(const V &m, const Memb &k) {
	if (std::string(k.name) == "end") { int n = (int)m.c.size() / 2; std::vector<double> w; for (int i = 0; i < n; i++) w.push_back(m.c[i] + m.c[n + i]); return vc(k.vt, w); }
	if (k.vt == VT::REAL) return isint(m.t) ? vi((int64_t)m.c[k.idx[0]]) : vr(m.c[k.idx[0]]);
	std::vector<double> w; for (int i : k.idx) w.push_back(m.c[i]); return vc(k.vt, w);
}
static V memb_set(const V &m, const Memb &k, const V &v) {
	V o = m; bool ii = isint(m.t);
	if (std::string(k.name) == "end") { int n = (int)m.c.size() / 2; for (int i = 0; i < n; i++) { double z = v.c[i] - m.c[i]; o.c[n + i] = ii ? std::trunc(z) : z; } return o; }
	if (k.vt == VT::REAL) { o.c[k.idx[0]] = ii ? std::trunc(num(v)) : num(v); return o; }
	for (size_t i = 0; i < k.idx.size(); i++) o.c[k.idx[i]] = ii ? std::trunc(v.c[i]) : v.c[i];
	return o;
}

UNIT("R06", "value.members", 60000, 1500000) {
	Rng &r = c.rng;
	static const int ts[] = { VT::RECT2, VT::RECT2I, VT::VECTOR2, VT::VECTOR2I, VT::VECTOR3, VT::VECTOR3I, VT::VECTOR4, VT::VECTOR4I, VT::PLANE, VT::QUATERNION, VT::AABB, VT::BASIS, VT::TRANSFORM, VT::TRANSFORM2D, VT::PROJECTION, VT::COLOR };
	int t = ts[r.range(0, 15)]; V m = gen(r, t); Variant x = make(m); c.label(TN[t]);
	int steps = r.range(1, 8); uint64_t h = hv(m); int changes = 0;
	for (int st = 0; st < steps; st++) {
		int how = r.range(0, 3); // 0 set_named, 1 text, 2 name, 3 integer
		std::vector<Memb> ms = how == 3 ? indices(t) : members(t);
		int real = isint(t);
		if (how == 3 && ms.empty()) continue;
		int ki = r.range(0, (int)ms.size() - 1); Memb k = ms[ki];
		const char *acc[] = { "named", "text", "name", "integer" };
		std::string lab = strf("%s.%s", acc[how], how == 3 ? std::to_string(ki).c_str() : k.name);
		Variant key = how == 1 ? Variant(String(k.name)) : how == 2 ? Variant(StringName(k.name)) : Variant(how == 3 && r.chance(0.2) ? ki - (int)ms.size() : ki);
		auto get = [&](bool *ok) { return how == 0 ? x.get_named(StringName(k.name), ok) : x.get(key, ok); };
		auto set = [&](const Variant &v, bool *ok) { if (how == 0) x.set_named(StringName(k.name), v, ok); else x.set(key, v, ok); };
		bool ok = false; Variant g = get(&ok); V want = memb_get(m, k);
		if (!c.check("readable", ok, lab + " of " + show(m))) return;
		V got = rd(g); if (isnum(want.t) && isnum(got.t)) c.check("read", num(got) == num(want), lab + " of " + show(m) + " got " + show(got)); else c.check("read", eqv(got, want), lab + " of " + show(m) + " got " + show(got));
		bool good = r.chance(0.75);
		V v;
		if (good) { v = k.vt == VT::REAL ? (r.chance(0.4) ? vi(r.range(-9, 9)) : vr(real ? r.range(-9, 9) : q(r))) : gen(r, k.vt); }
		else { int u = anytype(r); if (isnum(u) && k.vt == VT::REAL) continue; if (isvec(u) && (isvec(k.vt))) continue; if (k.vt == VT::BASIS && (u == VT::QUATERNION || u == VT::BASIS || u == VT::VECTOR3)) continue; v = gen(r, u); }
		ok = !good; set(make(v), &ok);
		if (good) { if (!c.check("writable", ok, lab + " := " + show(v) + " of " + show(m))) return; m = memb_set(m, k, v); changes++; }
		else c.check("wrong_value_refused", !ok, lab + " := " + show(v) + " was reported as done");
		if (!is(c, good ? "written" : "refused_unchanged", x, m)) { c.sample(lab + " := " + show(v)); return; }
		h = hsh(hsh(h, how * 20 + ki), hv(v));
		// names and positions that do not exist
		if (r.chance(0.2)) {
			bool o2 = true; Variant w = how == 3 ? x.get(Variant((int)ms.size() + r.range(0, 3)), &o2) : how == 0 ? x.get_named("nope", &o2) : x.get(Variant(String("nope")), &o2);
			c.check("unknown_read_refused", !o2, "reading a member that does not exist");
			o2 = true; if (how == 3) x.set(Variant((int)ms.size() + r.range(0, 3)), make(v), &o2); else if (how == 0) x.set_named("nope", make(v), &o2); else x.set(Variant(StringName("nope")), make(v), &o2);
			c.check("unknown_write_refused", !o2, "writing a member that does not exist"); is(c, "unknown_unchanged", x, m);
		}
		if (t == VT::COLOR && how != 3 && r.chance(0.3)) { // bytes
			const char *b8[] = { "r8", "g8", "b8", "a8" }; int z = r.range(0, 3), bv = r.range(0, 255); bool o2 = false;
			if (how == 0) x.set_named(b8[z], Variant(bv), &o2); else if (how == 1) x.set(Variant(String(b8[z])), Variant(bv), &o2); else x.set(Variant(StringName(b8[z])), Variant(bv), &o2);
			m.c[z] = (double)(float)(bv / 255.0); c.check("byte_writable", o2, b8[z]); is(c, "byte_written", x, m, 1e-6);
			Variant w = how == 0 ? x.get_named(b8[z], &o2) : x.get(Variant(String(b8[z])), &o2); c.check("byte_read", o2 && std::fabs(num(rd(w)) - bv) <= 1.0, strf("%s read back %s wrote %d", b8[z], show(rd(w)).c_str(), bv));
			m = rd(x);
		}
	}
	c.obs(h, changes > 0);
}

// Elements of strings, arrays, dictionaries and pool arrays through the variant interface.
UNIT("R06", "value.elements", 40000, 800000) {
	Rng &r = c.rng;
	std::vector<int> ts = { VT::STRING, VT::ARRAY, VT::DICTIONARY }; for (int i = VT::POOL_BYTE_ARRAY; i <= VT::POOL_COLOR_ARRAY; i++) ts.push_back(i);
	int t = r.pick(ts); V m = gen(r, t); Variant x = make(m); Variant alias = x; c.label(TN[t]);
	uint64_t h = hv(m); int n = 0;
	for (int st = 0, S = r.range(1, 8); st < S; st++) {
		bool ok;
		if (t == VT::DICTIONARY) {
			V k = genkey(r); int f = findkey(*m.d, k); ok = false;
			Variant g = x.get(make(k), &ok); c.check("read_valid", ok == (f >= 0), "key " + show(k)); if (f >= 0) is(c, "read", g, m.d->v[f].second);
			ok = false; c.check("contains", x.in(make(k), &ok) == (f >= 0) && ok, "key " + show(k));
			V v = gen(r, anytype(r, false)); ok = false; x.set(make(k), make(v), &ok); if (f >= 0) m.d->v[f].second = v; else m.d->v.push_back({ k, v });
			c.check("write_valid", ok, "key " + show(k)); is(c, "written", x, m); is(c, "shared", alias, m);
		} else {
			int len = t == VT::STRING ? (int)m.s.size() : t == VT::ARRAY ? (int)m.a->v.size() : psize(m);
			int i = r.range(-len - 2, len + 1); bool in = i >= -len && i < len; int p = i < 0 ? i + len : i;
			Variant key = r.chance(0.3) ? Variant((double)i) : Variant(i);
			if (t == VT::STRING || ispool(t) || t == VT::ARRAY) {
				ok = !in; Variant g = x.get(key, &ok); c.check("read_valid", ok == in, strf("index %d of %d", i, len));
				if (in) is(c, "read", g, t == VT::STRING ? vs(US(1, m.s[p])) : t == VT::ARRAY ? m.a->v[p] : pelem(m, p));
			}
			ok = true; x.get(Variant(Vector2(0, 0)), &ok); c.check("wrong_key_refused", !ok, "reading with a vector as index");
			V v; bool good = true;
			if (t == VT::STRING) v = r.chance(0.5) ? vs(US(1, U'a' + r.range(0, 25))) : vi('a' + r.range(0, 25));
			else if (t == VT::ARRAY) v = gen(r, anytype(r, false));
			else { v = gen(r, elemtype(t)); if (t == VT::POOL_BYTE_ARRAY) v.i = r.range(0, 255); else if (v.t == VT::INT) v.i = r.range(-1000, 1000); if (v.t == VT::REAL) v.r = q(r);
				if (r.chance(0.25)) { int u = anytype(r); if (u != v.t && !(isnum(u) && isnum(v.t))) { v = gen(r, u); good = false; } } }
			V before = m;
			ok = !(in && good); x.set(key, make(v), &ok);
			c.check("write_valid", ok == (in && good), strf("index %d of %d value %s", i, len, show(v).c_str()));
			if (in && good) { n++; if (t == VT::STRING) m.s[p] = v.t == VT::STRING ? v.s[0] : (char32_t)v.i; else if (t == VT::ARRAY) m.a->v[p] = v; else pset(m, p, v); }
			is(c, "written", x, m);
			if (t == VT::ARRAY) is(c, "shared", alias, m); else { alias = x; if (in && good) { Variant keep = alias; V o2 = m; V w = t == VT::STRING ? vs(U"z") : pelem(m, p); if (r.chance(0.5)) { x.set(key, make(w), &ok); if (t == VT::STRING) m.s[p] = U'z'; is(c, "copy_independent", keep, o2); } } }
			// membership
			if (t != VT::STRING && len) {
				V w = r.chance(0.6) ? (t == VT::ARRAY ? m.a->v[r.range(0, len - 1)] : pelem(m, r.range(0, len - 1))) : gen(r, t == VT::ARRAY ? anytype(r, false) : elemtype(t));
				if (w.t == VT::INT && std::llabs(w.i) > 100000) w.i = 7; if (w.t == VT::REAL && (std::fabs(w.r) > 100 )) w.r = 1;
				bool want = false, judge = true;
				if (t == VT::ARRAY) { for (auto &e : m.a->v) { if (eqop(e, w) || (isnum(e.t) && isnum(w.t) && num(e) == num(w)) || ((e.t == VT::STRING || e.t == VT::STRING_NAME) && (w.t == VT::STRING || w.t == VT::STRING_NAME) && e.s == w.s)) want = true; if (e.t == VT::DICTIONARY || e.t == VT::ARRAY) judge = false; } if (w.t == VT::ARRAY || w.t == VT::DICTIONARY) judge = false; }
				else for (int j = 0; j < len; j++) if (eqv(pelem(m, j), w)) want = true;
				if (judge) { ok = false; bool got = x.in(make(w), &ok); c.check("contains", ok && got == want, show(w) + " in " + show(m)); bool vv = false; Variant res; Variant::evaluate(VT::OP_IN, make(w), x, res, vv); c.check("in_operator", vv && (bool)res == want, show(w) + " in " + show(m)); }
			}
			if (t == VT::STRING) { US w = gs(r, 2); ok = false; bool got = x.in(Variant(ST(w)), &ok); if (!w.empty() && !m.s.empty()) c.check("contains", ok && got == (m.s.find(w) != US::npos), u8(w) + " in " + u8(m.s)); }
		}
		h = hsh(h, hv(m));
	}
	c.obs(h, n > 0 || t == VT::DICTIONARY);
}

namespace r06 {
static int cmpv2(const V &a, const V &b) { // ordering of two values of one ordered type: -1 0 1; 2 = unordered type
	if (isnum(a.t) && isnum(b.t)) { if (a.t == VT::INT && b.t == VT::INT) return a.i < b.i ? -1 : a.i > b.i; return num(a) < num(b) ? -1 : num(a) > num(b); }
	bool sa = a.t == VT::STRING || a.t == VT::STRING_NAME, sb = b.t == VT::STRING || b.t == VT::STRING_NAME;
	if (sa && sb) return a.s < b.s ? -1 : a.s > b.s;
	if (a.t != b.t) return 2;
	if (a.t == VT::BOOL) return (int)a.i - (int)b.i;
	if (isvec(a.t)) { for (size_t i = 0; i < a.c.size(); i++) if (a.c[i] != b.c[i]) return a.c[i] < b.c[i] ? -1 : 1; return 0; }
	if (a.t == VT::COLOR) { for (size_t i = 0; i < a.c.size(); i++) if (a.c[i] != b.c[i]) return a.c[i] < b.c[i] ? -1 : 1; return 0; }
	if (ispool(a.t)) { int n = psize(a), k = psize(b); for (int i = 0; i < n && i < k; i++) { int z = cmpv2(pelem(a, i), pelem(b, i)); if (z) return z; } return n < k ? -1 : n > k; }
	if (a.t == VT::ARRAY) { size_t n = a.a->v.size(), k = b.a->v.size(); for (size_t i = 0; i < n && i < k; i++) { const V &x = a.a->v[i], &y = b.a->v[i]; if (x.t != y.t) return x.t < y.t ? -1 : 1; int z = cmpv2(x, y); if (z == 2) return 2; if (z) return z; } return n < k ? -1 : n > k; }
	return 2;
}
static bool ordered(const V &v) { // every element ordered
	if (v.t == VT::ARRAY) { for (auto &e : v.a->v) if (!ordered(e)) return false; return true; }
	return isnum(v.t) || v.t == VT::STRING || v.t == VT::BOOL || isvec(v.t) || ispool(v.t);
}
// The operator table: 0 = not supported, 1 = result in out, -1 = not judged.
static int opm(int op, const V &a, const V &b, V &out, double &tol) {
	tol = 0; int A = a.t, B = b.t;
	bool sa = A == VT::STRING || A == VT::STRING_NAME, sb = B == VT::STRING || B == VT::STRING_NAME;
	auto R = [&](const V &v) { out = v; return 1; };
	switch (op) {
		case VT::OP_EQUAL: case VT::OP_NOT_EQUAL: {
			bool ne = op == VT::OP_NOT_EQUAL, e;
			if (A == VT::NIL) e = B == VT::NIL || (B == VT::OBJECT && b.o == -1);
			else if (B == VT::NIL) e = A == VT::OBJECT && a.o == -1;
			else if (isnum(A) && isnum(B)) e = A == VT::INT && B == VT::INT ? a.i == b.i : num(a) == num(b);
			else if (sa && sb) e = a.s == b.s;
			else if (A != B) return 0;
			else e = eqop(a, b);
			return R(vb(e != ne));
		}
		case VT::OP_LESS: case VT::OP_LESS_EQUAL: case VT::OP_GREATER: case VT::OP_GREATER_EQUAL: {
			bool strict = op == VT::OP_LESS || op == VT::OP_GREATER, less = op == VT::OP_LESS || op == VT::OP_LESS_EQUAL;
			bool sup = (isnum(A) && isnum(B)) || (A == VT::STRING && sb) || (A == B && isvec(A)) || (strict && A == B && (A == VT::BOOL || A == VT::ARRAY || ispool(A))) || (A == VT::OBJECT && B == VT::OBJECT);
			if (!sup) return 0;
			if (A == VT::OBJECT) return -1;
			if (A == VT::ARRAY && (!ordered(a) || !ordered(b))) return -1;
			int z = cmpv2(a, b); if (z == 2) return -1;
			return R(vb(less ? (strict ? z < 0 : z <= 0) : (strict ? z > 0 : z >= 0)));
		}
		case VT::OP_ADD: case VT::OP_SUBTRACT: {
			bool add = op == VT::OP_ADD;
			if (isnum(A) && isnum(B)) { if (A == VT::INT && B == VT::INT) return R(vi(add ? a.i + b.i : a.i - b.i)); return R(vr(add ? num(a) + num(b) : num(a) - num(b))); }
			if (add && A == VT::STRING && sb) return R(vs(a.s + b.s));
			if (A != B) return 0;
			if (A == VT::QUATERNION) tol = 1e-6; if (isvec(A) || A == VT::QUATERNION || A == VT::COLOR) { V v = a; for (size_t i = 0; i < v.c.size(); i++) v.c[i] = add ? a.c[i] + b.c[i] : a.c[i] - b.c[i]; return R(v); }
			if (add && A == VT::ARRAY) { V v = va(); v.a->v = a.a->v; v.a->v.insert(v.a->v.end(), b.a->v.begin(), b.a->v.end()); return R(v); }
			if (add && ispool(A)) { V v = a; v.c.insert(v.c.end(), b.c.begin(), b.c.end()); v.ss.insert(v.ss.end(), b.ss.begin(), b.ss.end()); return R(v); }
			return 0;
		}
		case VT::OP_MULTIPLY: {
			tol = 1e-6;
			if (isnum(A) && isnum(B)) { if (A == VT::INT && B == VT::INT) return R(vi(a.i * b.i)); return R(vr(num(a) * num(b))); }
			auto scale = [&](const V &v, double k, int kt) { V o = v; for (double &x : o.c) x *= k; if (isint(v.t) && kt == VT::REAL && std::trunc(k) != k) return -1; return R(o); };
			if (isnum(A) && B == VT::VECTOR2I) { V o = vc(VT::VECTOR2, b.c); for (double &x : o.c) x *= num(a); return R(o); } // a number times a 2-component integer vector is a real vector
			if (isnum(A) && isvec(B)) return scale(b, num(a), A);
			if ((isvec(A) || A == VT::COLOR) && isnum(B)) return scale(a, num(b), B);
			if ((isvec(A) || A == VT::COLOR) && A == B) { V v = a; for (size_t i = 0; i < v.c.size(); i++) v.c[i] *= b.c[i]; return R(v); }
			auto lin = [&](const double *m, const double *o, int n, const V &v) { std::vector<double> w(n); for (int i = 0; i < n; i++) { w[i] = o ? o[i] : 0; for (int j = 0; j < n; j++) w[i] += m[i * n + j] * v.c[j]; } return w; };
			auto vecres = [&](int t, const std::vector<double> &w) -> int { V v = vc(t, w); if (isint(B)) { return R(v), 2; } return R(v); };
			if (A == VT::QUATERNION) {
				if (B == VT::REAL) return scale(a, b.r, B);
				double x = a.c[0], y = a.c[1], z = a.c[2], w = a.c[3];
				if (B == VT::QUATERNION) { double X = b.c[0], Y = b.c[1], Z = b.c[2], W = b.c[3]; return R(vc(VT::QUATERNION, { w * X + x * W + y * Z - z * Y, w * Y + y * W + z * X - x * Z, w * Z + z * W + x * Y - y * X, w * W - x * X - y * Y - z * Z })); }
				if (B == VT::VECTOR3 || B == VT::VECTOR3I) {
					if (std::fabs(x * x + y * y + z * z + w * w - 1) > 1e-6) return -1;
					double ux = 2 * (y * b.c[2] - z * b.c[1]), uy = 2 * (z * b.c[0] - x * b.c[2]), uz = 2 * (x * b.c[1] - y * b.c[0]);
					tol = 1e-5; return vecres(VT::VECTOR3, { b.c[0] + w * ux + y * uz - z * uy, b.c[1] + w * uy + z * ux - x * uz, b.c[2] + w * uz + x * uy - y * ux });
				}
				return 0;
			}
			if (A == VT::BASIS || A == VT::TRANSFORM) {
				const double *o = A == VT::TRANSFORM ? &a.c[9] : nullptr;
				if (B == VT::VECTOR3 || B == VT::VECTOR3I) return vecres(VT::VECTOR3, lin(&a.c[0], o, 3, b));
				if (B != A) return 0;
				std::vector<double> w(9); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { w[i * 3 + j] = 0; for (int k = 0; k < 3; k++) w[i * 3 + j] += a.c[i * 3 + k] * b.c[k * 3 + j]; }
				if (o) { V bo = vc(VT::VECTOR3, { b.c[9], b.c[10], b.c[11] }); auto oo = lin(&a.c[0], o, 3, bo); w.insert(w.end(), oo.begin(), oo.end()); }
				return R(vc(A, w));
			}
			if (A == VT::TRANSFORM2D) {
				auto xf = [&](double X, double Y, bool o) { return std::vector<double>{ a.c[0] * X + a.c[2] * Y + (o ? a.c[4] : 0), a.c[1] * X + a.c[3] * Y + (o ? a.c[5] : 0) }; };
				if (B == VT::VECTOR2 || B == VT::VECTOR2I) return vecres(VT::VECTOR2, xf(b.c[0], b.c[1], true));
				if (B != A) return 0;
				std::vector<double> w; for (int k = 0; k < 3; k++) { auto p = xf(b.c[2 * k], b.c[2 * k + 1], k == 2); w.insert(w.end(), p.begin(), p.end()); } return R(vc(A, w));
			}
			if (A == VT::PROJECTION) {
				auto xf = [&](const double *p) { std::vector<double> w(4, 0); for (int k = 0; k < 4; k++) for (int i = 0; i < 4; i++) w[i] += a.c[k * 4 + i] * p[k]; return w; };
				if (B == VT::VECTOR4) return R(vc(B, xf(&b.c[0])));
				if (B == VT::VECTOR3) { double p[4] = { b.c[0], b.c[1], b.c[2], 1 }; auto w = xf(p); if (std::fabs(w[3]) < 0.2) return -1; tol = 1e-5; return R(vc(B, { w[0] / w[3], w[1] / w[3], w[2] / w[3] })); }
				if (B == VT::PLANE) return -1;
				if (B == A) { std::vector<double> w; for (int k = 0; k < 4; k++) { auto p = xf(&b.c[k * 4]); w.insert(w.end(), p.begin(), p.end()); } return R(vc(A, w)); }
				return 0;
			}
			return 0;
		}
		case VT::OP_DIVIDE: {
			tol = 1e-6;
			if (isnum(A) && isnum(B)) { if (num(b) == 0) return 0; if (A == VT::INT && B == VT::INT) return R(vi(a.i / b.i)); return R(vr(num(a) / num(b))); }
			if (A == VT::QUATERNION) { if (B != VT::REAL || b.r == 0) return 0; V v = a; for (double &x : v.c) x /= b.r; return R(v); }
			if (!(isvec(A) || A == VT::COLOR)) return 0;
			if (isnum(B)) { if (num(b) == 0 || (isint(A) && B == VT::REAL && std::trunc(b.r) != b.r)) return -1; V v = a; for (double &x : v.c) { x /= num(b); if (isint(A)) x = std::trunc(x); } return R(v); }
			if (A == B) { V v = a; for (size_t i = 0; i < v.c.size(); i++) { if (b.c[i] == 0) return -1; v.c[i] /= b.c[i]; if (isint(A)) v.c[i] = std::trunc(v.c[i]); } return R(v); }
			return 0;
		}
		case VT::OP_NEGATE: case VT::OP_POSITIVE: {
			bool neg = op == VT::OP_NEGATE;
			if (isnum(A)) { V v = a; if (neg) { v.i = -v.i; v.r = -v.r; } return R(v); }
			if (A == VT::COLOR) { if (!neg) return 0; V v = a; for (double &x : v.c) x = 1 - x; return R(v); }
			if (isvec(A) || A == VT::PLANE || A == VT::QUATERNION) { V v = a; if (neg) for (double &x : v.c) x = -x; return R(v); }
			return 0;
		}
		case VT::OP_MODULE: if (A == VT::INT) { if (B != VT::INT || b.i == 0) return 0; return R(vi(a.i % b.i)); } return A == VT::STRING ? -1 : 0;
		case VT::OP_STRING_CONCAT: { auto tx = [](const V &v, bool &ok) -> US { if (v.t == VT::STRING || v.t == VT::STRING_NAME) return v.s; if (v.t == VT::INT) { std::string w = std::to_string(v.i); return US(w.begin(), w.end()); } if (v.t == VT::BOOL) return v.i ? U"True" : U"False"; if (v.t == VT::NIL) return U"Null"; ok = false; return US(); }; bool ok = true; US s = tx(a, ok) + tx(b, ok); return ok ? R(vs(s)) : -1; }
		case VT::OP_SHIFT_LEFT: case VT::OP_SHIFT_RIGHT: if (A != VT::INT || B != VT::INT || b.i < 0 || b.i >= 64) return 0; if (op == VT::OP_SHIFT_LEFT) { if (a.i < 0 || (b.i && (a.i >> (63 - b.i)))) return -1; return R(vi(a.i << b.i)); } return R(vi(a.i >> b.i));
		case VT::OP_BIT_AND: return A == VT::INT && B == VT::INT ? R(vi(a.i & b.i)) : 0;
		case VT::OP_BIT_OR: return A == VT::INT && B == VT::INT ? R(vi(a.i | b.i)) : 0;
		case VT::OP_BIT_XOR: return A == VT::INT && B == VT::INT ? R(vi(a.i ^ b.i)) : 0;
		case VT::OP_BIT_NEGATE: return A == VT::INT ? R(vi(~a.i)) : 0;
		case VT::OP_AND: return R(vb(!zerop(a) && !zerop(b)));
		case VT::OP_OR: return R(vb(!zerop(a) || !zerop(b)));
		case VT::OP_XOR: return R(vb(!zerop(a) != !zerop(b)));
		case VT::OP_NOT: return R(vb(zerop(a)));
	}
	return -1;
}
static const char *ON[] = { "eq", "ne", "lt", "le", "gt", "ge", "add", "sub", "mul", "div", "neg", "pos", "mod", "cat", "shl", "shr", "and", "or", "xor", "inv", "land", "lor", "lxor", "lnot", "in" };
} // namespace r06

UNIT("R06", "value.operators", 200000, 6000000) {
	Rng &r = c.rng;
	std::vector<Object *> objs; for (int i = 0; i < 2; i++) objs.push_back(memnew(R06Obj)); g_objs = &objs;
	{
		int op = r.range(0, VT::OP_MAX - 1);
		int ta = r.chance(0.02) ? VT::OBJECT : anytype(r), tb = r.chance(0.45) ? ta : r.chance(0.02) ? VT::OBJECT : r.chance(0.4) ? (int)r.pick(std::vector<int>{ VT::INT, VT::REAL, VT::VECTOR2, VT::VECTOR3, VT::VECTOR3I, VT::VECTOR4, VT::NIL, VT::STRING_NAME, VT::STRING }) : anytype(r);
		auto g = [&](int t) {
			V v = gen(r, t);
			if (t == VT::INT) v.i = r.chance(0.2) ? 0 : r.chance(0.1) ? (int64_t)r.range(-1000000, 1000000) : r.range(-20, 20);
			if (t == VT::REAL) v.r = q(r);
			if (t == VT::QUATERNION && r.chance(0.6)) { static const double u[6][4] = { { 0.5, 0.5, 0.5, 0.5 }, { 0.5, -0.5, 0.5, -0.5 }, { 0, 0, 0, 1 }, { 1, 0, 0, 0 }, { (double)0.6f, 0, 0, (double)0.8f }, { 0, (double)0.8f, -(double)0.6f, 0 } }; int k = r.range(0, 5); v.c.assign(u[k], u[k] + 4); for (double &x : v.c) x = (double)(float)x; }
			return v;
		};
		V a = g(ta), b = g(tb); bool same = false;
		if (ta == tb && r.chance(0.3)) { b = a; same = true; }
		else if (ta == tb && r.chance(0.4)) { // close to a: one component or element differs, or one is a prefix of the other
			if (!a.c.empty()) { b = a; int k = r.range(0, (int)a.c.size() - 1); b.c[k] += r.chance(0.5) ? 1 : -1; if (ta == VT::POOL_BYTE_ARRAY) b.c[k] = (int)(uint8_t)(int)b.c[k]; if (ispool(ta) && r.chance(0.4)) b.c.resize(r.range(0, psize(a)) * stride(ta)); }
			else if (ta == VT::ARRAY && !a.a->v.empty()) { b = va(); b.a->v = a.a->v; b.a->v[r.range(0, (int)b.a->v.size() - 1)] = gen(r, r.chance(0.5) ? VT::INT : anytype(r, false)); }
			else if (ta == VT::POOL_STRING_ARRAY && !a.ss.empty()) { b = a; b.ss[r.range(0, (int)b.ss.size() - 1)] = gs(r); }
			else if (ta == VT::STRING) { b = a; b.s += gs(r, 2); }
		}
		if ((ta == VT::ARRAY || tb == VT::ARRAY) && op >= VT::OP_LESS && op <= VT::OP_GREATER_EQUAL && r.chance(0.8)) { // arrays of small ordered values
			auto oa = [&]() { V v = va(); int n = r.range(0, 4); for (int i = 0; i < n; i++) v.a->v.push_back(r.chance(0.8) ? vi(r.range(0, 2)) : r.chance(0.5) ? vs(gs(r, 2)) : vb(r.chance(0.5))); return v; };
			if (ta == VT::ARRAY && !same) a = oa(); if (tb == VT::ARRAY) { b = same ? a : oa(); } if (ta == VT::ARRAY && same) b = a;
		}
		c.label(strf("%s.%s.%s", ON[op], TN[ta], TN[tb]));
		if (op == VT::OP_SHIFT_LEFT || op == VT::OP_SHIFT_RIGHT) { if (tb == VT::INT && !same && r.chance(0.8)) b.i = r.range(-1, 65); }
		if (ta == VT::QUATERNION) for (double &x : a.c) x = (float)x; if (tb == VT::QUATERNION) for (double &x : b.c) x = (float)x;
		V want; double tol; int sup = opm(op, a, b, want, tol);
		Variant x = make(a), y = same ? x : make(b), res; bool valid = !sup;
		int zero_int_div = (op == VT::OP_DIVIDE) && sup == -1 && isint(ta); // integer vectors have no quotient by zero
		bool crash_dom = zero_int_div || (op == VT::OP_SHIFT_LEFT && sup == -1);
		if (!(crash_dom)) {
			Variant::evaluate((VT::Operator)op, x, y, res, valid);
			if (sup == 0) c.check("unsupported_reported", !valid, ON[op] + std::string(" of ") + show(a) + " and " + show(b) + " gave " + show(rd(res)));
			else if (sup > 0) {
				if (c.check("supported", valid, ON[op] + std::string(" of ") + show(a) + " and " + show(b) + " was refused")) {
					V got = rd(res); bool ok;
					if (sup == 2) ok = got.c.size() == want.c.size() && [&] { for (size_t i = 0; i < got.c.size(); i++) if (std::fabs(got.c[i] - want.c[i]) > tol * (1 + std::fabs(want.c[i])) && !(isint(got.t) && std::fabs(want.c[i] - got.c[i]) < 2)) return false; return true; }();
					else ok = eqv(got, want, tol) || (got.t == want.t && ta == VT::DICTIONARY && false);
					c.check("value", ok, ON[op] + std::string(" of ") + show(a) + " and " + show(b) + " gave " + show(got) + " want " + show(want));
				}
				// the result may replace an operand
				if (r.chance(0.2)) { bool v2; Variant xa = make(a), yb = same ? xa : make(b); if (r.chance(0.5)) { Variant::evaluate((VT::Operator)op, xa, yb, xa, v2); c.check("result_over_left", !v2 || sup == 2 || ta == VT::DICTIONARY || eqv(rd(xa), want, tol), ON[op] + std::string(" of ") + show(a) + " and " + show(b)); } else { Variant::evaluate((VT::Operator)op, xa, yb, yb, v2); c.check("result_over_right", !v2 || sup == 2 || ta == VT::DICTIONARY || eqv(rd(yb), want, tol), ON[op] + std::string(" of ") + show(a) + " and " + show(b)); } }
			}
			is(c, "left_unchanged", x, a); is(c, "right_unchanged", y, b);
			// the comparison operators of the class
			if (op == VT::OP_EQUAL) { bool e = ta == tb && (ta == VT::DICTIONARY ? same : eqop(a, b)); c.check("equals", (x == y) == e && (x != y) == !e, show(a) + " == " + show(b)); }
			if (op == VT::OP_LESS && ta != tb) c.check("less_by_type", (x < y) == (ta < tb), show(a) + " < " + show(b));
		}
		c.count(sup > 0 ? "supported" : sup == 0 ? "unsupported" : "unjudged");
		c.obs(hsh(hsh(hv(a), hv(b)), op), sup > 0);
	}
	for (Object *o : objs) memdelete(o);
	g_objs = nullptr;
}

UNIT("R06", "value.compare_hash", 80000, 2000000) {
	Rng &r = c.rng;
	int t = anytype(r); V a = gen(r, t); c.label(TN[t]);
	Variant x = make(a), y = make(a);
	if (r.chance(0.2)) for (double &z : a.c) { if (!isint(t) && t != VT::POOL_BYTE_ARRAY && r.chance(0.5)) z = -0.0; }
	std::function<bool(const V &)> hasdict = [&](const V &v) -> bool { if (v.t == VT::DICTIONARY) return true; if (v.t == VT::ARRAY) for (auto &e : v.a->v) if (hasdict(e)) return true; return false; };
	bool hd = hasdict(a);
	c.check("hash_deterministic", x.hash() == x.hash() && x.recursive_hash(0) == x.hash(), show(a));
	c.check("equal_content_equal_hash", x.hash() == y.hash(), show(a));
	c.check("deep_equal", x.deep_equal(y) && y.deep_equal(x) && x.deep_equal(x), show(a));
	if (!hd) { c.check("equal", x == y && !(x != y), show(a)); c.check("hash_compare", x.hash_compare(y), show(a)); }
	c.check("self_hash_compare", x.hash_compare(x), show(a));
	// a different value of the same or another type
	V b = r.chance(0.5) ? gen(r, t) : gen(r, anytype(r));
	if (r.chance(0.4) && !a.c.empty()) { b = a; int k = r.range(0, (int)a.c.size() - 1); b.c[k] += 1; if (t == VT::POOL_BYTE_ARRAY) b.c[k] = (int)(uint8_t)(int)b.c[k]; }
	if (ispool(t) && !a.c.empty() && r.chance(0.2)) { b = a; b.c.resize(a.c.size() - stride(t)); }
	if (t == VT::ARRAY && a.a->v.size() && r.chance(0.5)) { b = va(); b.a->v = a.a->v; if (r.chance(0.3)) b.a->v.pop_back(); else b.a->v[r.range(0, (int)b.a->v.size() - 1)] = gen(r, anytype(r, false)); }
	if (t == VT::DICTIONARY && a.d->v.size() && r.chance(0.5)) { b = vd(); b.d->v = a.d->v; if (r.chance(0.3)) b.d->v.pop_back(); else b.d->v[r.range(0, (int)b.d->v.size() - 1)].second = gen(r, anytype(r, false)); }
	Variant z = make(b); bool e = eqv(make(a).get_type() == t ? a : a, b);
	x = make(a);
	c.check("deep_equal_iff_same", x.deep_equal(z) == e, show(a) + " vs " + show(b));
	if (!hd && !hasdict(b)) { c.check("equal_iff_same", (x == z) == e, show(a) + " vs " + show(b)); c.check("hash_compare_iff_same", x.hash_compare(z) == e && z.hash_compare(x) == e, show(a) + " vs " + show(b)); }
	if (x.hash_compare(z)) c.check("equal_keys_equal_hash", x.hash() == z.hash(), show(a) + " vs " + show(b));
	if (e) c.count("equal_pairs"); else { c.count("different_pairs"); if (x.hash() != z.hash()) c.count("different_hashes"); }
	// ordering is strict and transitive over mixed values
	if (r.chance(0.4)) {
		std::vector<V> vs_; for (int i = 0; i < 3; i++) { V v; if (r.chance(0.4)) { v = va(); int n = r.range(0, 2); for (int j = 0; j < n; j++) v.a->v.push_back(vi(r.range(0, 1))); } else { int u = r.pick(std::vector<int>{ VT::INT, VT::STRING, VT::VECTOR2, VT::POOL_INT_ARRAY, VT::POOL_REAL_ARRAY, VT::POOL_VECTOR2_ARRAY, VT::BOOL, VT::POOL_STRING_ARRAY }); if (i && r.chance(0.6)) u = vs_[0].t == VT::ARRAY ? (int)VT::INT : vs_[0].t; v = gen(r, u); if (ispool(u)) for (double &w : v.c) w = r.range(0, 1); if (u == VT::INT) v.i &= 1; } vs_.push_back(v); }
		Variant p = make(vs_[0]), qv = make(vs_[1]), s = make(vs_[2]); std::string w = show(vs_[0]) + " , " + show(vs_[1]) + " , " + show(vs_[2]);
		c.check("order_irreflexive", !(p < p), w); c.check("order_asymmetric", !((p < qv) && (qv < p)), w); c.check("order_transitive", !((p < qv) && (qv < s)) || (p < s), w);
		c.check("order_total", (p < qv) || (qv < p) || vs_[0].t != vs_[1].t || eqop(vs_[0], vs_[1]), w);
		c.count("orderings");
	}
	c.obs(hsh(hv(a), hv(b)), true);
}

UNIT("R06", "value.blend", 40000, 800000) {
	Rng &r = c.rng;
	static const int ts[] = { VT::NIL, VT::BOOL, VT::INT, VT::REAL, VT::STRING, VT::RECT2, VT::RECT2I, VT::VECTOR2, VT::VECTOR2I, VT::VECTOR3, VT::VECTOR3I, VT::VECTOR4, VT::VECTOR4I, VT::PLANE, VT::AABB, VT::COLOR, VT::POOL_INT_ARRAY, VT::POOL_REAL_ARRAY, VT::POOL_VECTOR2_ARRAY, VT::POOL_VECTOR2I_ARRAY, VT::POOL_VECTOR3_ARRAY, VT::POOL_VECTOR3I_ARRAY, VT::POOL_VECTOR4_ARRAY, VT::POOL_VECTOR4I_ARRAY, VT::POOL_COLOR_ARRAY };
	int t = ts[r.range(0, 24)], u = r.chance(0.85) ? t : ts[r.range(0, 24)]; V a = gen(r, t), b = gen(r, u);
	auto fixup = [&](V &v) { if (v.t == VT::INT) v.i = r.range(-40, 40); if (v.t == VT::REAL) v.r = q(r); if (ispool(v.t)) { } };
	fixup(a); fixup(b); if (ispool(t) && t == u && r.chance(0.7)) b.c.resize(a.c.size(), 1); // mostly equal lengths
	double w = r.pick(std::vector<double>{ 0, 0.25, 0.5, 0.75, 1 });
	c.label(TN[t]); Variant x = make(a), y = make(b), d;
	bool comps = t == u && !a.c.empty() && a.c.size() == b.c.size();
	// difference
	if (t == u && t != VT::BOOL) {
		Variant::sub(x, y, d); V want = a; bool judge = true;
		if (t == VT::INT) want = vi(a.i - b.i); else if (t == VT::REAL) want = vr((double)(real_t)(a.r - b.r)); else if (ncomp(t) && t != VT::PLANE) { for (size_t i = 0; i < a.c.size(); i++) { want.c[i] = a.c[i] - b.c[i]; if (t == VT::COLOR) want.c[i] = std::min(1.0, want.c[i]); } }
		if (judge) is(c, "sub", d, want, 1e-6);
	}
	// a + b * w
	if (t == u || (isnum(t) && isnum(u))) {
		Variant::blend(x, y, (float)w, d); V want; bool judge = true, whole = true;
		if (t != u) want = vr((double)(real_t)(num(a) + num(b) * w));
		else if (t == VT::INT) { double e = a.i + b.i * w + 0.5; want = vi((int64_t)e); judge = e >= 0; } else if (t == VT::REAL) want = vr(a.r + b.r * w);
		else if (ncomp(t) && t != VT::PLANE) { want = a; for (size_t i = 0; i < a.c.size(); i++) { double e = b.c[i] * w; if (isint(t) && std::trunc(e) != e) whole = false; want.c[i] = a.c[i] + e; if (t == VT::COLOR) want.c[i] = std::min(1.0, want.c[i]); } judge = whole; if (isint(t) && w != 0 && w != 1) judge = false; }
		else { want = w < 0.5 ? a : b; judge = t != VT::PLANE || true; }
		if (judge) is(c, "blend", d, want, 1e-6);
	}
	// a + (b - a) * w
	{
		Variant::interpolate(x, y, (float)w, d); V want = a; bool judge = true; double tol = 1e-5;
		if (t != u) { if (isnum(t) && isnum(u)) want = vr((double)(real_t)(num(a) + (num(b) - num(a)) * w)); }
		else if (t == VT::INT) want = vi((int64_t)(a.i + (b.i - a.i) * w)); else if (t == VT::REAL) want = vr((double)(real_t)(a.r + (b.r - a.r) * w));
		else if (t == VT::STRING) judge = false;
		else if (t == VT::PLANE) judge = false;
		else if (t == VT::POOL_INT_ARRAY && !comps) judge = a.c.size() != b.c.size();
		else if (t == VT::BOOL || t == VT::NIL) want = a;
		else if (comps) { for (size_t i = 0; i < a.c.size(); i++) { double e = a.c[i] + (b.c[i] - a.c[i]) * w; if (isint(t) && std::trunc(e) != e) judge = false; want.c[i] = e; } }
		if (judge) { is(c, "interpolate", d, want, tol); Variant xa = x; Variant::interpolate(xa, y, (float)w, xa); is(c, "interpolate_in_place", xa, want, tol); c.count("interpolations"); }
	}
	is(c, "left_unchanged", x, a); is(c, "right_unchanged", y, b);
	c.obs(hsh(hsh(hv(a), hv(b)), (uint64_t)(w * 8)), comps);
}

UNIT("R06", "value.iterate", 30000, 600000) {
	Rng &r = c.rng;
	std::vector<int> ts = { VT::INT, VT::REAL, VT::VECTOR2, VT::VECTOR2I, VT::VECTOR3, VT::VECTOR3I, VT::STRING, VT::DICTIONARY, VT::ARRAY }; for (int i = VT::POOL_BYTE_ARRAY; i <= VT::POOL_COLOR_ARRAY; i++) ts.push_back(i);
	int t = r.chance(0.08) ? r.pick(std::vector<int>{ VT::NIL, VT::BOOL, VT::RECT2, VT::COLOR, VT::BASIS }) : r.pick(ts);
	V m = gen(r, t); if (t == VT::INT) m.i = r.range(-3, 12); if (t == VT::REAL) m.r = r.range(-4, 40) * 0.25;
	c.label(TN[t]); Variant x = make(m); std::vector<V> want; bool sup = true;
	if (t == VT::INT) for (int64_t i = 0; i < m.i; i++) want.push_back(vi(i));
	else if (t == VT::REAL) { for (int i = 0; i < m.r; i++) want.push_back(vi(i)); }
	else if (t == VT::VECTOR2 || t == VT::VECTOR2I) for (int64_t i = (int64_t)m.c[0]; i < (int64_t)m.c[1]; i++) want.push_back(vi(i));
	else if (t == VT::VECTOR3 || t == VT::VECTOR3I) { int64_t f = (int64_t)m.c[0], e = (int64_t)m.c[1], s = (int64_t)m.c[2]; if (s > 0) for (int64_t i = f; i < e; i += s) want.push_back(vi(i)); if (s < 0) for (int64_t i = f; i > e; i += s) want.push_back(vi(i)); }
	else if (t == VT::STRING) for (char32_t ch : m.s) want.push_back(vs(US(1, ch)));
	else if (t == VT::DICTIONARY) for (auto &e : m.d->v) want.push_back(e.first);
	else if (t == VT::ARRAY) want = m.a->v;
	else if (ispool(t)) for (int i = 0; i < psize(m); i++) want.push_back(pelem(m, i));
	else sup = false;
	Variant it; bool valid = !sup; bool more = x.iter_init(it, valid);
	if (!c.check("iterable", valid == sup, show(m))) return;
	if (sup) {
		size_t k = 0; std::string why;
		while (more && k <= want.size() + 2) {
			bool v2 = false; Variant e = x.iter_get(it, v2); if (!v2) { why = "element refused"; break; }
			V g = rd(e); bool ok = k < want.size() && (eqv(g, want[k]) || (isnum(g.t) && isnum(want[k].t) && num(g) == num(want[k])));
			if (!ok) { why = strf("step %zu gave ", k) + show(g); break; }
			k++; more = x.iter_next(it, v2); if (!v2) { why = "step refused"; break; }
		}
		c.check("sequence", why.empty() && k == want.size(), why + strf(" (%zu of %zu) over ", k, want.size()) + show(m)); c.count("steps", k);
	}
	is(c, "unchanged", x, m);
	c.obs(hv(m), !want.empty());
}

// A history of edits on arrays reached through several handles.
UNIT("R06", "array.history", 20000, 400000) {
	Rng &r = c.rng;
	std::vector<V> mh(3); std::vector<Array> ah(3);
	for (int i = 0; i < 3; i++) mh[i] = va();
	std::function<bool(const V &, Arr *)> reach = [&](const V &v, Arr *p) -> bool { if (v.t != VT::ARRAY) return false; if (v.a.get() == p) return true; for (auto &e : v.a->v) if (reach(e, p)) return true; return false; };
	auto same = [&](const char *kind) -> bool { bool ok = true; for (int i = 0; i < 3; i++) ok &= is(c, kind, ah[i], mh[i]); for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) ok &= c.check("handles", (ah[i].id() == ah[j].id()) == (mh[i].a == mh[j].a) && (ah[i] == ah[j]) == (mh[i].a == mh[j].a), "identity of two handles"); return ok; };
	int S = r.range(3, 40); uint64_t h = 1; int edits = 0;
	for (int st = 0; st < S; st++) {
		int k = r.range(0, 2), j = r.range(0, 2); V &m = mh[k]; Array &a = ah[k]; int n = (int)m.a->v.size();
		// a value: a fresh one, one of the array's own elements (by reference), or another handle
		V v; const Variant *src = nullptr; Variant hold; int ei = -1;
		double z = r.f(0, 1);
		if (n && z < 0.25) { ei = r.range(0, n - 1); v = m.a->v[ei]; src = &((const Array &)a).get(ei); }
		else if (z < 0.33 && mh[j].a != m.a && !reach(mh[j], m.a.get())) { v = mh[j]; hold = ah[j]; src = &hold; }
		else { v = r.chance(0.6) ? vi(r.range(0, 4)) : gen(r, anytype(r, false)); hold = make(v); src = &hold; }
		int op = r.range(0, 26); const char *on = "";
		errors();
		switch (op) {
			case 0: case 1: on = "push_back"; a.push_back(*src); m.a->v.push_back(v); break;
			case 2: on = "push_front"; a.push_front(*src); m.a->v.insert(m.a->v.begin(), v); break;
			case 3: { on = "insert"; int p = r.range(0, n); a.insert(p, *src); m.a->v.insert(m.a->v.begin() + p, v); break; }
			case 4: if (n) { on = "set"; int p = r.range(0, n - 1); if (r.chance(0.5)) a.set(p, *src); else a[p] = *src; V cp = v; m.a->v[p] = cp; } break;
			case 5: if (n) { on = "remove"; int p = r.range(0, n - 1); a.remove(p); m.a->v.erase(m.a->v.begin() + p); } break;
			case 6: { on = "erase"; a.erase(*src); for (int i = 0; i < n; i++) if (eqop(m.a->v[i], v)) { m.a->v.erase(m.a->v.begin() + i); break; } break; }
			case 7: { on = "resize"; int p = r.range(0, 8); a.resize(p); m.a->v.resize(p); break; }
			case 8: if (n < 12) { on = "fill"; a.fill(*src); V cp = v; for (auto &e : m.a->v) e = cp; } break;
			case 9: { on = "pop_back"; Variant g = a.pop_back(); V w; if (n) { w = m.a->v.back(); m.a->v.pop_back(); } is(c, "pop_back", g, w); break; }
			case 10: { on = "pop_front"; Variant g = a.pop_front(); V w; if (n) { w = m.a->v.front(); m.a->v.erase(m.a->v.begin()); } is(c, "pop_front", g, w); break; }
			case 11: { on = "pop_at"; int p = r.range(-n - 2, n + 1); Variant g = a.pop_at(p); V w; int pp = p < 0 ? p + n : p; if (pp >= 0 && pp < n) { w = m.a->v[pp]; m.a->v.erase(m.a->v.begin() + pp); } is(c, "pop_at", g, w); break; }
			case 12: on = "invert"; a.invert(); std::reverse(m.a->v.begin(), m.a->v.end()); break;
			case 13: if (n + (int)mh[j].a->v.size() < 40 && !reach(vnil(), nullptr)) { bool cyc = false; for (auto &e : mh[j].a->v) if (reach(e, m.a.get())) cyc = true; if (!cyc) { on = "append_array"; std::vector<V> w = mh[j].a->v; a.append_array(ah[j]); m.a->v.insert(m.a->v.end(), w.begin(), w.end()); } } break;
			case 14: on = "assign_handle"; ah[k] = ah[j]; mh[k] = mh[j]; break;
			case 15: { on = "duplicate"; bool deep = r.chance(0.5); std::function<V(const V &)> dup = [&](const V &s) -> V { if (s.t == VT::ARRAY) { V o = va(); for (auto &e : s.a->v) o.a->v.push_back(deep ? dup(e) : e); return o; } if (s.t == VT::DICTIONARY && deep) { V o = vd(); for (auto &e : s.d->v) o.d->v.push_back({ e.first, dup(e.second) }); return o; } return s; };
				V w = dup(mh[j]); ah[k] = ah[j].duplicate(deep); mh[k] = w; c.count("duplicates"); break; }
			case 16: { on = "slice"; if (mh[j].a->v.empty() && r.chance(0.7)) break; int N = (int)mh[j].a->v.size(), b = r.range(-N - 2, N + 2), e = r.range(-N - 2, N + 2), s = r.pick(std::vector<int>{ 1, 1, 1, 2, 3, -1, -1, -2 }); bool deep = r.chance(0.3);
				V w = va(); bool none = N == 0 || (s > 0 ? (b >= N || e < -N) : (b < -N || e >= N));
				if (!none) { auto cl = [&](int i) { i = std::max(-N, std::min(N - 1, i)); return i < 0 ? i + N : i; }; int bb = cl(b), ee = cl(e); if (s > 0) for (int i = bb; i <= ee; i += s) w.a->v.push_back(mh[j].a->v[i]); else for (int i = bb; i >= ee; i += s) w.a->v.push_back(mh[j].a->v[i]); }
				Array g = ah[j].slice(b, e, s, deep); if (!is(c, "slice", g, w)) { c.sample(strf("slice(%d,%d,%d) of %d", b, e, s, N)); return; }
				if (!deep) { ah[k] = g; mh[k] = w; } break; }
			case 17: on = "clear"; if (r.chance(0.3)) { a.clear(); m.a->v.clear(); } break;
			case 18: { on = "handle_from_element"; if (ei >= 0 && v.t == VT::ARRAY) { V cp = v; a = Array(*src); mh[k] = cp; c.count("replaced_by_own_element"); } break; }
			case 19: { on = "variant_from_element"; if (n) { int p = r.range(0, n - 1); V cp = m.a->v[p]; Variant x = a; Array keep; if (r.chance(0.6)) { a = Array(); mh[k] = va(); } x = ((const Array &)x.operator Array()).get(p); is(c, "variant_from_element", x, cp);
				Variant y = make(cp.t == VT::ARRAY ? cp : m.t == VT::ARRAY ? V(m) : cp); c.count("own_element_assignments"); } break; }
			case 20: { on = "find"; int f = r.chance(0.3) ? r.range(0, std::max(0, n - 1)) : 0; int w = -1; for (int i = f; i < n; i++) if (eqop(m.a->v[i], v)) { w = i; break; } c.check("find", a.find(*src, f) == w, strf("find from %d: want %d got %d in ", f, w, a.find(*src, f)) + show(m));
				int wr = -1; for (int i = n - 1; i >= 0; i--) if (eqop(m.a->v[i], v)) { wr = i; break; } c.check("rfind", a.rfind(*src) == wr && a.find_last(*src) == wr, "rfind in " + show(m));
				int cnt = 0; for (auto &e : m.a->v) cnt += eqop(e, v); c.check("count", a.count(*src) == cnt && a.has(*src) == (cnt > 0), "count in " + show(m));
				if (n) { int p = r.range(-n, n - 1), pp = p < 0 ? p + n : p, w2 = -1; for (int i = pp; i >= 0; i--) if (eqop(m.a->v[i], v)) { w2 = i; break; } c.check("rfind_from", a.rfind(*src, p) == w2, strf("rfind from %d in ", p) + show(m)); is(c, "front", a.front(), m.a->v.front()); is(c, "back", a.back(), m.a->v.back()); }
				break; }
			case 21: { on = "compare"; bool jd = false; std::function<bool(const V &)> hasd = [&](const V &s) -> bool { if (s.t == VT::DICTIONARY) return true; if (s.t == VT::ARRAY) for (auto &e : s.a->v) if (hasd(e)) return true; return false; }; jd = hasd(m) || hasd(mh[j]);
				c.check("deep_equal", a.deep_equal(ah[j]) == eqv(m, mh[j]), show(m) + " vs " + show(mh[j])); if (eqv(m, mh[j])) c.check("hash", a.hash() == ah[j].hash(), show(m)); if (!jd) c.check("variant_equal", (Variant(a) == Variant(ah[j])) == eqv(m, mh[j]), show(m) + " vs " + show(mh[j]));
				if (ordered(m) && ordered(mh[j])) { int z2 = cmpv2(m, mh[j]); if (z2 != 2) { c.check("array_less", (a < ah[j]) == (z2 < 0) && (a > ah[j]) == (z2 > 0) && (a <= ah[j]) == (z2 <= 0) && (a >= ah[j]) == (z2 >= 0), show(m) + " vs " + show(mh[j])); c.count("orderings"); } } break; }
			case 22: { on = "bad_position"; Array before = a; int p = r.chance(0.5) ? n + r.range(1, 3) : -r.range(1, 3); if (r.chance(0.5)) a.insert(p, *src); else a.remove(r.chance(0.5) ? n + r.range(0, 2) : -r.range(1, 3)); break; }
			case 23: { bool twins = false; for (int x = 0; x < n; x++) for (int y = 0; y < x; y++) twins |= (m.a->v[x].t == VT::ARRAY || m.a->v[x].t == VT::DICTIONARY) && eqv(m.a->v[x], m.a->v[y]); if (twins) break; on = "shuffle"; V w = m; Math::seed(r.next()); a.shuffle(); V g = rd(a); bool ok = g.a->v.size() == w.a->v.size(); std::vector<bool> used(w.a->v.size()); std::vector<V> nm; for (auto &e : g.a->v) { bool f = false; for (size_t i = 0; i < used.size(); i++) if (!used[i] && eqv(w.a->v[i], e)) { used[i] = f = true; nm.push_back(w.a->v[i]); break; } ok &= f; } if (!c.check("shuffle", ok, "shuffling " + show(w) + " gave " + show(g))) return; m.a->v = nm; break; }
			case 24: { on = "nested_edit"; if (n) { int p = r.range(0, n - 1); if (m.a->v[p].t == VT::ARRAY) { Array inner = a[p]; V w = vi(r.range(0, 9)); inner.push_back(make(w)); m.a->v[p].a->v.push_back(w); c.count("nested_edits"); } } break; }
			case 25: { on = "copy_handle"; Array b2(a); c.check("copied_handle", b2.id() == a.id() && b2.size() == n && b2.empty() == (n == 0), "a copied handle"); b2 = Array(); break; }
			default: on = "self_assign"; { Array &al = a; a = al; } if (n == 0) { Variant g = Variant(a); a = Array(g); } break;
		}
		if (!*on) continue;
		c.label(on); edits++;
		if (!same("after")) { c.sample(std::string(on) + " with " + show(v)); return; }
		h = hsh(h, hsh(op * 4 + k, hv(mh[k])));
		if (m.a->v.size() > 30) m = va(), ah[k] = Array();
	}
	c.obs(h, edits > 3);
}

UNIT("R06", "array.sort", 20000, 400000) {
	Rng &r = c.rng;
	int kind = r.range(0, 6), n = r.chance(0.1) ? r.range(30, 200) : r.range(0, 16);
	static const char *kn[] = { "int", "number", "text", "vector2", "vector3i", "array", "bool" }; c.label(kn[kind]);
	auto g = [&]() { switch (kind) { case 0: return vi(r.range(-6, 6)); case 1: return r.chance(0.5) ? vi(r.range(-6, 6)) : vr(r.range(-12, 12) * 0.5); case 2: return vs(gs(r, 3)); case 3: { V v = gen(r, VT::VECTOR2); v.c[0] = r.range(-1, 1); return v; } case 4: { V v = gen(r, VT::VECTOR3I); v.c[0] = r.range(-1, 1); v.c[1] = r.range(-1, 1); return v; } case 5: { V v = va(); int k = r.range(0, 3); for (int i = 0; i < k; i++) v.a->v.push_back(vi(r.range(0, 2))); return v; } default: return vb(r.chance(0.5)); } };
	V m = va(); for (int i = 0; i < n; i++) m.a->v.push_back(g());
	Array a = make(m), al = a; V before = m;
	std::function<bool(const V &, const V &)> lt = [](const V &x, const V &y) { return cmpv2(x, y) == -1 || (cmpv2(x, y) < 0 && cmpv2(x, y) != 2); };
	V mn, mx; for (int i = 0; i < n; i++) { if (!i || lt(m.a->v[i], mn)) mn = m.a->v[i]; if (!i || lt(mx, m.a->v[i])) mx = m.a->v[i]; }
	auto numeq = [&](const V &x, const V &y) { return eqv(x, y) || (isnum(x.t) && isnum(y.t) && num(x) == num(y)); };
	c.check("min", numeq(rd(a.min()), mn), "min of " + show(m) + " gave " + show(rd(a.min()))); c.check("max", numeq(rd(a.max()), mx), "max of " + show(m) + " gave " + show(rd(a.max())));
	int mode = r.range(0, 2); R06Obj *cmp = memnew(R06Obj); cmp->rev = mode == 2;
	if (mode == 0) a.sort(); else if (kind != 1) a.sort_custom(cmp); else { mode = 0; a.sort(); }
	V got = rd(a); bool ok = got.a->v.size() == m.a->v.size();
	for (size_t i = 1; ok && i < got.a->v.size(); i++) { bool bad = mode == 2 ? lt(got.a->v[i - 1], got.a->v[i]) : lt(got.a->v[i], got.a->v[i - 1]); if (bad) ok = false; }
	c.check("sorted", ok, show(got)); std::vector<bool> used(n); bool perm = true; for (auto &e : got.a->v) { bool f = false; for (int i = 0; i < n; i++) if (!used[i] && eqv(m.a->v[i], e)) { used[i] = f = true; break; } perm &= f; } c.check("permutation", perm, show(got) + " from " + show(m)); is(c, "shared", al, got);
	if (ok && kind != 6) for (int z = 0; z < 3; z++) {
		V v = r.chance(0.6) && n ? m.a->v[r.range(0, n - 1)] : g(); bool bef = r.chance(0.5); int lo = 0, hi = 0;
		for (auto &e : got.a->v) { bool l1 = mode == 2 ? lt(v, e) : lt(e, v), l2 = mode == 2 ? lt(e, v) : lt(v, e); lo += l1; hi += !l2; }
		int f = mode == 0 ? a.bsearch(make(v), bef) : a.bsearch_custom(make(v), cmp, "lt", bef);
		c.check("bsearch", f == (bef ? lo : hi), strf("position %d want %d of ", f, bef ? lo : hi) + show(v) + " in " + show(got));
	}
	memdelete(cmp);
	// values that cannot be ordered have no least element
	if (r.chance(0.2)) { Array b; b.push_back(1); b.push_back(String("a")); c.check("min_unordered", b.min().get_type() == VT::NIL && b.max().get_type() == VT::NIL, "least of a number and a text"); }
	c.obs(hv(m), n > 1);
}

static bool reaches(const V &v, const void *t) {
	if (v.t == VT::ARRAY) { if (v.a.get() == t) return true; for (auto &e : v.a->v) if (reaches(e, t)) return true; }
	if (v.t == VT::DICTIONARY) { if (v.d.get() == t) return true; for (auto &e : v.d->v) if (reaches(e.second, t) || reaches(e.first, t)) return true; }
	return false;
}

UNIT("R06", "dictionary.history", 20000, 400000) {
	Rng &r = c.rng;
	std::vector<V> mh(2); std::vector<Dictionary> dh(2); for (auto &v : mh) v = vd();
	int S = r.range(3, 50); uint64_t h = 1; int edits = 0; bool many = r.chance(0.1); if (many) S = r.range(50, 200);
	auto key = [&]() { return many && r.chance(0.7) ? vi(r.range(0, 120)) : genkey(r); };
	for (int st = 0; st < S; st++) {
		int k = r.range(0, 1), j = r.range(0, 1); V &m = mh[k]; Dictionary &d = dh[k]; int n = (int)m.d->v.size();
		V ky = n && r.chance(0.5) ? m.d->v[r.range(0, n - 1)].first : key(); int f = findkey(*m.d, ky); Variant kx = make(ky);
		V v = gen(r, r.chance(0.6) ? (int)VT::INT : anytype(r)); Variant vx = make(v);
		int op = r.range(0, 17); const char *on = "";
		switch (op) {
			case 0: case 1: case 2: on = "set"; d[kx] = vx; if (f >= 0) m.d->v[f].second = v; else m.d->v.push_back({ ky, v }); break;
			case 3: case 4: { on = "erase"; bool g = d.erase(kx); c.check("erase", g == (f >= 0), "erase reported " + std::string(g ? "found" : "missing")); if (f >= 0) m.d->v.erase(m.d->v.begin() + f); break; }
			case 5: { on = "lookup"; c.check("has", d.has(kx) == (f >= 0), show(ky)); const Dictionary &cd = d; const Variant *p = cd.getptr(kx); c.check("getptr", (p != nullptr) == (f >= 0), show(ky)); V def = vi(77); if (f >= 0) { is(c, "getptr_value", *p, m.d->v[f].second); is(c, "get", d.get(kx, make(def)), m.d->v[f].second); is(c, "get_valid", d.get_valid(kx), m.d->v[f].second); is(c, "const_index", cd[kx], m.d->v[f].second); Variant *q2 = d.getptr(kx); is(c, "getptr_mut", *q2, m.d->v[f].second); } else { is(c, "get_default", d.get(kx, make(def)), def); is(c, "get_valid_missing", d.get_valid(kx), vnil()); c.check("getptr_mut", d.getptr(kx) == nullptr, show(ky)); } break; }
			case 6: { on = "get_or_add"; Variant g = d.get_or_add(kx, vx); if (f >= 0) is(c, "get_or_add", g, m.d->v[f].second); else { is(c, "get_or_add", g, v); m.d->v.push_back({ ky, v }); } break; }
			case 7: { on = "merge"; auto o = mh[j].d->v; if (k != j && reaches(mh[j], m.d.get())) break; bool ow = r.chance(0.5); d.merge(dh[j], ow); for (auto &e : o) { int q2 = findkey(*m.d, e.first); if (q2 < 0) m.d->v.push_back(e); else if (ow) m.d->v[q2].second = e.second; } break; }
			case 8: { on = "keys_values"; V ks = va(), vs2 = va(); for (auto &e : m.d->v) { ks.a->v.push_back(e.first); vs2.a->v.push_back(e.second); } is(c, "keys", d.keys(), ks); is(c, "values", d.values(), vs2); List<Variant> l; d.get_key_list(&l); int i = 0; bool ok = l.size() == n; for (List<Variant>::Element *E = l.front(); E && ok; E = E->next()) ok = eqv(rd(E->get()), m.d->v[i++].first); c.check("key_list", ok, show(m)); c.check("has_all", d.has_all(d.keys()), "has_all of its own keys"); Array extra = d.keys(); V nk = vs(U"missing key"); extra.push_back(make(nk)); c.check("has_all_missing", !d.has_all(extra), "has_all with a missing key"); break; }
			case 9: { on = "next"; const Variant *p = nullptr; std::vector<V> seen; while ((p = d.next(p)) && (int)seen.size() <= n) seen.push_back(rd(*p)); bool ok = (int)seen.size() == n; for (int i = 0; ok && i < n; i++) ok = eqv(seen[i], m.d->v[i].first); c.check("next", ok, show(m)); break; }
			case 10: { on = "at_index"; int i = r.range(0, n + 1); is(c, "key_at", d.get_key_at_index(i), i < n ? m.d->v[i].first : vnil()); is(c, "value_at", d.get_value_at_index(i), i < n ? m.d->v[i].second : vnil()); break; }
			case 11: { on = "find_key"; if (!n) break; V w = m.d->v[r.range(0, n - 1)].second; if (w.t == VT::DICTIONARY || w.t == VT::ARRAY) break; V want; for (auto &e : m.d->v) if (eqop(e.second, w)) { want = e.first; break; } is(c, "find_key", d.find_key(make(w)), want); is(c, "find_key_missing", d.find_key(make(vs(U"no such value"))), vnil()); break; }
			case 12: { on = "duplicate"; bool deep = r.chance(0.5); std::function<V(const V &)> dup = [&](const V &s) -> V { if (s.t == VT::ARRAY && deep) { V o = va(); for (auto &e : s.a->v) o.a->v.push_back(dup(e)); return o; } if (s.t == VT::DICTIONARY) { V o = vd(); for (auto &e : s.d->v) o.d->v.push_back({ e.first, deep ? dup(e.second) : e.second }); return o; } return s; }; V w = dup(mh[j]); dh[k] = dh[j].duplicate(deep); mh[k] = w; break; }
			case 13: on = "assign_handle"; dh[k] = dh[j]; mh[k] = mh[j]; break;
			case 14: { on = "compare"; bool e = eqv(m, mh[j]); bool ord = true; if (!e && m.d->v.size() == mh[j].d->v.size()) { ord = false; for (auto &x : m.d->v) { int q2 = findkey(*mh[j].d, x.first); if (q2 < 0 || !eqv(x.second, mh[j].d->v[q2].second)) ord = true; } } if (ord) c.check("deep_equal", d.deep_equal(dh[j]) == e, show(m) + " vs " + show(mh[j])); if (e) c.check("hash", d.hash() == dh[j].hash(), show(m)); c.check("identity", (d == dh[j]) == (m.d == mh[j].d) && (d != dh[j]) == (m.d != mh[j].d) && (d.id() == dh[j].id()) == (m.d == mh[j].d), "identity of two handles"); break; }
			case 15: if (r.chance(0.3)) { on = "clear"; d.clear(); m.d->v.clear(); } break;
			case 16: { on = "nested_edit"; if (f >= 0 && m.d->v[f].second.t == VT::ARRAY) { Array in = d[kx]; V w = vi(r.range(0, 9)); in.push_back(make(w)); m.d->v[f].second.a->v.push_back(w); c.count("nested_edits"); } else if (f >= 0 && m.d->v[f].second.t == VT::DICTIONARY) { Dictionary in = d[kx]; V w = vi(r.range(0, 9)); in[make(w)] = 5; int q2 = findkey(*m.d->v[f].second.d, w); if (q2 >= 0) m.d->v[f].second.d->v[q2].second = vi(5); else m.d->v[f].second.d->v.push_back({ w, vi(5) }); c.count("nested_edits"); } break; }
			default: { on = "handle_from_element"; if (f >= 0 && m.d->v[f].second.t == VT::DICTIONARY) { const Variant *p = d.getptr(kx); V cp = m.d->v[f].second; d = Dictionary(*p); mh[k] = cp; c.count("replaced_by_own_element"); } else { Dictionary &al = d; d = al; } break; }
		}
		if (!*on) continue;
		c.label(on); edits++;
		bool ok = true; for (int i = 0; i < 2; i++) { ok &= is(c, "after", dh[i], mh[i]); ok &= c.check("size", dh[i].size() == (int)mh[i].d->v.size() && dh[i].empty() == mh[i].d->v.empty(), "size"); }
		if (!ok) { c.sample(std::string(on) + " " + show(ky)); return; }
		h = hsh(h, hsh(op * 2 + k, hs(show(ky))));
	}
	c.obs(h, edits > 3);
}

// A variant replaced by something stored inside the container it holds.
UNIT("R06", "value.from_own_element", 10000, 200000) {
	Rng &r = c.rng;
	V e = gen(r, anytype(r)); int depth = r.range(1, 3);
	V m = e; Variant x; std::vector<int> path; bool arrtop = r.chance(0.6);
	for (int i = 0; i < depth; i++) { bool top = i == depth - 1; if (top ? arrtop : r.chance(0.5)) { V a = va(); int n = r.range(1, 3), p = r.range(0, n - 1); for (int k = 0; k < n; k++) a.a->v.push_back(k == p ? m : gen(r, anytype(r, false))); path.push_back(p); m = a; } else { V d = vd(); d.d->v.push_back({ vs(U"k"), m }); path.push_back(-1); m = d; } }
	x = make(m); c.label(m.t == VT::ARRAY ? "array" : "dictionary");
	int take = r.range(1, depth); V want = m; const Variant *p = &x;
	for (int i = 0; i < take; i++) {
		int s = path[depth - 1 - i];
		if (s < 0) { Dictionary d = *p; p = d.getptr(Variant("k")); want = V(want.d->v[0].second); } else { Array a = *p; p = &((const Array &)a).get(s); want = V(want.a->v[s]); }
	}
	if (r.chance(0.5)) { x = *p; is(c, "assigned", x, want); }
	else if (x.get_type() == VT::ARRAY && want.t == VT::ARRAY) { Array a = x; x = Variant(); a = Array(*p); is(c, "handle", a, want); }
	else { Variant y(*p); x = y; is(c, "assigned", x, want); }
	c.obs(hv(m), true);
}

// printf-like formatting.
UNIT("R06", "array.sprintf", 40000, 800000) {
	Rng &r = c.rng;
	US f, want; Array args; bool err = false; int nd = r.range(0, 5), used = 0; std::string lab;
	for (int i = 0; i < nd && !err; i++) {
		US lit = gs(r, 3); US l2; for (char32_t ch : lit) if (ch != U'%') l2 += ch; f += l2; want += l2;
		if (r.chance(0.1)) { f += U"%%"; want += U"%"; continue; }
		bool left = r.chance(0.2), plus = r.chance(0.2), zero = !left && r.chance(0.2), dynw = r.chance(0.1), hasw = r.chance(0.5);
		int w = hasw ? r.range(1, 12) : 0; char cv = "doxXfsc"[r.range(0, 6)]; int dec = -1; bool dynd = false;
		f += U'%'; if (plus) f += U'+'; if (left) f += U'-'; if (zero) f += U'0';
		if (hasw) { if (dynw) { f += U'*'; args.push_back(w); used++; } else { std::string s = std::to_string(w); f += US(s.begin(), s.end()); } }
		if (cv == 'f' && r.chance(0.6)) { dec = r.range(0, 6); f += U'.'; if (r.chance(0.15)) { dynd = true; f += U'*'; args.push_back(dec); used++; } else f += (char32_t)('0' + dec); }
		f += (char32_t)cv; (void)dynd; lab += cv;
		US body; bool neg = false; used++;
		auto A = [&](const char *s) { std::string z(s); return US(z.begin(), z.end()); };
		if (cv == 'd' || cv == 'o' || cv == 'x' || cv == 'X') {
			int64_t v = r.chance(0.2) ? (int64_t)(r.next() >> 1) * (r.chance(0.5) ? 1 : -1) : r.range(-300, 300); if (r.chance(0.15)) { double fv = r.range(-400, 400) * 0.25; args.push_back(fv); v = (int64_t)fv; } else args.push_back(v);
			neg = v < 0; uint64_t u = neg ? 0 - (uint64_t)v : (uint64_t)v; char b[40]; snprintf(b, sizeof b, cv == 'd' ? "%llu" : cv == 'o' ? "%llo" : cv == 'x' ? "%llx" : "%llX", (unsigned long long)u); body = A(b);
		} else if (cv == 'f') {
			double v = r.chance(0.2) ? (double)r.range(-1000, 1000) : r.range(-4000, 4000) * 0.125 ; int D = dec < 0 ? 6 : dec; if (D < 3) v = std::round(v * 2) / 2; if (D == 0) v = std::round(v); // exactly representable at this precision
			args.push_back(v); neg = v < 0; char b[60]; snprintf(b, sizeof b, "%.*f", D, std::fabs(v)); body = A(b);
		} else if (cv == 's') { V v = gen(r, r.pick(std::vector<int>{ VT::STRING, VT::INT, VT::BOOL, VT::NIL, VT::STRING_NAME })); args.push_back(make(v)); body = v.t == VT::INT ? A(std::to_string(v.i).c_str()) : v.t == VT::BOOL ? (v.i ? U"True" : U"False") : v.t == VT::NIL ? U"Null" : v.s; }
		else { char32_t ch = U'!' + r.range(0, 80); if (r.chance(0.5)) args.push_back((int)ch); else args.push_back(ST(US(1, ch))); body = US(1, ch); }
		bool numeric = cv != 's' && cv != 'c'; US sign = numeric ? (neg ? U"-" : plus ? U"+" : U"") : U"";
		US o; int pad = w - (int)body.size() - (int)sign.size(); if (pad < 0) pad = 0;
		if (left) o = sign + body + US(pad, U' '); else if (zero && numeric) o = sign + US(pad, U'0') + body; else o = US(pad, U' ') + sign + body;
		want += o;
	}
	int bad = r.range(0, 9);
	if (bad == 0) { f += U"%d"; err = true; lab += "_missing"; } // an argument is missing
	else if (bad == 1) { args.push_back(3); err = true; lab += "_extra"; } // one too many
	else if (bad == 2) { f += U"%"; err = true; lab += "_open"; }
	else if (bad == 3) { f += U"%d"; args.push_back(String("x")); err = true; lab += "_type"; }
	else if (bad == 4) { f += U"%q"; args.push_back(1); err = true; lab += "_conv"; }
	c.label("format"); bool e = !err; V before = rd(args); String g = args.sprintf(ST(f), &e);
	if (err) c.check("bad_format_reported", e, u8(f) + " was accepted"); else { c.check("good_format_accepted", !e, u8(f) + " refused: " + u8(UT(g))); c.check("text", UT(g) == want, u8(f) + " of " + show(before) + " gave '" + u8(UT(g)) + "' want '" + u8(want) + "'"); }
	is(c, "arguments_unchanged", args, before);
	bool v2 = err; Variant res; Variant::evaluate(VT::OP_MODULE, Variant(ST(f)), Variant(args), res, v2); c.check("operator", v2 == !err && (err || UT(res) == want), "format by operator " + u8(f));
	c.count(err ? "bad_formats" : "good_formats"); c.obs(hsh(hs(u8(f)), hv(before)), used > 0);
}

// Objects held by variants: non-counted ones may die first, counted ones live as long as a holder does.
UNIT("R06", "value.object", 20000, 400000) {
	Rng &r = c.rng;
	std::vector<Object *> objs; std::vector<bool> alive, counted; std::vector<ObjectID> ids;
	std::vector<Variant> vars(5); std::vector<int> held(5, -2); // -2 not an object
	std::vector<Ref<Reference>> owners; int base = ObjectDB::get_object_count();
	uint64_t h = 1; int dead_reads = 0;
	for (int st = 0, S = r.range(5, 40); st < S; st++) {
		int op = r.range(0, 7), k = r.range(0, 4), j = r.range(0, 4);
		if (op == 0 && objs.size() < 6) { bool ct = r.chance(0.5); Object *o; if (ct) { Ref<Reference> rf; rf.instance(); owners.push_back(rf); o = rf.ptr(); } else { o = memnew(R06Obj); owners.push_back(Ref<Reference>()); } objs.push_back(o); alive.push_back(true); counted.push_back(ct); ids.push_back(o->get_instance_id()); vars[k] = Variant((const Object *)o); held[k] = (int)objs.size() - 1; c.label("create"); }
		else if (op == 1) { vars[k] = vars[j]; held[k] = held[j]; c.label("copy"); }
		else if (op == 2) { vars[k] = r.chance(0.5) ? Variant() : Variant(3); held[k] = -2; c.label("drop"); }
		else if (op == 3 && !objs.empty()) { int i = r.range(0, (int)objs.size() - 1); if (!alive[i]) continue; if (counted[i]) { owners[i].unref(); bool h2 = false; for (int q2 : held) h2 |= q2 == i; if (!h2) alive[i] = false; else { } } else { memdelete(objs[i]); alive[i] = false; } c.label("release"); }
		else if (op == 4) { Array a; a.push_back(vars[k]); Variant w = a[0]; vars[j] = w; held[j] = held[k]; c.label("through_array"); }
		else if (op == 5 && !objs.empty()) { int i = r.range(0, (int)objs.size() - 1); if (!alive[i]) continue; if (counted[i] && owners[i].is_null()) continue; vars[k] = Variant((const Object *)objs[i]); held[k] = i; c.label("hold"); }
		else if (op == 6) { vars[k] = Variant((const Object *)nullptr); held[k] = -1; c.label("null"); }
		// a counted object without owner or holder is gone
		for (size_t i = 0; i < objs.size(); i++) if (alive[i] && counted[i] && owners[i].is_null()) { bool h2 = false; for (int q2 : held) h2 |= q2 == (int)i; if (!h2) alive[i] = false; }
		int live = 0; for (bool b : alive) live += b;
		c.check("live_objects", ObjectDB::get_object_count() - base == live, strf("%d objects alive, expected %d", ObjectDB::get_object_count() - base, live));
		for (size_t i = 0; i < objs.size(); i++) c.check("registry", (ObjectDB::get_instance(ids[i]) == objs[i]) == alive[i], "lookup by instance id");
		for (int v = 0; v < 5; v++) {
			Object *o = vars[v]; int i = held[v];
			if (i == -2) { c.check("not_object", o == nullptr && vars[v].get_type() != VT::OBJECT, "object from a non-object"); continue; }
			Object *want = i >= 0 && alive[i] ? objs[i] : nullptr;
			c.check("object", o == want, "the object held"); c.check("object_type", vars[v].get_type() == VT::OBJECT, "type");
			if (i >= 0) { c.check("is_ref", vars[v].is_ref() == counted[i], "is_ref"); if (alive[i]) c.check("instance_id", vars[v].get_object_instance_id() == ids[i], "instance id"); else { dead_reads++; c.count("dead_reads"); c.check("dead_text", UT(vars[v].operator String()) == U"[Deleted Object]", u8(UT(vars[v].operator String()))); bool ok = true; vars[v].get(Variant("foo"), &ok); c.check("dead_get", !ok, "reading from a deleted object"); ok = true; vars[v].set(Variant("foo"), Variant(1), &ok); c.check("dead_set", !ok, "writing to a deleted object"); ok = true; c.check("dead_in", !vars[v].in(Variant("foo"), &ok) && !ok, "membership in a deleted object"); } }
			else c.check("null_zero", vars[v].is_zero() && vars[v].evaluate(VT::OP_EQUAL, vars[v], Variant()).operator bool(), "a null object equals nil");
			if (want && !counted[i]) { bool ok = false; vars[v].set(Variant("foo"), Variant(v), &ok); bool o2 = false; Variant g = vars[v].get(Variant("foo"), &o2); c.check("property", ok && o2 && (int)g == v, "property through a variant"); ok = true; vars[v].set(Variant("bar"), Variant(1), &ok); c.check("unknown_property", !ok, "unknown property"); }
			for (int w = 0; w < 5; w++) if (held[w] >= -1 && i >= -1) c.check("same_object", (vars[v] == vars[w]) == (i == held[w]), "identity of two held objects");
		}
		h = hsh(h, op * 25 + k * 5 + j);
	}
	for (auto &v : vars) v = Variant(); for (auto &o : owners) o.unref();
	for (size_t i = 0; i < objs.size(); i++) if (alive[i] && !counted[i]) memdelete(objs[i]);
	c.check("all_released", ObjectDB::get_object_count() == base, "objects left behind"); c.obs(h, dead_reads > 0 || objs.size() > 1);
}
namespace r06 {
// ---- sequences in each of their forms: plain vector, pool vector, array, variant ----
template <class T> struct Sq;
#define SQ(T, TY, g) template <> struct Sq<T> { enum { type = VT::TY }; static T gen(Rng &r) { return g; } };
SQ(uint8_t, POOL_BYTE_ARRAY, (uint8_t)r.range(0, 255))
SQ(int, POOL_INT_ARRAY, (r.pick(std::vector<int>{ 0, 1, -1, 255, 256, 65536, 2147483647, -2147483647 - 1, r.range(-5000, 5000) })))
SQ(real_t, POOL_REAL_ARRAY, (real_t)r.uni(-1e6, 1e6))
SQ(String, POOL_STRING_ARRAY, (String::num(r.range(-500, 500)) + (r.chance(0.3) ? "x y" : "")))
SQ(StringName, POOL_STRING_ARRAY, (StringName(String::num(r.range(-5, 50)))))
#define RC(k) (real_t)(r.chance(0.2) ? k : r.uni(-1e4, 1e4))
#define IC r.range(-100000, 100000)
SQ(Vector2, POOL_VECTOR2_ARRAY, Vector2(RC(1), RC(2)))
SQ(Vector2i, POOL_VECTOR2I_ARRAY, Vector2i(IC, IC))
SQ(Vector3, POOL_VECTOR3_ARRAY, Vector3(RC(1), RC(2), RC(3)))
SQ(Vector3i, POOL_VECTOR3I_ARRAY, Vector3i(IC, IC, IC))
SQ(Vector4, POOL_VECTOR4_ARRAY, Vector4(RC(1), RC(2), RC(3), RC(4)))
SQ(Vector4i, POOL_VECTOR4I_ARRAY, Vector4i(IC, IC, IC, IC))
SQ(Color, POOL_COLOR_ARRAY, Color(RC(0), RC(1), RC(1), RC(1)))
SQ(Plane, ARRAY, Plane(RC(1), RC(0), RC(0), RC(5)))
#undef SQ
#undef RC
#undef IC
template <class A> static A filled(Rng &r, int n) { A a; a.resize(n); return a; }
template <class T> static bool same(const std::vector<T> &w, const Vector<T> &g) { if (g.size() != (int)w.size()) return false; for (size_t i = 0; i < w.size(); i++) if (!(g[i] == w[i])) return false; return true; }
template <class T> static bool same(const std::vector<T> &w, const PoolVector<T> &g) { if (g.size() != (int)w.size()) return false; for (size_t i = 0; i < w.size(); i++) if (!(g[i] == w[i])) return false; return true; }
template <class T> static bool samea(const std::vector<T> &w, const Array &g) { if (g.size() != (int)w.size()) return false; for (size_t i = 0; i < w.size(); i++) if (!((T)g[i] == w[i])) return false; return true; }
template <> bool samea(const std::vector<StringName> &w, const Array &g) { if (g.size() != (int)w.size()) return false; for (size_t i = 0; i < w.size(); i++) if (!(String(g[i]) == String(w[i]))) return false; return true; }
template <class T> static void seq_common(Ctx &c, const std::vector<T> &w, const Variant &x) {
	c.check("type", x.get_type() == (Variant::Type)Sq<T>::type, strf("type %d", (int)x.get_type()));
	Vector<T> back = x;
	c.check("to_vector", same(w, back), "vector differs");
	Array arr = x;
	c.check("to_array", samea(w, arr), "array differs");
	Variant y = arr;
	c.check("array_type", y.get_type() == Variant::ARRAY, "");
	Vector<T> back2 = y;
	c.check("array_to_vector", same(w, back2), "vector from the array differs");
	Variant z = x;
	c.check("equal", z == x && !(z != x), "a copy is unequal");
	if (!back.empty()) {
		back.write[0] = T();
		c.check("source", same(w, Vector<T>(x)), "writing to a returned vector changed the variant");
	}
	c.obs(hsh((uint64_t)w.size() * 131 + Sq<T>::type, c.case_no), !w.empty());
}
template <class T> static void seq_vec(Ctx &c) {
	std::vector<T> w;
	for (int n = c.rng.pick(std::vector<int>{ 0, 1, 2, c.rng.range(3, 12) }); n > 0; n--) w.push_back(Sq<T>::gen(c.rng));
	Vector<T> v;
	for (auto &e : w) v.push_back(e);
	seq_common(c, w, Variant(v));
	c.check("vector_kept", same(w, v), "");
}
template <class T> static void seq_both(Ctx &c) {
	seq_vec<T>(c);
	std::vector<T> w;
	for (int n = c.rng.pick(std::vector<int>{ 0, 1, 2, c.rng.range(3, 12) }); n > 0; n--) w.push_back(Sq<T>::gen(c.rng));
	PoolVector<T> v;
	for (auto &e : w) v.push_back(e);
	Variant x(v);
	seq_common(c, w, x);
	c.check("to_pool", same(w, PoolVector<T>(x)), "pool vector differs");
	Array arr = x;
	c.check("array_to_pool", same(w, PoolVector<T>(Variant(arr))), "pool vector from the array differs");
	c.check("pool_kept", same(w, v), "");
}
} // namespace r06

UNIT("R06", "value.sequences", 20000, 400000) {
	using namespace r06;
	Rng &r = c.rng;
	int k = r.range(0, 15);
	c.label(strf("seq%d", k));
	switch (k) {
		case 0: seq_both<uint8_t>(c); break;
		case 1: seq_both<int>(c); break;
		case 2: seq_both<real_t>(c); break;
		case 3: seq_both<String>(c); break;
		case 4: seq_vec<StringName>(c); break;
		case 5: seq_both<Vector2>(c); break;
		case 6: seq_both<Vector2i>(c); break;
		case 7: seq_both<Vector3>(c); break;
		case 8: seq_both<Vector3i>(c); break;
		case 9: seq_both<Vector4>(c); break;
		case 10: seq_both<Vector4i>(c); break;
		case 11: seq_both<Color>(c); break;
		case 12: seq_both<Plane>(c); break;
		case 13: { // faces travel as their corners
			int n = r.range(0, 5), extra = r.range(0, 2);
			PoolVector<Face3> f;
			std::vector<Vector3> w;
			for (int i = 0; i < n; i++) {
				Face3 x;
				for (int j = 0; j < 3; j++) { x.vertex[j] = Sq<Vector3>::gen(r); w.push_back(x.vertex[j]); }
				f.push_back(x);
			}
			Variant x(f);
			c.check("type", x.get_type() == Variant::POOL_VECTOR3_ARRAY, "");
			PoolVector<Vector3> corners = x;
			c.check("corners", same(w, corners), "");
			for (int i = 0; i < extra; i++) corners.push_back(Vector3(1, 2, 3));
			PoolVector<Face3> g = Variant(corners);
			bool ok = g.size() == n;
			for (int i = 0; ok && i < n; i++) for (int j = 0; j < 3; j++) ok = ok && g[i].vertex[j] == w[i * 3 + j];
			c.check("faces", ok, strf("%d faces, %d back", n, g.size()));
			c.obs(hsh(n * 3 + extra, c.case_no), n > 0);
		} break;
		case 14: { // variants of mixed types
			int n = r.range(0, 5);
			std::vector<V> w;
			Vector<Variant> v;
			for (int i = 0; i < n; i++) { V m = gen(r, anytype(r)); w.push_back(m); v.push_back(make(m)); }
			if (r.chance(0.5) && n <= 5) {
				Vector<Variant> a = n == 0 ? varray() : n == 1 ? varray(v[0]) : n == 2 ? varray(v[0], v[1]) : n == 3 ? varray(v[0], v[1], v[2]) : n == 4 ? varray(v[0], v[1], v[2], v[3]) : varray(v[0], v[1], v[2], v[3], v[4]);
				c.check("varray_size", a.size() == n, strf("%d of %d", a.size(), n));
				for (int i = 0; i < n && i < a.size(); i++) is(c, "varray", a[i], w[i]);
			}
			Variant x(v);
			c.check("type", x.get_type() == Variant::ARRAY, "");
			Vector<Variant> back = x;
			c.check("size", back.size() == n, "");
			for (int i = 0; i < n && i < back.size(); i++) is(c, "element", back[i], w[i]);
			c.obs(hsh(n, c.case_no), n > 0);
		} break;
		case 15: { // integers of every width, and enumerations
			int64_t i = r.pick(std::vector<int64_t>{ 0, 1, -1, 127, -128, 255, 32767, -32768, 65535, 2147483647LL, -2147483648LL, 4294967295LL, (int64_t)(r.next() >> 2), r.range(-100000, 100000) });
			auto ck = [&](const char *n, const Variant &x, int64_t w) { c.check(n, x.get_type() == Variant::INT && (int64_t)x == w, strf("%lld for %lld", (long long)(int64_t)x, (long long)w)); };
			ck("from_int", Variant((int)i), (int)i);
			ck("from_unsigned", Variant((unsigned int)i), (unsigned int)i);
			ck("from_short", Variant((signed short)i), (signed short)i);
			ck("from_ushort", Variant((unsigned short)i), (unsigned short)i);
			ck("from_char", Variant((signed char)i), (signed char)i);
			ck("from_uchar", Variant((unsigned char)i), (unsigned char)i);
			ck("from_int64", Variant((int64_t)i), i);
			if (i >= 0) ck("from_uint64", Variant((uint64_t)i), i);
			int s = r.range(0, 3);
			c.check("enums", (Margin)Variant(s) == (Margin)s && (Side)Variant(s) == (Side)s && (Orientation)Variant(s & 1) == (Orientation)(s & 1), strf("%d", s));
			US t = U"a\u20AC\U0001F600z";
			c.check("from_utf32", r06::UT(String(Variant(t.c_str()))) == t, "");
			c.obs(hsh((uint64_t)i, s), i != 0);
		} break;
	}
}

// What is said about types: names, which convert, which values are one.
UNIT("R06", "value.types", 6000, 120000) {
	using namespace r06;
	Rng &r = c.rng;
	int a = r.range(0, Variant::VARIANT_MAX - 1), b = r.range(0, Variant::VARIANT_MAX - 1);
	Variant::Type A = (Variant::Type)a, B = (Variant::Type)b;
	c.label(TN[a]);
	String na = Variant::get_type_name(A), nb = Variant::get_type_name(B);
	c.check("name", na.length() > 0 && (na == nb) == (a == b), strf("%s and %s", u8(UT(na)).c_str(), u8(UT(nb)).c_str()));
	bool cc = Variant::can_convert(A, B), cs = Variant::can_convert_strict(A, B);
	c.check("strict", cc || !cs, strf("%s to %s: strictly but not otherwise", TN[a], TN[b]));
	if (a == b || (b == Variant::NIL)) c.check("trivial", cc && cs, strf("%s to %s", TN[a], TN[b]));
	auto seq = [](int t) { return t >= Variant::ARRAY; };
	auto in = [](int t, std::initializer_list<int> l) { for (int x : l) if (x == t) return true; return false; };
	// what operators really convert
	bool num_a = in(a, { VT::BOOL, VT::INT, VT::REAL }), num_b = in(b, { VT::BOOL, VT::INT, VT::REAL });
	if (num_a && num_b) c.check("numbers", cc && cs, strf("%s to %s", TN[a], TN[b]));
	if (a == VT::STRING && num_b) c.check("numerals", cc, strf("%s to %s", TN[a], TN[b]));
	if (in(a, { VT::STRING, VT::STRING_NAME }) && in(b, { VT::STRING, VT::STRING_NAME })) c.check("texts", cc && cs, strf("%s to %s", TN[a], TN[b]));
	if ((a == VT::ARRAY) != (b == VT::ARRAY) && seq(a) && seq(b)) c.check("arrays", cc && cs, strf("%s to %s", TN[a], TN[b]));
	if (num_a && (seq(b) || b == VT::DICTIONARY)) c.check("number_is_no_list", !cc && !cs, strf("%s to %s", TN[a], TN[b]));
	if (seq(a) && (num_b || b == VT::DICTIONARY)) c.check("list_is_no_number", !cc && !cs, strf("%s to %s", TN[a], TN[b]));
	if (a == VT::DICTIONARY && b != VT::DICTIONARY && b != VT::NIL && b != VT::STRING) c.check("dictionary", !cc, strf("%s to %s", TN[a], TN[b]));
	int p = r.range(0, Variant::OP_MAX - 1), q = r.range(0, Variant::OP_MAX - 1);
	String op = Variant::get_operator_name((Variant::Operator)p), oq = Variant::get_operator_name((Variant::Operator)q);
	c.check("operator_name", op.length() > 0 && (p == q || !(op == oq) || p == Variant::OP_NEGATE || q == Variant::OP_NEGATE || p == Variant::OP_POSITIVE || q == Variant::OP_POSITIVE), strf("%d and %d are both %s", p, q, u8(UT(op)).c_str()));
	// ones: the types made of numbers whose components are all one
	V m = gen(r, a);
	Variant x = make(m);
	c.check("is_shared", x.is_shared() == (a == VT::OBJECT || a == VT::ARRAY || a == VT::DICTIONARY), "is_shared");
	bool comp = in(a, { VT::RECT2, VT::RECT2I, VT::VECTOR2, VT::VECTOR2I, VT::VECTOR3, VT::VECTOR3I, VT::VECTOR4, VT::VECTOR4I, VT::PLANE, VT::COLOR });
	if (comp || num_a) {
		int how = r.range(0, 2);
		if (comp && how < 2) {
			for (auto &e : m.c) e = 1;
			if (how == 1) m.c[r.range(0, (int)m.c.size() - 1)] = r.pick(std::vector<double>{ 0, 2, -1 });
		} else if (how < 2) { m.i = how == 0; m.r = how == 0 ? 1 : 1.5; }
		bool one = comp ? true : a == VT::REAL ? m.r == 1 : m.i == 1;
		if (comp) for (auto e : m.c) one = one && e == 1;
		c.check("is_one", make(m).is_one() == one, strf("is_one of ") + show(m));
	}
	c.obs(hsh(hsh(a, b), hv(m)), true);
}
