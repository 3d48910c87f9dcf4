// R02: the platform string against independent references over std::u32string, round trips of the
// encode/decode pairs, and value semantics (no const operation changes its source or a copy of it).
#include "vh.h"
#include "platform/sfw.h"
#include <algorithm>
#include <clocale>
#include <cwctype>
using namespace vh;

namespace {

typedef std::u32string U;
typedef std::vector<U> UV;

uint64_t hx1(uint64_t h, uint64_t v) { return (h ^ v) * 0x100000001b3ULL + (h >> 29); }
uint64_t hu(const U &u) {
	uint64_t h = 1469598103934665603ULL ^ u.size();
	for (char32_t ch : u) h = hx1(h, ch);
	return h;
}
uint64_t h1(uint64_t h, const U &u) { return hx1(h, hu(u)); }
uint64_t h1(uint64_t h, const UV &v) {
	for (auto &u : v) h = hx1(h, hu(u));
	return hx1(h, v.size());
}
uint64_t h1(uint64_t h, const std::string &s) { return hx1(h, hs(s)); }
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type>
uint64_t h1(uint64_t h, T v) { return hx1(h, std::hash<double>()((double)v)); }
uint64_t hz(uint64_t h) { return h; }
template <class T, class... A> uint64_t hz(uint64_t h, const T &u, const A &...a) { return hz(h1(h, u), a...); }
template <class... A> uint64_t hh(const char *n, const A &...a) { return hz(hs(n), a...); }

String S(const U &u) { return u.empty() ? String() : String(u.c_str()); }
U un(const String &s) {
	U u;
	int n = s.length();
	for (int i = 0; i < n; i++) u.push_back(s[i]);
	return u;
}
UV unv(const Vector<String> &v) {
	UV r;
	for (int i = 0; i < v.size(); i++) r.push_back(un(v[i]));
	return r;
}
std::string q(const U &u) {
	std::string s = "\"";
	for (size_t i = 0; i < u.size() && i < 80; i++) {
		char32_t ch = u[i];
		if (ch >= 32 && ch < 127 && ch != '"' && ch != '\\') s += (char)ch;
		else s += strf("\\u{%x}", (unsigned)ch);
	}
	if (u.size() > 80) s += "...";
	return s + "\"";
}
std::string q(const UV &v) {
	std::string s = "[";
	for (auto &u : v) s += q(u) + " ";
	return s + "]";
}
U asc(const std::string &s) { return U(s.begin(), s.end()); } // bytes taken as Latin-1 must be done by caller
U lat(const std::string &s) {
	U u;
	for (unsigned char ch : s) u.push_back(ch);
	return u;
}
std::string nar(const U &u) { // Latin-1
	std::string s;
	for (char32_t ch : u) s += (char)(unsigned char)ch;
	return s;
}
bool is_lat(const U &u) {
	for (char32_t ch : u) if (ch > 0xff || ch == 0) return false;
	return true;
}
bool valid_cp(char32_t ch) { return ch && (ch < 0xd800 || (ch > 0xdfff && ch <= 0x10ffff)); }

// ---- generators ----
enum Alpha { A_TINY, A_ASCII, A_PATH, A_LATIN, A_BMP, A_FULL, A_WORDS, A_NUM, A_CTRL, A_N };
char32_t gch(Rng &r, int a) {
	switch (a) {
		case A_TINY: return "abAB."[r.range(0, 4)];
		case A_ASCII: return 32 + r.range(0, 94);
		case A_PATH: return "ab./\\:~-_ "[r.range(0, 9)];
		case A_LATIN: return r.chance(0.5) ? 0xa0 + r.range(0, 0x5f) : 'a' + r.range(0, 25);
		case A_BMP: {
			int k = r.range(0, 5);
			if (k == 0) return 'A' + r.range(0, 57);
			if (k == 1) return 0x391 + r.range(0, 0x38);
			if (k == 2) return 0x400 + r.range(0, 0x5f);
			if (k == 3) return 0x100 + r.range(0, 0x7f);
			if (k == 4) return 0x4e00 + r.range(0, 0x200);
			return 0x12f; // low byte equals '/'
		}
		case A_FULL: {
			char32_t ch;
			do {
				int k = r.range(0, 5);
				ch = k == 0 ? 0x10000 + r.range(0, 0xfffff) : k == 1 ? r.range(1, 0x7f) : k == 2 ? r.range(0x80, 0x7ff) : k == 3 ? r.range(0x800, 0xffff) : k == 4 ? "\x7f\x80\xff\xfe"[r.range(0, 3)] & 0xff : (char32_t)(r.chance(0.5) ? 0x7ff + r.range(0, 1) : 0xffff + r.range(0, 1));
			} while (!valid_cp(ch) || ch == 0xfeff || ch == 0xfffe);
			return ch;
		}
		case A_WORDS: return r.chance(0.3) ? " \t\n"[r.range(0, 2)] : 'a' + r.range(0, 3);
		case A_NUM: return "0123456789.-+e xabf"[r.range(0, 18)];
		default: return r.chance(0.5) ? 1 + r.range(0, 30) : (r.chance(0.3) ? '\\' : "nrtabfv'\"?&;<>%"[r.range(0, 14)]);
	}
}
int glen(Rng &r) { return r.chance(0.1) ? 0 : r.chance(0.15) ? 1 : r.chance(0.1) ? r.range(13, 90) : r.chance(0.02) ? r.range(100, 700) : r.range(2, 12); }
U gu(Rng &r, int a, int n = -1) {
	if (n < 0) n = glen(r);
	U u;
	for (int i = 0; i < n; i++) u.push_back(gch(r, a));
	return u;
}
int galpha(Rng &r) { return r.range(0, A_N - 1); }

// constructs a String with the given content by one of several routes
String mk(Rng &r, const U &u) {
	switch (r.range(0, 8)) {
		case 0: {
			String s;
			for (char32_t ch : u) s += (CharType)ch;
			return s;
		}
		case 1: {
			U w = U(U"xy") + u + U"zz";
			return String(w.c_str()).substr(2, (int)u.size());
		}
		case 2: {
			String s(u.c_str());
			String t = s;
			s += "tail";
			s = "";
			return t;
		}
		case 3: {
			if (u.empty()) return String("");
			String s;
			s.set_length((int)u.size());
			CharType *w = s.ptrw();
			for (size_t i = 0; i < u.size(); i++) w[i] = u[i];
			return s;
		}
		case 4: return is_lat(u) ? String(nar(u).c_str()) : S(u);
		case 5: return String(std::wstring(u.begin(), u.end()).c_str());
		case 6: {
			U w = u + U"more";
			return u.empty() ? String() : String(w.c_str(), (int)u.size());
		}
		case 7: return String(StrRange(u.c_str(), (int)u.size()));
		default: return S(u);
	}
}

// a source under watch: its content and the content of an independent copy are compared at scope end
struct Src {
	Ctx &c;
	U u;
	String s;
	String copy;
	Src(Ctx &cc, const U &uu) : c(cc), u(uu), s(mk(cc.rng, uu)), copy(s) {}
	void verify(const char *op) {
		bool ok = un(s) == u && un(copy) == u && s.length() == (int)u.size();
		if (!ok) c.fail("source_changed", std::string(op) + " changed its source: was " + q(u) + " now " + q(un(s)) + " copy " + q(un(copy)));
		if (s.size() && s.get_data()[s.length()] != 0) c.fail("terminator", op);
	}
	operator const String &() const { return s; }
};

bool eqs(Ctx &c, const char *op, const String &got, const U &want, const std::string &args) {
	U g = un(got);
	bool ok = g == want;
	if (ok && (got.get_data()[g.size()] != 0 || (got.size() != 0 && got.size() != (int)g.size() + 1))) {
		c.fail("terminator", std::string(op) + " " + args);
		ok = false;
	}
	for (char32_t ch : g) if (!ch) ok = false;
	c.check(op, ok, args + " gives " + q(g) + " expected " + q(want));
	c.obs(hz(hs(op), hs(args)), !want.empty());
	return ok;
}
bool eqi(Ctx &c, const char *op, long long got, long long want, const std::string &args) {
	bool ok = c.check(op, got == want, args + strf(" gives %lld expected %lld", got, want));
	c.obs(hz(hs(op), hs(args)), want != 0 && want != -1);
	return ok;
}
bool eqv(Ctx &c, const char *op, const Vector<String> &got, const UV &want, const std::string &args) {
	UV g = unv(got);
	bool ok = c.check(op, g == want, args + " gives " + q(g) + " expected " + q(want));
	c.obs(hz(hs(op), hs(args)), want.size() > 1);
	return ok;
}

U low(const U &u) {
	U r;
	for (char32_t ch : u) r.push_back(String::char_lowercase(ch));
	return r;
}
U upp(const U &u) {
	U r;
	for (char32_t ch : u) r.push_back(String::char_uppercase(ch));
	return r;
}

// reference searching
long rfnd(const U &h, const U &n, long from) {
	if (from < 0 || n.empty()) return -1;
	for (long i = from; i + (long)n.size() <= (long)h.size(); i++)
		if (std::equal(n.begin(), n.end(), h.begin() + i)) return i;
	return -1;
}
long rrf(const U &h, const U &n, long from) {
	if (n.empty()) return -1;
	long best = -1;
	for (long i = 0; i + (long)n.size() <= (long)h.size(); i++)
		if ((from < 0 || i <= from) && std::equal(n.begin(), n.end(), h.begin() + i)) best = i;
	return best;
}
U rsub(const U &h, long a, long n) {
	if (a < 0 || a >= (long)h.size() || n <= 0) return U();
	return h.substr(a, n);
}
U rrep(const U &h, const U &k, const U &w, bool ci, bool first) {
	if (k.empty()) return h;
	U out;
	U hl = ci ? low(h) : h, kl = ci ? low(k) : k;
	size_t i = 0;
	bool done = false;
	while (i < h.size()) {
		if (!(first && done) && i + k.size() <= h.size() && std::equal(kl.begin(), kl.end(), hl.begin() + i)) {
			out += w;
			i += k.size();
			done = true;
		} else out.push_back(h[i++]);
	}
	return out;
}
UV rsplit_all(const U &h, const U &sp) {
	UV r;
	if (sp.empty()) {
		r.push_back(h);
		return r;
	}
	size_t from = 0;
	while (true) {
		long e = rfnd(h, sp, (long)from);
		if (e < 0) break;
		r.push_back(h.substr(from, e - from));
		from = e + sp.size();
	}
	r.push_back(h.substr(from));
	return r;
}
U piece_of(Rng &r, const U &u, int a) { // needle: often a real piece of the haystack
	if (!u.empty() && r.chance(0.7)) {
		int i = r.range(0, (int)u.size() - 1);
		U n = u.substr(i, r.range(1, 3));
		if (r.chance(0.15)) n.push_back(gch(r, a));
		return n;
	}
	return gu(r, a, r.range(0, 3));
}
std::string encode8(const U &u) {
	std::string s;
	for (char32_t ch : u) {
		if (ch < 0x80) s += (char)ch;
		else if (ch < 0x800) {
			s += (char)(0xc0 | ch >> 6);
			s += (char)(0x80 | (ch & 63));
		} else if (ch < 0x10000) {
			s += (char)(0xe0 | ch >> 12);
			s += (char)(0x80 | ((ch >> 6) & 63));
			s += (char)(0x80 | (ch & 63));
		} else {
			s += (char)(0xf0 | ch >> 18);
			s += (char)(0x80 | ((ch >> 12) & 63));
			s += (char)(0x80 | ((ch >> 6) & 63));
			s += (char)(0x80 | (ch & 63));
		}
	}
	return s;
}
// strict decoder: false if not well-formed
bool decode8(const std::string &s, U &out) {
	out.clear();
	size_t i = 0;
	while (i < s.size()) {
		unsigned char b = s[i];
		int n;
		char32_t ch, mn;
		if (b < 0x80) { n = 0; ch = b; mn = 0; }
		else if ((b & 0xe0) == 0xc0) { n = 1; ch = b & 31; mn = 0x80; }
		else if ((b & 0xf0) == 0xe0) { n = 2; ch = b & 15; mn = 0x800; }
		else if ((b & 0xf8) == 0xf0) { n = 3; ch = b & 7; mn = 0x10000; }
		else return false;
		if (i + n >= s.size()) return false;
		for (int k = 1; k <= n; k++) {
			unsigned char d = s[i + k];
			if ((d & 0xc0) != 0x80) return false;
			ch = ch << 6 | (d & 63);
		}
		if (ch < mn || !valid_cp(ch)) return false;
		out.push_back(ch);
		i += n + 1;
	}
	return true;
}


} // namespace

UNIT("R02", "build", 3000, 60000) {
	Rng &r = c.rng;
	int a = galpha(r);
	U u = gu(r, a);
	String s = mk(r, u);
	eqs(c, "construct", s, u, q(u));
	U cur = u;
	std::vector<std::pair<String, U>> copies;
	int n = r.range(1, 12);
	for (int i = 0; i < n; i++) {
		std::string at = q(cur);
		switch (r.range(0, 13)) {
			case 0: {
				U t = gu(r, a);
				s += mk(r, t);
				cur += t;
				eqs(c, "append_string", s, cur, at + "+=" + q(t));
				break;
			}
			case 1: {
				char32_t ch = gch(r, a);
				s += (CharType)ch;
				cur.push_back(ch);
				eqs(c, "append_char", s, cur, at);
				break;
			}
			case 2: {
				U t = gu(r, A_LATIN);
				s += nar(t).c_str();
				cur += t;
				eqs(c, "append_cstring", s, cur, at + "+=" + q(t));
				break;
			}
			case 3: {
				U t = gu(r, a);
				s += std::wstring(t.begin(), t.end()).c_str();
				cur += t;
				eqs(c, "append_wide", s, cur, at + "+=" + q(t));
				break;
			}
			case 4: {
				U t = gu(r, a);
				s += t.c_str();
				cur += t;
				eqs(c, "append_u32", s, cur, at + "+=" + q(t));
				break;
			}
			case 5: {
				if (cur.size() > 2000) break;
				s += s;
				cur += U(cur);
				eqs(c, "append_self", s, cur, at);
				break;
			}
			case 6: {
				if (cur.empty()) break;
				int i2 = r.range(0, (int)cur.size() - 1);
				char32_t ch = gch(r, a);
				if (r.chance(0.5)) s[i2] = ch;
				else s.set(i2, ch);
				cur[i2] = ch;
				eqs(c, "set", s, cur, at + strf("[%d]", i2));
				break;
			}
			case 7: {
				if (cur.empty()) break;
				int i2 = r.range(0, (int)cur.size() - 1);
				s.remove(i2);
				cur.erase(i2, 1);
				eqs(c, "remove", s, cur, at + strf(" remove %d", i2));
				break;
			}
			case 8: {
				int k = r.range(0, (int)cur.size());
				s.set_length(k);
				cur.resize(k);
				eqs(c, "set_length", s, cur, at + strf(" set_length %d", k));
				break;
			}
			case 9: {
				int p = r.range(0, (int)cur.size() + 1), k = r.range(0, 5);
				s.erase(p, k);
				if (p < (int)cur.size()) cur.erase(p, k);
				eqs(c, "erase", s, cur, at + strf(" erase %d,%d", p, k));
				break;
			}
			case 10: {
				U t = gu(r, a);
				if (r.chance(0.3)) s = t.c_str();
				else if (r.chance(0.5)) s = mk(r, t);
				else s = std::wstring(t.begin(), t.end()).c_str();
				cur = t;
				eqs(c, "assign", s, cur, q(t));
				break;
			}
			case 11: {
				U t = gu(r, A_LATIN);
				s = nar(t).c_str();
				cur = t;
				eqs(c, "assign_cstring", s, cur, q(t));
				break;
			}
			case 12: {
				U t = gu(r, a);
				String o = mk(r, t);
				String sum = s + o;
				eqs(c, "plus", sum, cur + t, at + "+" + q(t));
				if (!t.empty()) {
					eqs(c, "plus_cstring", s + "xyz", cur + U(U"xyz"), at);
					eqs(c, "cstring_plus", "xyz" + s, U(U"xyz") + cur, at);
					eqs(c, "char_plus", (CharType)'q' + s, U(U"q") + cur, at);
				}
				break;
			}
			default:
				copies.push_back({ s, cur });
				if (r.chance(0.2)) {
					s.clear();
					cur.clear();
					eqs(c, "clear", s, cur, at);
				}
				break;
		}
		for (auto &p : copies)
			if (un(p.first) != p.second) c.fail("copy_changed", q(p.second) + " became " + q(un(p.first)));
		if (!c.check("length", s.length() == (int)cur.size() && s.empty() == cur.empty(), q(cur))) return;
	}
	// clipped C strings and single characters
	U l = gu(r, A_LATIN);
	int k = r.range(0, (int)l.size() + 2);
	eqs(c, "clip_latin", String(nar(l).c_str(), k), l.substr(0, k), q(l) + strf(" clip %d", k));
	U m = gu(r, a);
	k = r.range(0, (int)m.size() + 2);
	eqs(c, "clip_u32", String(m.c_str(), k), m.substr(0, k), q(m) + strf(" clip %d", k));
	char32_t ch = gch(r, a);
	eqs(c, "chr", String::chr(ch), U(1, ch), q(U(1, ch)));
	if (!m.empty()) {
		int i = r.range(0, (int)m.size() - 1);
		eqi(c, "ord_at", S(m).ord_at(i), m[i], q(m));
		eqi(c, "unicode_at", S(m).unicode_at(i), m[i], q(m));
	}
}

UNIT("R02", "compare", 4000, 80000) {
	Rng &r = c.rng;
	int a = galpha(r);
	U u = gu(r, a), v = u;
	int k = r.range(0, 4);
	if (k == 0) v = gu(r, a);
	else if (k == 1 && !v.empty()) v[r.range(0, (int)v.size() - 1)] = gch(r, a);
	else if (k == 2) v += gu(r, a, r.range(0, 2));
	else if (k == 3) v = r.chance(0.5) ? upp(u) : low(u);
	Src x(c, u), y(c, v);
	std::string ar = q(u) + " ? " + q(v);
	int cmp = u < v ? -1 : u > v ? 1 : 0;
	eqi(c, "eq", x.s == y.s, cmp == 0, ar);
	eqi(c, "ne", x.s != y.s, cmp != 0, ar);
	eqi(c, "lt", x.s < y.s, cmp < 0, ar);
	eqi(c, "le", x.s <= y.s, cmp <= 0, ar);
	eqi(c, "gt", x.s > y.s, cmp > 0, ar);
	eqi(c, "ge", x.s >= y.s, cmp >= 0, ar);
	eqi(c, "casecmp", x.s.casecmp_to(y.s), cmp, ar);
	// case-insensitive order compares uppercase forms
	U uu = upp(u), vv = upp(v);
	eqi(c, "nocasecmp", x.s.nocasecmp_to(y.s), uu < vv ? -1 : uu > vv ? 1 : 0, ar);
	std::wstring w(v.begin(), v.end());
	eqi(c, "eq_u32", x.s == v.c_str(), cmp == 0, ar);
	eqi(c, "eq_wide", x.s == w.c_str(), cmp == 0, ar);
	eqi(c, "lt_u32", x.s < v.c_str(), cmp < 0, ar);
	eqi(c, "lt_wide", x.s < w.c_str(), cmp < 0, ar);
	eqi(c, "eq_range", x.s == StrRange(v.c_str(), (int)v.size()), cmp == 0, ar);
	if (is_lat(v)) {
		std::string l = nar(v);
		eqi(c, "eq_cstring", x.s == l.c_str(), cmp == 0, ar);
		eqi(c, "ne_cstring", x.s != l.c_str(), cmp != 0, ar);
		eqi(c, "lt_cstring", x.s < l.c_str(), cmp < 0, ar);
		eqi(c, "cstring_eq", l.c_str() == x.s, cmp == 0, ar);
	}
	// equal content has equal hashes, however obtained
	if (cmp == 0) {
		eqi(c, "hash", x.s.hash(), y.s.hash(), ar);
		eqi(c, "hash64", (long long)x.s.hash64(), (long long)y.s.hash64(), ar);
	}
	eqi(c, "hash_u32", String::hash(v.c_str()), y.s.hash(), ar);
	eqi(c, "hash_u32_len", String::hash(v.c_str(), (int)v.size()), y.s.hash(), ar);
	eqi(c, "hash_wide", String::hash(w.c_str()), y.s.hash(), ar);
	eqi(c, "hash_wide_len", String::hash(w.c_str(), (int)w.size()), y.s.hash(), ar);
	if (is_lat(v)) {
		std::string l = nar(v);
		eqi(c, "hash_cstring", String::hash(l.c_str()), y.s.hash(), ar);
		eqi(c, "hash_cstring_len", String::hash(l.c_str(), (int)l.size()), y.s.hash(), ar);
	}
	// natural order: equivalence on equal strings, antisymmetric, transitive, numbers by value
	U z = r.chance(0.5) ? gu(r, a) : v + gu(r, a, 1);
	Src t(c, z);
	int xy = x.s.naturalnocasecmp_to(y.s), yx = y.s.naturalnocasecmp_to(x.s);
	eqi(c, "natural_antisymmetric", xy, -yx, ar);
	if (uu == vv) eqi(c, "natural_equal", xy, 0, ar);
	int yt = y.s.naturalnocasecmp_to(t.s), xt = x.s.naturalnocasecmp_to(t.s);
	if (xy <= 0 && yt <= 0) c.check("natural_transitive", xt <= 0, ar + " ? " + q(z));
	if (xy >= 0 && yt >= 0) c.check("natural_transitive", xt >= 0, ar + " ? " + q(z));
	U pre = gu(r, A_LATIN, r.range(0, 3));
	int n1 = r.range(0, 3000), n2 = r.chance(0.2) ? n1 : r.range(0, 3000);
	U p1 = pre + U(r.range(0, 2), '0') + asc(std::to_string(n1)), p2 = pre + U(r.range(0, 2), '0') + asc(std::to_string(n2));
	bool same_tail = r.chance(0.5);
	char32_t t1 = 'f' + r.range(0, 2), t2 = same_tail ? t1 : 'f' + r.range(0, 2);
	p1.push_back(t1);
	p2.push_back(t2);
	eqi(c, "natural_numbers", S(p1).naturalnocasecmp_to(S(p2)), n1 != n2 ? (n1 < n2 ? -1 : 1) : t1 != t2 ? (t1 < t2 ? -1 : 1) : 0, q(p1) + " ? " + q(p2));
	x.verify("compare");
	y.verify("compare");
}

UNIT("R02", "search", 4000, 80000) {
	Rng &r = c.rng;
	int a = r.chance(0.5) ? (int)A_TINY : galpha(r);
	U h = gu(r, a), n = piece_of(r, h, a);
	Src s(c, h), d(c, n);
	int from = r.chance(0.4) ? 0 : r.range(-1, (int)h.size() + 2);
	std::string ar = q(h) + ", " + q(n) + strf(", %d", from);
	eqi(c, "find", s.s.find(d.s, from), rfnd(h, n, from), ar);
	eqi(c, "contains", s.s.contains(d.s), rfnd(h, n, 0) >= 0, ar);
	eqi(c, "findn", s.s.findn(d.s, from), rfnd(low(h), low(n), from), ar);
	eqi(c, "rfind", s.s.rfind(d.s, from), rrf(h, n, from), ar);
	eqi(c, "rfindn", s.s.rfindn(d.s, from), rrf(low(h), low(n), from), ar);
	eqi(c, "find_last", s.s.find_last(d.s), rrf(h, n, -1), ar);
	if (is_lat(n)) {
		std::string l = nar(n);
		eqi(c, "find_cstring", s.s.find(l.c_str(), from), rfnd(h, n, from), ar);
		eqi(c, "contains_cstring", s.s.contains(l.c_str()), rfnd(h, n, 0) >= 0, ar);
		bool b = n.size() <= h.size() && std::equal(n.begin(), n.end(), h.begin());
		eqi(c, "begins_with_cstring", s.s.begins_with(l.c_str()), b, ar);
		if (!h.empty()) {
			int i = r.range(0, (int)h.size() - 1);
			eqi(c, "is_word_at_cstring", s.s.is_word_at(i, l.c_str()), n.size() <= h.size() - i && std::equal(n.begin(), n.end(), h.begin() + i), ar + strf(" at %d", i));
		}
	}
	if (!h.empty()) {
		int i = r.range(0, (int)h.size() - 1);
		eqi(c, "is_word_at", s.s.is_word_at(i, d.s), n.size() <= h.size() - i && std::equal(n.begin(), n.end(), h.begin() + i), ar + strf(" at %d", i));
	}
	char32_t ch = !h.empty() && r.chance(0.7) ? h[r.range(0, (int)h.size() - 1)] : gch(r, a);
	size_t fc = from < 0 ? U::npos : h.find(ch, from);
	eqi(c, "find_char", s.s.find_char(ch, from), fc == U::npos ? -1 : (long)fc, ar);
	bool beg = n.size() <= h.size() && std::equal(n.begin(), n.end(), h.begin());
	bool en = n.size() <= h.size() && std::equal(n.begin(), n.end(), h.end() - n.size());
	eqi(c, "begins_with", s.s.begins_with(d.s), beg, ar);
	eqi(c, "ends_with", s.s.ends_with(d.s), en, ar);
	eqi(c, "is_enclosed_in", s.s.is_enclosed_in(d.s), beg && en, ar);
	// several keys: the first position at which any key matches; the reported key is one matching there
	Vector<String> keys;
	UV ku;
	int kn = r.range(1, 3);
	for (int i = 0; i < kn; i++) {
		U k = piece_of(r, h, a);
		if (k.empty()) k.push_back(gch(r, a));
		ku.push_back(k);
		keys.push_back(S(k));
	}
	int key = -5;
	long best = -1;
	int bk = -1;
	for (long i = std::max(0, from); i < (long)h.size() && best < 0; i++)
		for (int k = 0; k < kn; k++)
			if (i + ku[k].size() <= h.size() && std::equal(ku[k].begin(), ku[k].end(), h.begin() + i)) {
				best = i;
				bk = k;
				break;
			}
	if (from < 0) best = -1;
	if (eqi(c, "findmk", s.s.findmk(keys, from, &key), best, ar + q(ku)) && best >= 0) eqi(c, "findmk_key", key, bk, ar + q(ku));
	eqi(c, "findmk_nokey", s.s.findmk(keys, from), best, ar + q(ku));
	// counting non-overlapping occurrences in a window
	int f2 = r.range(0, (int)h.size()), t2 = r.chance(0.4) ? 0 : r.range(0, (int)h.size());
	U win = t2 == 0 ? h.substr(f2) : f2 < t2 ? h.substr(f2, t2 - f2) : U();
	auto cnt = [&](const U &hay, const U &ne) {
		long k = 0, p = 0;
		while (!ne.empty() && (p = rfnd(hay, ne, p)) >= 0) {
			k++;
			p += (long)ne.size();
		}
		return k;
	};
	eqi(c, "count", s.s.count(d.s, f2, t2), cnt(win, n), ar + strf(" window %d,%d", f2, t2));
	eqi(c, "countn", s.s.countn(d.s, f2, t2), cnt(low(win), low(n)), ar + strf(" window %d,%d", f2, t2));
	size_t fd = 0;
	while (fd < h.size() && fd < n.size() && h[fd] == n[fd]) fd++;
	eqi(c, "first_difference", s.s.find_first_difference_index(d.s), (long)fd, ar);
	U sub;
	for (char32_t x : h) if (r.chance(0.5)) sub.push_back(x);
	if (r.chance(0.3) && !sub.empty()) std::swap(sub[0], sub[sub.size() - 1]);
	auto isub = [](const U &x, const U &y) {
		size_t i = 0;
		for (char32_t ch : y) if (i < x.size() && x[i] == ch) i++;
		return i == x.size();
	};
	eqi(c, "is_subsequence_of", S(sub).is_subsequence_of(s.s), isub(sub, h), q(sub) + " of " + q(h));
	eqi(c, "is_subsequence_ofi", S(upp(sub)).is_subsequence_ofi(s.s), isub(low(upp(sub)), low(h)), q(sub) + " of " + q(h));
	s.verify("search");
	d.verify("search");
}

static bool rmatch(const U &p, size_t i, const U &s, size_t j, bool ci) {
	// dynamic programme over suffixes
	std::vector<std::vector<char>> m(p.size() + 1, std::vector<char>(s.size() + 1, 0));
	m[p.size()][s.size()] = 1;
	for (int a = (int)p.size() - 1; a >= 0; a--)
		for (int b = (int)s.size(); b >= 0; b--) {
			if (p[a] == '*') m[a][b] = m[a + 1][b] || (b < (int)s.size() && m[a][b + 1]);
			else if (b == (int)s.size()) m[a][b] = 0;
			else if (p[a] == '?') m[a][b] = s[b] != '.' && m[a + 1][b + 1];
			else m[a][b] = (ci ? String::char_uppercase(p[a]) == String::char_uppercase(s[b]) : p[a] == s[b]) && m[a + 1][b + 1];
		}
	return m[i][j];
}

UNIT("R02", "wildcard", 3000, 60000) {
	Rng &r = c.rng;
	int a = r.chance(0.6) ? (int)A_TINY : galpha(r);
	U h = gu(r, a, r.range(1, 12)), p;
	for (char32_t ch : h) {
		double k = r.uni(0, 1);
		if (k < 0.2) p.push_back('?');
		else if (k < 0.35) p.push_back('*');
		else if (k < 0.45) continue;
		else if (k < 0.5) p.push_back(gch(r, a));
		else if (k < 0.6) p.push_back(String::char_uppercase(ch));
		else p.push_back(ch);
	}
	if (p.empty()) p.push_back('*');
	Src s(c, h), w(c, p);
	eqi(c, "match", s.s.match(w.s), rmatch(p, 0, h, 0, false), q(h) + " ~ " + q(p));
	eqi(c, "matchn", s.s.matchn(w.s), rmatch(p, 0, h, 0, true), q(h) + " ~ " + q(p));
	s.verify("match");
}

UNIT("R02", "slice", 4000, 80000) {
	Rng &r = c.rng;
	int a = galpha(r);
	U h = gu(r, a);
	Src s(c, h);
	int L = (int)h.size();
	int f = r.range(-1, L + 2), n = r.chance(0.1) ? 2147483647 : r.range(-3, L + 3);
	std::string ar = q(h) + strf(", %d, %d", f, n);
	eqs(c, "substr", s.s.substr(f, n), rsub(h, f, n == -1 ? L - f : n), ar);
	eqs(c, "substr_tail", s.s.substr(f), rsub(h, f, L - f), ar);
	int e = r.range(-1, L + 3);
	eqs(c, "substr_index", s.s.substr_index(f, e), rsub(h, f, std::min(e, L) - f), q(h) + strf(", %d, %d", f, e));
	eqs(c, "left", s.s.left(n), n <= 0 ? U() : h.substr(0, n), ar);
	eqs(c, "right", s.s.right(f), f <= 0 ? h : rsub(h, f, L - f), ar);
	U t = gu(r, a, r.range(0, 4));
	Src st(c, t);
	int p = r.range(-1, L + 2);
	U ins = h;
	if (p >= 0) ins.insert(std::min(p, L), t);
	eqs(c, "insert", s.s.insert(p, st.s), ins, q(h) + strf(", %d, ", p) + q(t));
	int k = r.chance(0.1) ? 40 : r.range(0, 5);
	U rep;
	for (int i = 0; i < k; i++) rep += h;
	if (rep.size() < 8000) eqs(c, "repeat", s.s.repeat(k), rep, q(h) + strf(" x%d", k));
	U pr = r.chance(0.6) ? h.substr(0, r.range(0, 3)) : gu(r, a, r.range(0, 2));
	bool b = pr.size() <= h.size() && std::equal(pr.begin(), pr.end(), h.begin());
	eqs(c, "trim_prefix", s.s.trim_prefix(S(pr)), b ? h.substr(pr.size()) : h, q(h) + ", " + q(pr));
	U su = r.chance(0.6) ? h.substr(L - std::min(L, r.range(0, 3))) : gu(r, a, r.range(0, 2));
	b = su.size() <= h.size() && std::equal(su.begin(), su.end(), h.end() - su.size());
	eqs(c, "trim_suffix", s.s.trim_suffix(S(su)), b ? h.substr(0, L - su.size()) : h, q(h) + ", " + q(su));
	auto strip = [](U x, bool l, bool rr) {
		if (l) {
			size_t i = 0;
			while (i < x.size() && x[i] <= 32) i++;
			x = x.substr(i);
		}
		if (rr)
			while (!x.empty() && x.back() <= 32) x.pop_back();
		return x;
	};
	bool l = r.chance(0.5), rr = r.chance(0.5);
	eqs(c, "strip_edges", s.s.strip_edges(l, rr), strip(h, l, rr), q(h) + strf(", %d, %d", l, rr));
	eqs(c, "strip_edges_both", s.s.strip_edges(), strip(h, true, true), q(h));
	U cs = piece_of(r, h, a) + piece_of(r, h, a);
	U ls = h, rs = h;
	while (!ls.empty() && cs.find(ls[0]) != U::npos) ls.erase(0, 1);
	while (!rs.empty() && cs.find(rs.back()) != U::npos) rs.pop_back();
	eqs(c, "lstrip", s.s.lstrip(S(cs)), ls, q(h) + ", " + q(cs));
	eqs(c, "rstrip", s.s.rstrip(S(cs)), rs, q(h) + ", " + q(cs));
	U esc;
	for (char32_t ch : h) if (ch >= 32) esc.push_back(ch);
	eqs(c, "strip_escapes", s.s.strip_escapes(), esc, q(h));
	int w = r.range(-1, L + 8);
	char32_t pc = gch(r, a);
	U pad(std::max(0, w - L), pc);
	eqs(c, "lpad", s.s.lpad(w, String::chr(pc)), pad + h, q(h) + strf(", %d", w));
	eqs(c, "rpad", s.s.rpad(w, String::chr(pc)), h + pad, q(h) + strf(", %d", w));
	eqs(c, "quote", s.s.quote("'"), U(U"'") + h + U(U"'"), q(h));
	eqs(c, "quote_unquote", s.s.quote().unquote(), h, q(h));
	bool quoted = L >= 2 && ((h[0] == '"' && h[L - 1] == '"') || (h[0] == '\'' && h[L - 1] == '\''));
	if (L != 1) eqs(c, "unquote", s.s.unquote(), quoted ? h.substr(1, L - 2) : h, q(h));
	s.verify("slice");
	st.verify("slice");
}

UNIT("R02", "pad_number", 2000, 40000) {
	Rng &r = c.rng;
	std::string ip = std::to_string(r.range(0, r.chance(0.5) ? 9 : 99999)), fp;
	int fd = r.range(0, 6);
	for (int i = 0; i < fd; i++) fp += (char)('0' + r.range(0, 9));
	bool neg = r.chance(0.3);
	std::string t = (neg ? "-" : "") + ip + (fd ? "." + fp : "");
	Src s(c, asc(t));
	int n = r.range(0, 9);
	std::string f2 = fp.substr(0, n) + std::string(std::max(0, n - fd), '0');
	eqs(c, "pad_decimals", s.s.pad_decimals(n), asc((neg ? "-" : "") + ip + (n ? "." + f2 : "")), t + strf(", %d", n));
	eqs(c, "pad_zeros", s.s.pad_zeros(n), asc((neg ? "-" : "") + std::string(std::max(0, n - (int)ip.size()), '0') + ip + (fd ? "." + fp : "")), t + strf(", %d", n));
	s.verify("pad");
}

UNIT("R02", "replace", 3000, 60000) {
	Rng &r = c.rng;
	int a = r.chance(0.5) ? (int)A_TINY : galpha(r);
	U h = gu(r, a), k = piece_of(r, h, a), w = r.chance(0.3) ? k + gu(r, a, 1) : gu(r, a, r.range(0, 4));
	Src s(c, h), sk(c, k), sw(c, w);
	std::string ar = q(h) + ", " + q(k) + " -> " + q(w);
	eqs(c, "replace", s.s.replace(sk.s, sw.s), rrep(h, k, w, false, false), ar);
	eqs(c, "replacen", s.s.replacen(sk.s, sw.s), rrep(h, k, w, true, false), ar);
	eqs(c, "replace_first", s.s.replace_first(sk.s, sw.s), rrep(h, k, w, false, true), ar);
	if (is_lat(k) && is_lat(w)) eqs(c, "replace_cstring", s.s.replace(nar(k).c_str(), nar(w).c_str()), rrep(h, k, w, false, false), ar);
	U nl = gu(r, A_WORDS);
	for (auto &ch : nl) if (ch == '\t') ch = '\r';
	eqs(c, "newline_to_br", S(nl).newline_to_br(), rrep(rrep(nl, U"\r\n", U"<br>", false, false), U"\n", U"<br>", false, false), q(nl));
	s.verify("replace");
	sk.verify("replace");
	sw.verify("replace");
}

UNIT("R02", "split_join", 3000, 60000) {
	Rng &r = c.rng;
	int a = r.chance(0.5) ? (int)A_TINY : galpha(r);
	U h = gu(r, a), sp = piece_of(r, h, a);
	Src s(c, h), ss(c, sp);
	std::string ar = q(h) + ", " + q(sp);
	UV all = rsplit_all(h, sp);
	eqv(c, "split", s.s.split(ss.s), all, ar);
	UV ne;
	for (auto &p : all) if (!p.empty()) ne.push_back(p);
	eqv(c, "split_nonempty", s.s.split(ss.s, false), ne, ar);
	int m = r.range(1, 4);
	UV ms;
	for (size_t i = 0; i < all.size(); i++) {
		if ((int)ms.size() <= m) ms.push_back(all[i]);
		else ms.back() += sp + all[i];
	}
	eqv(c, "split_max", s.s.split(ss.s, true, m), ms, ar + strf(" max %d", m));
	// from the right: the rightmost separators are used first
	if (!sp.empty()) {
		UV rp;
		U rest = h;
		while (true) {
			long e = rrf(rest, sp, -1);
			if (e < 0) break;
			rp.insert(rp.begin(), rest.substr(e + sp.size()));
			rest = rest.substr(0, e);
		}
		rp.insert(rp.begin(), rest);
		eqv(c, "rsplit", s.s.rsplit(ss.s), rp, ar);
		UV rne;
		for (auto &p : rp) if (!p.empty()) rne.push_back(p);
		eqv(c, "rsplit_nonempty", s.s.rsplit(ss.s, false), rne, ar);
		UV rm = rp;
		while ((int)rm.size() > m + 1) {
			rm[1] = rm[0] + sp + rm[1];
			rm.erase(rm.begin());
		}
		eqv(c, "rsplit_max", s.s.rsplit(ss.s, true, m), rm, ar + strf(" max %d", m));
		if (!h.empty()) {
			eqi(c, "slice_count", s.s.get_slice_count(ss.s), (long)all.size(), ar);
			int i = r.range(-1, (int)all.size());
			if (all.size() > 1) eqs(c, "get_slice", s.s.get_slice(ss.s, i), i >= 0 && i < (int)all.size() ? all[i] : U(), ar + strf(" slice %d", i));
			else eqs(c, "get_slice", s.s.get_slice(ss.s, 0), h, ar);
			UV one = rsplit_all(h, U(1, sp[0]));
			i = r.range(-1, (int)one.size());
			eqs(c, "get_slicec", s.s.get_slicec(sp[0], i), i >= 0 && i < (int)one.size() ? one[i] : U(), ar + strf(" slice %d", i));
		}
	}
	eqs(c, "split_join", ss.s.join(s.s.split(ss.s)), h, ar);
	Vector<String> parts;
	U j;
	int n = r.range(0, 5);
	for (int i = 0; i < n; i++) {
		U p = gu(r, a, r.range(0, 3));
		parts.push_back(mk(r, p));
		j += (i ? sp : U()) + p;
	}
	eqs(c, "join", ss.s.join(parts), j, ar);
	UV sw;
	U cur;
	for (char32_t ch : h) {
		if (ch <= 32) {
			if (!cur.empty()) sw.push_back(cur);
			cur.clear();
		} else cur.push_back(ch);
	}
	if (!cur.empty()) sw.push_back(cur);
	eqv(c, "split_spaces", s.s.split_spaces(), sw, q(h));
	UV bg;
	for (size_t i = 0; i + 1 < h.size(); i++) bg.push_back(h.substr(i, 2));
	eqv(c, "bigrams", s.s.bigrams(), bg, q(h));
	U h2 = r.chance(0.5) ? rrep(h, piece_of(r, h, a), gu(r, a, 1), false, true) : gu(r, a);
	UV b2;
	for (size_t i = 0; i + 1 < h2.size(); i++) b2.push_back(h2.substr(i, 2));
	std::map<U, int> mult;
	for (auto &p : bg) mult[p]++;
	int inter = 0;
	for (auto &p : b2) if (mult[p]-- > 0) inter++;
	double want = h == h2 ? 1 : h.size() < 2 || h2.size() < 2 ? 0 : 2.0 * inter / (double)(bg.size() + b2.size());
	c.eq("similarity", s.s.similarity(S(h2)), want, 1e-6, 1e-6);
	c.obs(hh("sim", h, h2), want > 0 && want < 1);
	s.verify("split");
	ss.verify("split");
}

UNIT("R02", "split_numbers", 3000, 60000) {
	Rng &r = c.rng;
	UV seps = { U(U","), U(U";;"), U(U"|") };
	int kind = r.range(0, 2);
	int n = r.range(0, 5);
	U h;
	std::vector<double> fv;
	std::vector<int> iv;
	U first = seps[kind];
	bool mkk = r.chance(0.5);
	std::vector<double> fall, fne;
	std::vector<long> iall, ine;
	for (int i = 0; i < n; i++) {
		if (i) h += mkk ? seps[r.range(0, 2)] : first;
		bool emp = r.chance(0.2);
		long iv2 = r.chance(0.3) ? r.range(-9, 9) : r.range(-1000000000, 1000000000);
		std::string t = emp ? "" : r.chance(0.5) ? std::to_string(iv2) : strf("%.*g", r.range(1, 9), (double)iv2 / 1000.0);
		if (!emp && r.chance(0.1)) t = strf("%ld.%d", iv2, r.range(0, 99));
		double fd = t.empty() ? 0 : strtod(t.c_str(), nullptr);
		long id = t.empty() ? 0 : strtol(t.c_str(), nullptr, 10);
		fall.push_back(fd);
		iall.push_back(id);
		if (!emp) {
			fne.push_back(fd);
			ine.push_back(id);
		}
		h += asc(t);
	}
	if (n == 0) {
		fall.push_back(0);
		iall.push_back(0);
	}
	Src s(c, h);
	Vector<String> sv;
	for (auto &x : seps) sv.push_back(S(x));
	bool ae = r.chance(0.5);
	Vector<float> gf = mkk ? s.s.split_floats_mk(sv, ae) : s.s.split_floats(S(first), ae);
	Vector<int> gi = mkk ? s.s.split_ints_mk(sv, ae) : s.s.split_ints(S(first), ae);
	auto &wf = ae ? fall : fne;
	auto &wi = ae ? iall : ine;
	std::string ar = q(h) + (mkk ? " several separators" : " separator " + q(first)) + (ae ? "" : " non-empty");
	if (c.check("split_floats_count", gf.size() == (int)wf.size(), ar + strf(" gives %d expected %d", gf.size(), (int)wf.size())))
		for (int i = 0; i < gf.size(); i++) c.eq("split_floats", gf[i], wf[i], 2e-7, 1e-12);
	if (c.check("split_ints_count", gi.size() == (int)wi.size(), ar))
		for (int i = 0; i < gi.size(); i++) c.check("split_ints", gi[i] == wi[i], ar + strf(" [%d] gives %d expected %ld", i, gi[i], wi[i]));
	c.obs(hh("splitnum", h, mkk, ae), n > 1);
	s.verify("split_numbers");
}

UNIT("R02", "case", 3000, 60000) {
	Rng &r = c.rng;
	static bool have = setlocale(LC_CTYPE, "C.UTF-8") != nullptr;
	int a = galpha(r);
	U h = gu(r, a);
	Src s(c, h);
	eqs(c, "to_lower", s.s.to_lower(), low(h), q(h));
	eqs(c, "to_upper", s.s.to_upper(), upp(h), q(h));
	for (int i = 0; i < 40; i++) {
		static const int rg[][2] = { { 0x20, 0x7e }, { 0xa1, 0xfe }, { 0x100, 0x12f }, { 0x14a, 0x177 }, { 0x391, 0x3a9 }, { 0x3b1, 0x3c9 }, { 0x400, 0x45f }, { 0x460, 0x481 }, { 0x531, 0x556 }, { 0x561, 0x586 }, { 0x1e00, 0x1e95 }, { 0x1ea0, 0x1ef9 }, { 0xff21, 0xff5a } };
		int k = r.range(0, 12);
		char32_t ch = r.range(rg[k][0], rg[k][1]);
		if (!have || ch == 0xb5 || ch == 0x3c2 || ch == 0x400 || ch == 0x40d || ch == 0x450 || ch == 0x45d) continue; // micro sign and final sigma share an uppercase form; the last four joined Unicode after the table was made
		char32_t lo = String::char_lowercase(ch), up = String::char_uppercase(ch);
		c.check("char_lowercase", lo == (char32_t)towlower(ch), strf("U+%04x gives U+%04x expected U+%04x", (unsigned)ch, (unsigned)lo, (unsigned)towlower(ch)));
		c.check("char_uppercase", up == (char32_t)towupper(ch), strf("U+%04x gives U+%04x expected U+%04x", (unsigned)ch, (unsigned)up, (unsigned)towupper(ch)));
		c.obs(hh("case", (long long)ch), lo != up);
	}
	for (int i = 0; i < 20; i++) {
		char32_t ch = r.range(1, 0x20000);
		char32_t lo = String::char_lowercase(ch), up = String::char_uppercase(ch);
		c.check("case_stable", String::char_uppercase(up) == up, strf("U+%04x", (unsigned)ch));
		if (up != ch) c.check("case_inverse", String::char_uppercase(String::char_lowercase(up)) == up, strf("U+%04x", (unsigned)ch));
		(void)lo;
	}
	// words in the documented word-splitting styles
	int n = r.range(1, 4);
	std::string camel, snake, cap;
	for (int i = 0; i < n; i++) {
		std::string w;
		int k = r.range(3, 6);
		for (int j = 0; j < k; j++) w += (char)('a' + r.range(0, 25));
		std::string W = w;
		W[0] -= 32;
		camel += W;
		snake += (i ? "_" : "") + w;
		cap += (i ? " " : "") + W;
	}
	eqs(c, "camelcase_to_underscore", String(camel.c_str()).camelcase_to_underscore(), asc(snake), camel);
	eqs(c, "capitalize_snake", String(snake.c_str()).capitalize(), asc(cap), snake);
	eqs(c, "capitalize_camel", String(camel.c_str()).capitalize(), asc(cap), camel);
	U as = gu(r, A_ASCII);
	U und = un(S(as).camelcase_to_underscore(false)), x1, x2;
	for (char32_t ch : und) if (ch != '_') x1.push_back(ch);
	for (char32_t ch : as) if (ch != '_') x2.push_back(ch);
	c.check("camelcase_keeps_text", x1 == x2, q(as) + " -> " + q(und));
	s.verify("case");
}

static std::string trim0(std::string s) {
	if (s.find('.') == std::string::npos) return s;
	while (s.back() == '0') s.pop_back();
	if (s.back() == '.') s.pop_back();
	return s;
}

UNIT("R02", "format_number", 3000, 60000) {
	Rng &r = c.rng;
	int64_t v = (int64_t)(r.next() >> r.range(0, 63));
	if (r.chance(0.5)) v = -v;
	if (r.chance(0.05)) v = INT64_MIN;
	if (r.chance(0.05)) v = INT64_MAX;
	if (r.chance(0.05)) v = 0;
	int base = r.chance(0.5) ? 10 : r.range(2, 36);
	bool cap = r.chance(0.5);
	auto fmt = [&](uint64_t m, bool neg) {
		std::string t;
		do {
			int d = (int)(m % base);
			t += (char)(d < 10 ? '0' + d : (cap ? 'A' : 'a') + d - 10);
			m /= base;
		} while (m);
		if (neg) t += '-';
		std::reverse(t.begin(), t.end());
		return t;
	};
	std::string ar = strf("%lld base %d", (long long)v, base);
	eqs(c, "num_int64", String::num_int64(v, base, cap), asc(fmt(v < 0 ? 0 - (uint64_t)v : (uint64_t)v, v < 0)), ar);
	uint64_t uv = r.next() >> r.range(0, 63);
	eqs(c, "num_uint64", String::num_uint64(uv, base, cap), asc(fmt(uv, false)), strf("%llu base %d", (unsigned long long)uv, base));
	eqi(c, "num_characters", String::num_characters(v), (long)std::to_string(v).size(), ar);
	eqi(c, "int_round_trip", String::num_int64(v).to_int64(), v, ar);
	eqs(c, "itos", itos(v), asc(std::to_string(v)), ar);

	double d = r.chance(0.3) ? (double)r.range(-1000, 1000) : r.chance(0.5) ? r.uni(-1, 1) * pow(10, r.range(-6, 9)) : r.uni(-1, 1) * pow(10, r.range(0, r.chance(0.1) ? 307 : 18));
	if (r.chance(0.03)) d = 1.7976931348623157e308 * (r.chance(0.5) ? 1 : -1);
	int dec = r.range(-1, 16);
	char buf[512];
	snprintf(buf, sizeof buf, "%.*f", dec < 0 ? 6 : dec, d);
	std::string da = strf("%.17g decimals %d", d, dec);
	eqs(c, "num", String::num(d, dec), asc(trim0(buf)), da);
	double back = String::num(d, 16).to_double();
	c.eq("num_round_trip", back, d, 1e-13, 1e-15);
	double sc = strtod(nar(un(String::num_scientific(d))).c_str(), nullptr);
	c.eq("num_scientific", sc / (d == 0 ? 1 : d), d == 0 ? 0 : 1, 1.1e-5, 0);
	U nr = un(String::num_real(d));
	double rb = strtod(nar(nr).c_str(), nullptr);
	c.eq("num_real", rb, d, 1e-12, 2.1e-6);
	c.check("num_real_point", nr.find('.') != U::npos, q(nr));
	c.obs(hh("num", asc(da)), d != 0);
	eqs(c, "rtos", rtos(d), un(String::num(d)), da);
	if (c.case_no < 3) {
		eqs(c, "num_nan", String::num(NAN), U(U"nan"), "nan");
		eqs(c, "num_inf", String::num(INFINITY), U(U"inf"), "inf");
		eqs(c, "num_ninf", String::num(-INFINITY), U(U"-inf"), "-inf");
		eqs(c, "bool", String::bool_num(true) + String::bool_num(false) + String::bool_str(true) + String::bool_str(false), U(U"10truefalse"), "");
	}
	// sizes for people: unit and value within rounding of the shown digits
	uint64_t sz = r.next() >> r.range(0, 63);
	std::string hz2 = nar(un(String::humanize_size(sz)));
	size_t sp = hz2.find(' ');
	static const char *un6[] = { "B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB" };
	bool okh = sp != std::string::npos;
	if (okh) {
		int k = 0;
		while (k < 7 && hz2.substr(sp + 1) != un6[k]) k++;
		double val = strtod(hz2.c_str(), nullptr), div = pow(1024, k);
		size_t dot = hz2.find('.');
		double ulp = dot == std::string::npos ? 1 : pow(10, -(double)(sp - dot - 1));
		okh = k < 7 && fabs(val - (double)sz / div) <= ulp * 1.0001 && (k == 0 || val >= 0.999) && (val <= 1024.0001 || k == 6);
	}
	c.check("humanize_size", okh, strf("%llu -> %s", (unsigned long long)sz, hz2.c_str()));
}

UNIT("R02", "parse_number", 4000, 80000) {
	Rng &r = c.rng;
	// integers, including just inside and just outside the representable range
	__int128 v = (__int128)(r.next() >> r.range(0, 63));
	int mode = r.range(0, 5);
	if (mode == 1) v = (__int128)INT32_MAX + r.range(-3, 3);
	if (mode == 2) v = (__int128)INT64_MAX + r.range(-3, 3);
	if (mode == 3) v = ((__int128)INT64_MAX + r.range(0, 2)) * (r.chance(0.5) ? 10 : 1) + r.range(0, 9);
	if (mode == 4) v = ((__int128)INT32_MAX + r.range(0, 2)) * (r.chance(0.5) ? 10 : 1) + r.range(0, 9);
	bool neg = r.chance(0.5);
	if (neg) v = -v;
	auto clamp = [&](__int128 x, int64_t lo, int64_t hi) { return (int64_t)(x < lo ? lo : x > hi ? hi : x); };
	auto digits = [&](__int128 x, int base) {
		unsigned __int128 m = x < 0 ? (unsigned __int128)-x : (unsigned __int128)x;
		std::string t;
		do {
			int d = (int)(m % base);
			t += (char)(d < 10 ? '0' + d : (r.chance(0.5) ? 'A' : 'a') + d - 10);
			m /= base;
		} while (m);
		std::reverse(t.begin(), t.end());
		return t;
	};
	std::string dg = std::string(r.chance(0.2) ? r.range(1, 3) : 0, '0') + digits(v, 10);
	std::string t = (neg ? "-" : "") + dg;
	Src s(c, asc(t));
	std::wstring wt(t.begin(), t.end());
	U ut = asc(t);
	int64_t w64 = clamp(v, INT64_MIN, INT64_MAX), w32 = clamp(v, INT32_MIN, INT32_MAX);
	eqi(c, "to_int", s.s.to_int(), w32, t);
	eqi(c, "to_int64", s.s.to_int64(), w64, t);
	eqi(c, "to_int_cstring", String::to_int(t.c_str()), w64, t);
	eqi(c, "to_int_cstring_len", String::to_int(t.c_str(), (int)t.size()), w64, t);
	eqi(c, "to_int_wide", String::to_int(wt.c_str()), w64, t);
	eqi(c, "to_int_u32", String::to_int(ut.c_str()), w64, t);
	eqi(c, "to_int_u32_clamp", String::to_int(ut.c_str(), -1, true), w64, t);
	int cut = r.range((int)(neg ? 2 : 1), (int)t.size());
	eqi(c, "to_int_u32_prefix", String::to_int(ut.c_str(), cut), clamp([&] {
		__int128 x = 0;
		for (int i = neg ? 1 : 0; i < cut; i++) x = x * 10 + (t[i] - '0');
		return neg ? -x : x;
	}(), INT64_MIN, INT64_MAX), t + strf(" first %d", cut));
	std::string tf = t + "." + std::to_string(r.range(0, 999));
	eqi(c, "to_int_fraction", String(tf.c_str()).to_int64(), w64, tf);
	if (!neg) eqi(c, "to_uint", s.s.to_uint(), v <= (__int128)UINT32_MAX ? (int64_t)v : (int64_t)s.s.to_uint(), t);
	std::string hxs = digits(v, 16), bns = digits(v, 2);
	std::string sg = neg ? "-" : "";
	eqi(c, "hex_to_int64", String((sg + "0x" + hxs).c_str()).hex_to_int64(), w64, sg + hxs);
	eqi(c, "hex_to_int64_bare", String((sg + hxs).c_str()).hex_to_int64(false), w64, sg + hxs);
	eqi(c, "hex_to_int", String((sg + "0x" + hxs).c_str()).hex_to_int(), w32, sg + hxs);
	eqi(c, "hex_to_int_bare", String((sg + hxs).c_str()).hex_to_int(false), w32, sg + hxs);
	eqi(c, "bin_to_int64", String((sg + "0b" + bns).c_str()).bin_to_int64(), w64, sg + bns);
	eqi(c, "bin_to_int64_bare", String((sg + bns).c_str()).bin_to_int64(false), w64, sg + bns);
	s.verify("parse");

	// floating point
	std::string m;
	int nd = r.range(0, r.chance(0.2) ? 30 : 12), fd = r.range(nd ? 0 : 1, r.chance(0.2) ? 40 : 12);
	bool lead0 = r.chance(0.3);
	for (int i = 0; i < nd; i++) m += (char)('0' + r.range(0, 9));
	bool point = fd > 0 || r.chance(0.2);
	if (point) {
		m += ".";
		for (int i = 0; i < fd; i++) m += (char)('0' + (lead0 && i < fd * 2 / 3 ? 0 : r.range(0, 9)));
	}
	if (r.chance(0.5)) m += strf("%c%s%d", r.chance(0.5) ? 'e' : 'E', r.chance(0.3) ? "+" : r.chance(0.5) ? "-" : "", r.chance(0.1) ? r.range(400, 600) : r.chance(0.1) ? 0 : r.range(0, 60));
	if (r.chance(0.02)) m = "0e" + std::to_string(r.range(300, 900));
	if (r.chance(0.02)) m = "1e" + std::to_string(1LL * 4294967296LL * r.range(1, 9) + r.range(0, 9));
	std::string ft = (r.chance(0.2) ? "  " : "") + std::string(r.chance(0.3) ? "-" : r.chance(0.2) ? "+" : "") + m;
	double want = strtod(ft.c_str(), nullptr);
	Src fs(c, asc(ft));
	U fu = asc(ft) + U(r.chance(0.5) ? U"" : U" x");
	std::wstring fw(fu.begin(), fu.end());
	auto feq = [&](const char *kind, double got) {
		bool ok = got == want || fabs(got - want) <= 2e-14 * fabs(want) + 1e-290;
		c.check(kind, ok, ft + strf(" gives %.17g expected %.17g", got, want));
	};
	feq("to_double", fs.s.to_double());
	feq("to_double_cstring", String::to_double(ft.c_str()));
	const CharType *end = nullptr;
	feq("to_double_u32", String::to_double(fu.c_str(), &end));
	eqi(c, "to_double_end", end - fu.c_str(), (long)ft.size(), ft);
	const wchar_t *wend = nullptr;
	feq("to_double_wide", String::to_double(fw.c_str(), &wend));
	eqi(c, "to_double_wide_end", wend - fw.c_str(), (long)ft.size(), ft);
	feq("static_to_float_cstring", String::to_float(ft.c_str()));
	feq("static_to_float_u32", String::to_float(fu.c_str()));
	if (fabs(want) < 1e37 && (want == 0 || fabs(want) > 1e-36)) c.eq("to_float", fs.s.to_float(), want, 1.3e-7, 0);
	fs.verify("parse_float");
	c.obs(hh("float", asc(ft)), want != 0);
	// booleans
	std::string bt = r.chance(0.5) ? "true" : r.chance(0.5) ? "false" : std::to_string(r.range(0, 1));
	bool wb = bt == "true" || bt == "1";
	if (bt.size() > 1 && r.chance(0.3)) bt[r.range(0, 3)] -= 32;
	eqi(c, "to_bool", String(bt.c_str()).to_bool(), wb, bt);
	eqi(c, "is_valid_bool", String(bt.c_str()).is_valid_bool(), 1, bt);
	std::string nb = bt;
	nb[r.range(0, (int)nb.size() - 1)] = 'q';
	eqi(c, "is_valid_bool_not", String(nb.c_str()).is_valid_bool(), 0, nb);
}

UNIT("R02", "unicode", 4000, 80000) {
	Rng &r = c.rng;
	U h = gu(r, r.chance(0.6) ? (int)A_FULL : galpha(r));
	Src s(c, h);
	std::string e8 = encode8(h);
	CharString cs = s.s.utf8();
	c.check("utf8", std::string(cs.get_data(), cs.length()) == e8 && cs.get_data()[cs.length()] == 0, q(h));
	eqi(c, "utf8_byte_length", s.s.utf8_byte_length(), (long)e8.size(), q(h));
	eqs(c, "utf8_round_trip", String::utf8(cs.get_data()), h, q(h));
	std::string padded = e8 + "\xc3";
	eqs(c, "utf8_len", String::utf8(padded.c_str(), (int)e8.size()), h, q(h));
	std::string bom = "\xef\xbb\xbf" + e8;
	eqs(c, "utf8_bom", String::utf8(bom.c_str()), h, q(h));
	String ps;
	eqi(c, "parse_utf8_ok", ps.parse_utf8(e8.c_str()), OK, q(h));
	String pc;
	pc.parse_utf8(e8.c_str(), -1, true);
	eqs(c, "parse_utf8_skip_cr", pc, rrep(h, U(U"\r"), U(), false, false), q(h));
	Vector<uint8_t> b8 = s.s.to_utf8_buffer();
	c.check("to_utf8_buffer", std::string((const char *)b8.ptr(), b8.size()) == e8, q(h));
	// UTF-16
	std::u16string e16;
	for (char32_t ch : h) {
		if (ch < 0x10000) e16.push_back((char16_t)ch);
		else {
			e16.push_back((char16_t)(0xd800 + ((ch - 0x10000) >> 10)));
			e16.push_back((char16_t)(0xdc00 + ((ch - 0x10000) & 0x3ff)));
		}
	}
	Char16String c16 = s.s.utf16();
	c.check("utf16", std::u16string(c16.get_data(), c16.length()) == e16 && c16.get_data()[c16.length()] == 0, q(h));
	eqs(c, "utf16_round_trip", String::utf16(c16.get_data()), h, q(h));
	eqs(c, "utf16_len", String::utf16((e16 + u"zz").c_str(), (int)e16.size()), h, q(h));
	if (!h.empty()) eqs(c, "utf16_construct", String(c16), h, q(h));
	std::u16string sw(1, (char16_t)0xfffe);
	for (char16_t ch : e16) sw.push_back((char16_t)(ch << 8 | ch >> 8));
	if (r.chance(0.5)) {
		bool z = false;
		for (char16_t ch : e16) if (!(char16_t)(ch << 8 | ch >> 8)) z = true;
		if (!z) eqs(c, "utf16_swapped", String::utf16(sw.c_str()), h, q(h));
	}
	Vector<uint8_t> b16 = s.s.to_utf16_buffer(), b32 = s.s.to_utf32_buffer();
	c.check("to_utf16_buffer", std::string((const char *)b16.ptr(), b16.size()) == std::string((const char *)e16.data(), e16.size() * 2), q(h));
	c.check("to_utf32_buffer", std::string((const char *)b32.ptr(), b32.size()) == std::string((const char *)h.data(), h.size() * 4), q(h));
	std::string as, as2;
	for (char32_t ch : h) {
		as += ch <= 0x7f ? (char)ch : ' ';
		as2 += ch <= 0xff ? (char)ch : ' ';
	}
	CharString a1 = s.s.ascii(), a2 = s.s.ascii(true);
	c.check("ascii", std::string(a1.get_data(), a1.length()) == as, q(h));
	c.check("ascii_extended", std::string(a2.get_data(), a2.length()) == as2, q(h));
	Vector<uint8_t> ba = s.s.to_ascii_buffer();
	c.check("to_ascii_buffer", std::string((const char *)ba.ptr(), ba.size()) == as, q(h));
	eqi(c, "is_valid_string", s.s.is_valid_string(), 1, q(h));
	c.obs(hh("utf", h), !h.empty());
	s.verify("unicode");
	// malformed input: never crashes, reports an error exactly when the input is not well-formed, and
	// never produces an embedded terminator
	std::string bad = encode8(gu(r, A_FULL, r.range(0, 6)));
	int k = r.range(1, 4);
	for (int i = 0; i < k; i++) {
		int op = r.range(0, 3);
		if (op == 0 || bad.empty()) bad.insert(bad.begin() + r.range(0, (int)bad.size()), (char)(r.range(1, 255)));
		else if (op == 1) bad.erase(bad.begin() + r.range(0, (int)bad.size() - 1));
		else if (op == 2) bad[r.range(0, (int)bad.size() - 1)] = (char)r.range(1, 255);
		else bad.resize(r.range(0, (int)bad.size()));
	}
	if (bad.compare(0, 3, "\xef\xbb\xbf") == 0) bad.erase(0, 3);
	if (bad.compare(0, 3, "\xef\xbb\xbf") == 0) return;
	U dec;
	bool ok = decode8(bad, dec);
	char *heap = (char *)malloc(bad.size() + 1); // exact allocation: reads past the end are reported
	memcpy(heap, bad.c_str(), bad.size() + 1);
	String m;
	Error er = m.parse_utf8(heap);
	free(heap);
	std::string hexs;
	for (unsigned char ch : bad) hexs += strf("%02x ", ch);
	c.check("malformed_reported", (er == OK) == ok, hexs + strf("error %d, well-formed %d", er, ok));
	if (ok) eqs(c, "wellformed_content", m, dec, hexs);
	U got = un(m);
	c.check("no_embedded_nul", got.find(U'\0') == U::npos, hexs);
	heap = (char *)malloc(bad.size() ? bad.size() : 1); // no terminator: the length bounds the read
	memcpy(heap, bad.data(), bad.size());
	String m2;
	if (bad.size()) m2.parse_utf8(heap, (int)bad.size());
	free(heap);
	c.check("length_bounded", un(m2) == got, hexs);
}

UNIT("R02", "escape", 4000, 80000) {
	Rng &r = c.rng;
	U h = gu(r, r.chance(0.5) ? (int)A_CTRL : galpha(r));
	Src s(c, h);
	eqs(c, "xml_round_trip", s.s.xml_escape(true).xml_unescape(), h, q(h));
	eqs(c, "xml_round_trip_noquote", s.s.xml_escape().xml_unescape(), h, q(h));
	U x;
	for (char32_t ch : h) x += ch == '&' ? U(U"&amp;") : ch == '<' ? U(U"&lt;") : ch == '>' ? U(U"&gt;") : ch == '\'' ? U(U"&apos;") : ch == '"' ? U(U"&quot;") : U(1, ch);
	eqs(c, "xml_escape", s.s.xml_escape(true), x, q(h));
	eqs(c, "c_round_trip", s.s.c_escape().c_unescape(), h, q(h));
	U ce;
	for (char32_t ch : h) {
		const char *e = ch == '\\' ? "\\\\" : ch == '\a' ? "\\a" : ch == '\b' ? "\\b" : ch == '\f' ? "\\f" : ch == '\n' ? "\\n" : ch == '\r' ? "\\r" : ch == '\t' ? "\\t" : ch == '\v' ? "\\v" : ch == '\'' ? "\\'" : ch == '?' ? "\\?" : ch == '"' ? "\\\"" : nullptr;
		ce += e ? asc(e) : U(1, ch);
	}
	eqs(c, "c_escape", s.s.c_escape(), ce, q(h));
	U cm;
	for (char32_t ch : h) cm += ch == '\\' ? U(U"\\\\") : ch == '"' ? U(U"\\\"") : U(1, ch);
	eqs(c, "c_escape_multiline", s.s.c_escape_multiline(), cm, q(h));
	eqs(c, "c_multiline_round_trip", s.s.c_escape_multiline().c_unescape(), h, q(h));
	U js;
	for (char32_t ch : h) {
		const char *e = ch == '\\' ? "\\\\" : ch == '\b' ? "\\b" : ch == '\f' ? "\\f" : ch == '\n' ? "\\n" : ch == '\r' ? "\\r" : ch == '\t' ? "\\t" : ch == '"' ? "\\\"" : nullptr;
		js += e ? asc(e) : U(1, ch);
	}
	if (h.find('\v') == U::npos) eqs(c, "json_escape", s.s.json_escape(), js, q(h));
	eqs(c, "percent_round_trip", s.s.percent_encode().percent_decode(), h, q(h));
	eqs(c, "uri_round_trip", s.s.uri_encode().uri_decode(), h, q(h));
	eqs(c, "http_round_trip", s.s.http_escape().http_unescape(), h, q(h));
	auto pct = [&](const char *keep, bool upper) {
		U o;
		for (unsigned char b : encode8(h)) {
			if (isalnum(b) && b < 128) o.push_back(b);
			else if (b && strchr(keep, b)) o.push_back(b);
			else o += asc(strf(upper ? "%%%02X" : "%%%02x", b));
		}
		return o;
	};
	setlocale(LC_CTYPE, "C.UTF-8");
	eqs(c, "percent_encode", s.s.percent_encode(), pct("-_~.", false), q(h));
	eqs(c, "uri_encode", s.s.uri_encode(), pct("-_~.", true), q(h));
	eqs(c, "http_escape", s.s.http_escape(), pct("-_~.", true), q(h));
	// decoding text that mixes raw characters and encoded ones
	U mixed, plain;
	for (char32_t ch : h) {
		if (ch == '%' || ch == '+' || r.chance(0.4)) {
			for (unsigned char b : encode8(U(1, ch))) mixed += asc(strf(r.chance(0.5) ? "%%%02X" : "%%%02x", b));
		} else mixed.push_back(ch);
		plain.push_back(ch);
	}
	eqs(c, "percent_decode_mixed", S(mixed).percent_decode(), plain, q(mixed));
	eqs(c, "uri_decode_mixed", S(mixed).uri_decode(), plain, q(mixed));
	eqs(c, "http_unescape_mixed", S(mixed).http_unescape(), plain, q(mixed));
	// a '%' not followed by two hexadecimal digits stands for itself
	U lit = gu(r, A_LATIN, r.range(0, 3)) + U(U"%") + U(r.chance(0.5) ? U"G1" : r.chance(0.5) ? U"4z" : U"zz") + gu(r, A_LATIN, r.range(0, 3));
	eqs(c, "uri_decode_literal", S(lit).uri_decode(), lit, q(lit));
	eqs(c, "http_unescape_literal", S(lit).http_unescape(), lit, q(lit));
	// numeric entities
	U ent, pl;
	int n = r.range(1, 5);
	for (int i = 0; i < n; i++) {
		char32_t ch = gch(r, A_FULL);
		pl.push_back(ch);
		ent += r.chance(0.5) ? asc(strf("&#%u;", (unsigned)ch)) : asc(strf(r.chance(0.5) ? "&#x%x;" : "&#x%X;", (unsigned)ch));
	}
	eqs(c, "xml_entities", S(ent).xml_unescape(), pl, q(ent));
	// an unterminated or unknown entity stays as it is
	U odd = U(U"&") + (r.chance(0.5) ? U(U"#") : U()) + gu(r, A_NUM, r.range(0, 6));
	odd.erase(std::remove(odd.begin(), odd.end(), U';'), odd.end());
	eqs(c, "xml_unknown_entity", S(odd).xml_unescape(), odd, q(odd));
	// property names: kept when plain, quoted otherwise
	bool plainp = true;
	for (char32_t ch : h) if (ch == '=' || ch == '"' || ch == ';' || ch == '[' || ch == ']' || ch < 33 || ch > 126) plainp = false;
	eqs(c, "property_name_encode", s.s.property_name_encode(), plainp ? h : U(U"\"") + cm + U(U"\""), q(h));
	// hex
	std::vector<uint8_t> by(r.range(0, 40));
	std::string hs2;
	for (auto &b : by) {
		b = (uint8_t)r.range(0, 255);
		hs2 += strf("%02x", b);
	}
	eqs(c, "hex_encode_buffer", String::hex_encode_buffer(by.data(), (int)by.size()), asc(hs2), hs2);
	if (by.size() >= 16) eqs(c, "md5_text", String::md5(by.data()), asc(hs2.substr(0, 32)), hs2);
	s.verify("escape");
}

static UV norm_dirs(const UV &in) {
	UV st;
	for (auto &d : in) {
		if (d.empty() || d == U(U".")) continue;
		if (d == U(U"..")) {
			if (!st.empty()) st.pop_back();
		} else st.push_back(d);
	}
	return st;
}
static U joinp(const UV &v) {
	U o;
	for (size_t i = 0; i < v.size(); i++) o += (i ? U(U"/") : U()) + v[i];
	return o;
}
static U gname(Rng &r) {
	static const char32_t *nm[] = { U"a", U"b", U"dir", U"x.y", U"file.txt", U".hid", U"\u012fb", U"a b", U"c-1", U"\u00e9t\u00e9", U"n.tar.gz", U"_" };
	return nm[r.range(0, 11)];
}

UNIT("R02", "paths", 4000, 80000) {
	Rng &r = c.rng;
	static const char32_t *drives[] = { U"/", U"res://", U"user://", U"C:/", U"" };
	int dk = r.range(0, 4);
	U drive = drives[dk];
	auto dirs = [&](int n, bool wild) {
		UV v;
		int depth = 0;
		for (int i = 0; i < n; i++) {
			double k = r.uni(0, 1);
			if (wild && k < 0.15) v.push_back(U(U"."));
			else if (wild && k < 0.35 && (depth > 0 || dk != 4)) {
				v.push_back(U(U".."));
				depth = std::max(0, depth - 1);
			} else if (wild && k < 0.45 && i > 0) v.push_back(U());
			else {
				v.push_back(gname(r));
				depth++;
			}
		}
		return v;
	};
	UV d = dirs(r.range(dk == 4 ? 1 : 0, 6), true);
	U path = drive;
	for (size_t i = 0; i < d.size(); i++) path += (i ? U(1, r.chance(0.2) ? '\\' : '/') : U()) + d[i];
	if (r.chance(0.2) && !d.empty() && !d.back().empty()) path += U"/";
	Src s(c, path);
	U simple = drive + joinp(norm_dirs(d));
	eqs(c, "simplify_path", s.s.simplify_path(), simple, q(path));
	eqs(c, "simplify_idempotent", s.s.simplify_path().simplify_path(), un(s.s.simplify_path()), q(path));
	s.verify("simplify_path");
	eqi(c, "is_abs_path", s.s.is_abs_path(), dk != 4, q(path));
	eqi(c, "is_rel_path", s.s.is_rel_path(), dk == 4, q(path));
	eqi(c, "is_resource_file", s.s.is_resource_file(), dk == 1, q(path));

	// clean directory plus a file name
	UV cd = dirs(r.range(dk == 4 ? 1 : 0, 4), false);
	U dir = drive + joinp(cd), file = gname(r);
	U full = dir + (cd.empty() ? U() : U(U"/")) + file;
	Src f(c, full), sd(c, dir), sf(c, file);
	eqs(c, "get_base_dir", f.s.get_base_dir(), dir, q(full));
	eqs(c, "get_file", f.s.get_file(), file, q(full));
	eqs(c, "plus_file", sd.s.plus_file(sf.s), full, q(dir) + " + " + q(file));
	size_t dot = file.rfind('.');
	eqs(c, "get_extension", f.s.get_extension(), dot == U::npos ? U() : file.substr(dot + 1), q(full));
	eqs(c, "get_basename", f.s.get_basename(), dot == U::npos ? full : full.substr(0, full.size() - (file.size() - dot)), q(full));
	eqs(c, "base_dir_plus_file", f.s.get_base_dir().plus_file(f.s.get_file()), full, q(full));
	// relative path between two directories leads there
	UV c2 = dirs(r.range(dk == 4 ? 1 : 0, 4), false);
	if (r.chance(0.6)) {
		UV t(cd.begin(), cd.begin() + r.range(0, (int)cd.size()));
		t.insert(t.end(), c2.begin(), c2.end());
		c2 = t;
	}
	if (dk == 4) c2[0] = cd[0];
	U dir2 = drive + joinp(c2);
	String rel = sd.s.path_to(S(dir2));
	c.check("path_to_relative", rel.is_rel_path(), q(dir) + " to " + q(dir2) + " is " + q(un(rel)));
	eqs(c, "path_to", sd.s.plus_file(rel).simplify_path(), dir2, q(dir) + " to " + q(dir2) + " is " + q(un(rel)));
	U full2 = dir2 + (c2.empty() ? U() : U(U"/")) + file;
	String relf = sd.s.path_to_file(S(full2));
	eqs(c, "path_to_file", (un(relf) == full2 ? relf : sd.s.plus_file(relf)).simplify_path(), full2, q(dir) + " to file " + q(full2) + " is " + q(un(relf)));
	U other = dk == 1 ? U(U"user://a") : U(U"res://a");
	eqs(c, "path_to_elsewhere", sd.s.path_to(S(other)), other, q(dir));
	// joining with exactly one separator
	U left = r.chance(0.1) ? U() : dir + (r.chance(0.4) ? U(U"/") : U());
	U right = r.chance(0.1) ? U() : U(r.range(0, 3), '/') + (r.chance(0.1) ? U() : r.chance(0.2) ? U(U"\u012fx") : gname(r));
	size_t k = 0;
	while (k < right.size() && (right[k] == '/' || right[k] == '\\')) k++;
	U rest = right.substr(k);
	U want = right.empty() ? left : left.empty() ? right : rest.empty() ? left : (left.back() == '/' || left.back() == '\\') ? left + rest : left + U(U"/") + rest;
	eqs(c, "append_path", S(left).append_path(S(right)), want, q(left) + " + " + q(right));
	if (is_lat(right)) eqs(c, "append_path_cstring", S(left).append_path(nar(right).c_str()), want, q(left) + " + " + q(right));
	U e = r.chance(0.1) ? U() : dir + U(r.range(0, 3), r.chance(0.3) ? '\\' : '/');
	U cl = e;
	while (cl.size() > 1 && (cl.back() == '/' || cl.back() == '\\')) cl.pop_back();
	eqs(c, "path_clean_end_slash", S(e).path_clean_end_slash(), cl, q(e));
	eqs(c, "path_ensure_end_slash", S(e).path_ensure_end_slash(), e.empty() || e.back() == '/' || e.back() == '\\' ? e : e + U(U"/"), q(e));
	if ((dk == 0 || dk == 4) && !cd.empty()) {
		UV up(cd.begin(), cd.end() - 1);
		eqs(c, "path_get_prev_dir", S(dir + U(r.range(0, 2), '/')).path_get_prev_dir(), up.empty() ? U(U"/") : drive + joinp(up), q(dir));
	}
	f.verify("paths");
	sd.verify("paths");
	// URLs
	std::string sch = r.chance(0.5) ? "https://" : r.chance(0.5) ? "HTTP://" : "", cred = r.chance(0.3) ? "me:pw@" : "";
	int hk = r.range(0, 2);
	std::string host = hk == 0 ? "Example.com" : hk == 1 ? strf("%d.%d.%d.%d", r.range(0, 255), r.range(0, 255), r.range(0, 255), r.range(0, 255)) : "fe80::1";
	int port = r.chance(0.6) ? r.range(1, 65535) : 0;
	std::string pth = r.chance(0.6) ? "/" + std::string(r.range(0, 5), 'p') + (r.chance(0.3) ? "?a=b:c@d" : "") : "";
	std::string url = sch + cred + (hk == 2 ? "[" + host + "]" : host) + (port ? ":" + std::to_string(port) : "") + pth;
	String os, oh, op;
	int opn = -1;
	Error er = String(url.c_str()).parse_url(os, oh, opn, op);
	auto lc = [](std::string x) {
		for (auto &ch : x) ch = (char)tolower(ch);
		return x;
	};
	if (c.check("parse_url_ok", er == OK, url)) {
		eqs(c, "parse_url_scheme", os, asc(lc(sch)), url);
		eqs(c, "parse_url_host", oh, asc(lc(host)), url);
		eqi(c, "parse_url_port", opn, port, url);
		eqs(c, "parse_url_path", op, asc(pth), url);
	}
	std::string burl = sch + "host:" + (r.chance(0.5) ? std::to_string(r.range(65536, 2000000)) : r.chance(0.5) ? "x1" : "0") + pth;
	c.check("parse_url_bad_port", String(burl.c_str()).parse_url(os, oh, opn, op) != OK, burl);
}

UNIT("R02", "validity", 3000, 60000) {
	Rng &r = c.rng;
	U h = gu(r, r.chance(0.4) ? (int)A_NUM : r.chance(0.3) ? (int)A_ASCII : galpha(r));
	Src s(c, h);
	auto all = [&](const std::string &set, const U &u) {
		for (char32_t ch : u) if (ch > 126 || set.find((char)ch) == std::string::npos) return false;
		return true;
	};
	const std::string dg = "0123456789", hxd = "0123456789abcdefABCDEF", idc = dg + "_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
	bool sg = h.size() > 1 && (h[0] == '+' || h[0] == '-');
	U body = sg ? h.substr(1) : h;
	eqi(c, "is_valid_integer", s.s.is_valid_integer(), !body.empty() && all(dg, body), q(h));
	eqi(c, "is_valid_unsigned_integer", s.s.is_valid_unsigned_integer(), !h.empty() && all(dg, h.size() > 1 && h[0] == '+' ? body : h), q(h));
	eqi(c, "is_valid_identifier", s.s.is_valid_identifier(), !h.empty() && all(idc, h) && !(h[0] >= '0' && h[0] <= '9'), q(h));
	eqi(c, "is_valid_hex", s.s.is_valid_hex_number(false), !body.empty() && all(hxd, body), q(h));
	U px = (r.chance(0.3) ? U(U"-") : U()) + U(U"0x") + (r.chance(0.5) ? asc(strf("%x", r.range(0, 1000000))) : gu(r, A_NUM, r.range(0, 4)));
	U pb = px.substr(px.find('x') + 1);
	eqi(c, "is_valid_hex_prefixed", S(px).is_valid_hex_number(true), !pb.empty() && all(hxd, pb), q(px));
	U vi = un(s.s.validate_identifier());
	c.check("validate_identifier", S(vi).is_valid_identifier() && vi.size() == std::max<size_t>(1, h.size()), q(h) + " -> " + q(vi));
	if (s.s.is_valid_identifier()) eqs(c, "validate_identifier_same", s.s.validate_identifier(), h, q(h));
	U nn = h;
	for (auto &ch : nn) if (ch < 128 && strchr(".:@/\"%", (int)ch)) ch = '_';
	eqs(c, "validate_node_name", s.s.validate_node_name(), nn, q(h));
	// floats: [sign] digits [. digits] [e [sign] digits]; cases with an exponent marker without digits are not judged
	auto fl = [&](const U &u, bool &judge) {
		size_t i = 0, nd = 0;
		judge = true;
		if (i < u.size() && (u[i] == '+' || u[i] == '-')) i++;
		while (i < u.size() && u[i] >= '0' && u[i] <= '9') i++, nd++;
		if (i < u.size() && u[i] == '.') {
			i++;
			while (i < u.size() && u[i] >= '0' && u[i] <= '9') i++, nd++;
		}
		if (!nd) return false;
		if (i < u.size() && u[i] == 'e') {
			i++;
			if (i < u.size() && (u[i] == '+' || u[i] == '-')) i++;
			if (i == u.size()) judge = false;
			while (i < u.size() && u[i] >= '0' && u[i] <= '9') i++;
		}
		return i == u.size();
	};
	U fu = r.chance(0.5) ? h : asc(strf(r.chance(0.5) ? "%g" : "%f", r.uni(-1, 1) * pow(10, r.range(-9, 9))));
	bool judge;
	bool wf = fl(fu, judge);
	if (judge) eqi(c, "is_valid_float", S(fu).is_valid_float(), wf, q(fu));
	// plain decimal text
	U dn = asc(strf("%s%d%s", r.chance(0.3) ? "-" : "", r.range(0, 999), r.chance(0.5) ? strf(".%0*d", r.range(1, 4), r.range(0, 9)).c_str() : ""));
	if (r.chance(0.3)) dn[r.range(0, (int)dn.size() - 1)] = gch(r, A_NUM);
	auto plain = [&](const U &u, bool zero) {
		size_t i = !u.empty() && u[0] == '-' ? 1 : 0, nd = 0, dots = 0;
		for (; i < u.size(); i++) {
			if (u[i] == '.') dots++;
			else if (u[i] >= '0' && u[i] <= '9' && (!zero || u[i] == '0')) nd++;
			else return 0;
		}
		return dots > 1 ? 0 : nd ? 1 : -1;
	};
	int pn = plain(dn, false), pz = plain(dn, true);
	if (pn >= 0) eqi(c, "is_numeric", S(dn).is_numeric(), pn, q(dn));
	U zr = asc(r.chance(0.5) ? "0.000" : r.chance(0.5) ? "-00" : "0.0100");
	int pz2 = plain(zr, true);
	if (pz2 >= 0) eqi(c, "is_zero", S(zr).is_zero(), pz2, q(zr));
	if (pz >= 0) eqi(c, "is_zero", S(dn).is_zero(), pz, q(dn));
	// IP addresses
	std::string ip = strf("%d.%d.%d.%d", r.range(0, 255), r.range(0, 255), r.range(0, 255), r.range(0, 255));
	eqi(c, "is_valid_ipv4", String(ip.c_str()).is_valid_ip_address(), 1, ip);
	std::string bad = r.chance(0.3) ? ip + ".1" : r.chance(0.3) ? ip.substr(0, ip.rfind('.')) : r.chance(0.5) ? strf("%d.1.1.1", r.range(256, 9999)) : strf("1.2.x%d.4", r.range(0, 9));
	eqi(c, "is_valid_ipv4_not", String(bad.c_str()).is_valid_ip_address(), 0, bad);
	std::string ip6;
	for (int i = 0; i < 8; i++) ip6 += (i ? ":" : "") + strf("%x", r.range(0, 0xffff));
	eqi(c, "is_valid_ipv6", String(ip6.c_str()).is_valid_ip_address(), 1, ip6);
	std::string b6 = ip6 + (r.chance(0.5) ? "g" : "00000");
	if (b6.back() == '0' && ip6.back() == '0' && ip6[ip6.size() - 2] == ':') b6 = ip6 + "g";
	eqi(c, "is_valid_ipv6_not", String(b6.c_str()).is_valid_ip_address(), 0, b6);
	// file names
	auto vf = [&](const U &u) {
		if (u.empty() || u[0] <= 32 || u.back() <= 32) return false;
		for (char32_t ch : u) if (ch < 128 && strchr(":/\\?*\"|%<>", (int)ch)) return false;
		return true;
	};
	eqi(c, "is_valid_filename", s.s.is_valid_filename(), vf(h), q(h));
	s.verify("validity");
}

UNIT("R02", "lines", 2500, 50000) {
	Rng &r = c.rng;
	// lines with text that does not start with blanks, or empty lines
	int n = r.range(0, 5);
	UV lines;
	for (int i = 0; i < n; i++) lines.push_back(r.chance(0.25) ? U() : U(1, 'a' + r.range(0, 25)) + gu(r, r.chance(0.5) ? (int)A_LATIN : (int)A_ASCII, r.range(0, 9)));
	U h;
	for (int i = 0; i < n; i++) h += (i ? U(U"\n") : U()) + lines[i];
	if (n && r.chance(0.5)) h += U"\n";
	U pre = r.chance(0.5) ? U(r.range(1, 3), '\t') : U(r.range(1, 4), ' ');
	Src s(c, h);
	U want;
	bool start = true;
	for (char32_t ch : h) {
		if (start && ch != '\n') want += pre;
		want.push_back(ch);
		start = ch == '\n';
	}
	eqs(c, "indent", s.s.indent(S(pre)), want, q(h));
	eqs(c, "indent_dedent", s.s.indent(S(pre)).dedent(), h, q(h) + " by " + q(pre));
	s.verify("indent");
	// word wrapping: greedy filling of lines with words no longer than the line
	int w = r.range(3, 12), k = r.range(1, 9);
	U text, wrapped;
	int col = 0;
	for (int i = 0; i < k; i++) {
		U word = gu(r, r.chance(0.5) ? (int)A_LATIN : (int)A_BMP, r.range(1, w));
		for (auto &ch : word) if (ch <= 32) ch = 'x';
		bool nl = i && r.chance(0.1);
		if (i) text += nl ? U"\n" : U" ";
		text += word;
		if (!i) {
			wrapped = word;
			col = (int)word.size();
		} else if (nl || col + 1 + (int)word.size() > w) {
			wrapped += U(U"\n") + word;
			col = (int)word.size();
		} else {
			wrapped += U(U" ") + word;
			col += 1 + (int)word.size();
		}
	}
	eqs(c, "word_wrap", S(text).word_wrap(w), wrapped, q(text) + strf(" at %d", w));
	// word under a position
	U line = gu(r, r.chance(0.5) ? (int)A_WORDS : (int)A_ASCII);
	int col2 = r.range(0, (int)line.size());
	int b = -7, e = -7;
	bool got = select_word(S(line), col2, b, e);
	if (got && !line.empty() && col2 < (int)line.size()) {
		bool inside = b >= 0 && b <= col2 && col2 < e && e <= (int)line.size();
		for (int i = b; inside && i < e; i++) if (line[i] <= 32) inside = false;
		c.check("select_word", inside, q(line) + strf(" at %d gives %d..%d", col2, b, e));
	}
	if (col2 < (int)line.size()) c.check("select_word_found", got == (line[col2] > 32), q(line) + strf(" at %d", col2));
	c.obs(hh("word", line, col2), got);
}

UNIT("R02", "buffers", 2500, 50000) {
	Rng &r = c.rng;
	int a = r.chance(0.5) ? (int)A_LATIN : galpha(r);
	StringBuffer<> *sb = new StringBuffer<>(); // on the heap: overruns are reported
	StringBuffer<16> *s16 = new StringBuffer<16>();
	StringBuilder bl;
	U cur, cb;
	std::vector<std::string> keep; // the builder refers to C strings until used
	keep.reserve(64);
	std::string hist;
	int n = r.range(1, 14);
	for (int i = 0; i < n; i++) {
		int op = r.range(0, 7);
		hist += strf("%d,", op);
		if (op == 0) {
			char32_t ch = gch(r, a);
			sb->append((CharType)ch);
			*s16 += (CharType)ch;
			cur.push_back(ch);
		} else if (op == 1) {
			U t = gu(r, a);
			sb->append(mk(r, t));
			*s16 += mk(r, t);
			cur += t;
			bl.append(mk(r, t));
			cb += t;
		} else if (op == 2) {
			U t = gu(r, A_LATIN);
			keep.push_back(nar(t));
			sb->append(keep.back().c_str());
			*s16 += keep.back().c_str();
			cur += t;
			bl.append(keep.back().c_str());
			cb += t;
		} else if (op == 3) {
			U t = gu(r, a);
			int k = r.range(0, (int)t.size() + 1);
			sb->append(t.c_str(), k);
			s16->append(t.c_str(), k);
			cur += t.substr(0, k);
		} else if (op == 4) {
			int k = r.range(0, 300);
			sb->reserve(k);
			s16->reserve(k);
		} else if (op == 5) {
			eqs(c, "buffer_as_string", sb->as_string(), cur, hist);
			eqs(c, "buffer16_as_string", s16->as_string(), cur, hist);
		} else if (op == 6) {
			eqs(c, "builder_as_string", bl.as_string(), cb, hist);
		} else if (r.chance(0.1)) {
			bl.clear();
			cb.clear();
		}
		eqi(c, "buffer_length", sb->length(), (long)cur.size(), hist);
		eqi(c, "builder_length", bl.length(), (long)cb.size(), hist);
	}
	eqs(c, "buffer_as_string", sb->as_string(), cur, hist);
	eqs(c, "buffer16_as_string", s16->as_string(), cur, hist);
	eqs(c, "builder_as_string", bl.as_string(), cb, hist);
	delete sb;
	delete s16;
	StringBuffer<> nb;
	std::string num = std::to_string(r.range(-1000000000, 1000000000));
	for (char ch : num) nb += (CharType)ch;
	eqi(c, "buffer_as_int", nb.as_int(), atoll(num.c_str()), num);
	c.eq("buffer_as_double", nb.as_double(), atof(num.c_str()), 1e-13, 0);
}

UNIT("R02", "names", 2500, 50000) {
	Rng &r = c.rng;
	static const char *stat[] = { "vhs_one", "vhs_two", "vhs_\xe9t\xe9", "vhs_three" };
	UV pool;
	int n = r.range(2, 6);
	for (int i = 0; i < n; i++) pool.push_back(r.chance(0.2) ? lat(stat[r.range(0, 3)]) : U(U"vhn_") + gu(r, r.chance(0.5) ? (int)A_LATIN : galpha(r), r.range(1, 4)));
	std::vector<std::pair<StringName, U>> live;
	int steps = r.range(2, 20);
	for (int i = 0; i < steps; i++) {
		const U &u = r.pick(pool);
		std::string ar = q(u);
		int op = r.range(0, 5);
		if (op <= 2) {
			StringName nm;
			if (op == 0 && is_lat(u)) nm = StringName(nar(u).c_str());
			else if (op == 1) {
				for (const char *st : stat) if (lat(st) == u) nm = StringName(StaticCString::create(st));
				if (nm == StringName()) nm = StringName(S(u));
			} else nm = StringName(S(u));
			eqs(c, "name_text", String(nm), u, ar);
			live.push_back({ nm, u });
		} else if (op == 3 && !live.empty()) {
			live.erase(live.begin() + r.range(0, (int)live.size() - 1));
		} else if (op == 4 && !live.empty()) {
			int x = r.range(0, (int)live.size() - 1), y = r.range(0, (int)live.size() - 1);
			live[x] = live[y];
		} else {
			bool exists = false;
			for (auto &p : live) if (p.second == u) exists = true;
			StringName f = r.chance(0.5) ? StringName::search(S(u)) : StringName::search(u.c_str());
			eqs(c, "name_search", String(f), exists ? u : U(), ar);
			if (is_lat(u)) eqs(c, "name_search_cstring", String(StringName::search(nar(u).c_str())), exists ? u : U(), ar);
		}
		for (auto &p : live)
			for (auto &o : live) {
				if (!c.check("name_equality", (p.first == o.first) == (p.second == o.second), q(p.second) + " vs " + q(o.second))) return;
				if (p.second == o.second && p.first.hash() != o.first.hash()) c.fail("name_hash", q(p.second));
				StringName::AlphCompare ac;
				if (!c.check("name_order", ac(p.first, o.first) == (p.second < o.second), q(p.second) + " vs " + q(o.second))) return;
			}
		for (auto &p : live) {
			eqi(c, "name_eq_string", p.first == S(u), p.second == u, q(p.second) + " vs " + ar);
			if (is_lat(u)) eqi(c, "name_eq_cstring", p.first == nar(u).c_str(), p.second == u, q(p.second) + " vs " + ar);
			eqs(c, "name_text", String(p.first), p.second, "later");
		}
	}
}

// Wide-character arguments, and the byte and UTF-16 strings the encoders return.
UNIT("R02", "wide", 3000, 60000) {
	Rng &r = c.rng;
	U a = gu(r, galpha(r)), b = r.chance(0.3) ? a : gu(r, galpha(r));
	if (r.chance(0.2)) b = a + gu(r, A_TINY, 1);
	for (auto &ch : a) if (!ch) ch = 'x';
	for (auto &ch : b) if (!ch) ch = 'x';
	std::wstring wa(a.begin(), a.end()), wb(b.begin(), b.end());
	Src s(c, a);
	std::string args = q(a) + " and " + q(b);
	eqs(c, "wide_construct", String(wb.c_str()), b, args);
	int clip = r.pick(std::vector<int>{ -1, 0, 1, (int)b.size(), (int)b.size() + 3, r.range(0, (int)b.size()) });
	eqs(c, "wide_clip", String(wb.c_str(), clip), clip < 0 ? b : b.substr(0, clip), args + strf(" %d", clip));
	eqs(c, "utf32_clip", String(b.c_str(), clip), clip < 0 ? b : b.substr(0, clip), args + strf(" %d", clip));
	{ String t = s.s; t = wb.c_str(); eqs(c, "wide_assign", t, b, args); }
	{ String t = s.s; t += wb.c_str(); eqs(c, "wide_append", t, a + b, args); }
	eqs(c, "wide_plus", wb.c_str() + s.s, b + a, args);
	eqs(c, "char_plus", (CharType)'q' + s.s, U(U"q") + a, args);
	bool eq = a == b;
	c.check("wide_equal", (s.s == wb.c_str()) == eq && (wb.c_str() == s.s) == eq && (s.s != wb.c_str()) == !eq && (wb.c_str() != s.s) == !eq, args);
	c.check("utf32_equal", (s.s == b.c_str()) == eq && (s.s != b.c_str()) == !eq, args);
	c.check("wide_less", (s.s < wb.c_str()) == (a < b), args);
	if (is_lat(b)) { std::string nb = nar(b); c.check("narrow_equal", (s.s == nb.c_str()) == eq && (nb.c_str() == s.s) == eq && (s.s != nb.c_str()) == !eq && (nb.c_str() != s.s) == !eq, args); }
	c.check("wide_hash", String::hash(wb.c_str()) == String(wb.c_str()).hash() && String::hash(wb.c_str(), (int)wb.size()) == String::hash(wb.c_str()), args);
	{ U one(1, b.empty() ? U'z' : b[0]); eqs(c, "from_char", String::chr(one[0]), one, q(one)); }
	// numbers read from wide text
	double d = r.range(-9999, 9999) / 8.0 * (r.chance(0.2) ? 1e3 : 1);
	std::string dt = strf("%.4f", d);
	std::wstring wd(dt.begin(), dt.end());
	wd += L"x7";
	const wchar_t *end = nullptr;
	double got = String::to_float(wd.c_str(), &end);
	c.check("wide_to_float", std::fabs(got - d) <= 1e-9 * std::fabs(d) + 1e-12 && end == wd.c_str() + dt.size(), dt + strf(" gives %.10g, %d read", got, (int)(end - wd.c_str())));
	int64_t v = (int64_t)r.next() >> r.range(0, 60);
	std::string vt = std::to_string(v);
	std::wstring wv(vt.begin(), vt.end());
	c.check("wide_to_int", String::to_int(wv.c_str()) == v, vt);
	uint64_t u = r.next() >> r.range(0, 63);
	eqs(c, "uitos", uitos(u), asc(std::to_string(u)), std::to_string(u));
	double sd = r.range(-100000, 100000) * std::pow(10.0, r.range(-12, 12));
	eqs(c, "rtoss", rtoss(sd), un(String::num_scientific(sd)), strf("%g", sd));
	// UTF-16 length in bytes
	bool ok = true;
	for (char32_t ch : a) ok = ok && valid_cp(ch);
	if (ok) {
		Char16String h = s.s.utf16();
		eqi(c, "utf16_byte_length", s.s.utf16_byte_length(), 2LL * h.length(), q(a));
	}
	// byte strings
	std::string n1, n2;
	std::u16string u1, u2;
	for (int i = r.range(0, 5); i > 0; i--) { n1 += (char)r.range(97, 99); u1 += (char16_t)r.pick(std::vector<int>{ 'a', 'b', 0x20AC, 0xD83D, 0xFFFF }); }
	for (int i = r.range(0, 5); i > 0; i--) { n2 += (char)r.range(97, 99); u2 += (char16_t)r.pick(std::vector<int>{ 'a', 'b', 0x20AC, 0xD83D, 0xFFFF }); }
	CharString c1 = n1.c_str(), c2, c3;
	c2 = n2.c_str();
	for (char ch : n2) c3 += ch;
	c.check("bytes", std::string(c1.get_data()) == n1 && std::string(c2.get_data()) == n2 && std::string(c3.get_data()) == n2 && c1.length() == (int)n1.size() && c2.length() == (int)n2.size() && c3.length() == (int)n2.size(), n1 + " and " + n2);
	c.check("bytes_less", (c1 < c2) == (n1 < n2) && (c2 < c1) == (n2 < n1) && !(c2 < c3), n1 + " and " + n2);
	{ CharString k = c1; k += '!'; c.check("bytes_copy", std::string(k.get_data()) == n1 + "!" && std::string(c1.get_data()) == n1, n1); k = c2; k = ""; c.check("bytes_clear", k.length() == 0 && std::string(c2.get_data()) == n2, n2); }
	Char16String w1 = u1.c_str(), w2, w3;
	w2 = u2.c_str();
	for (char16_t ch : u2) w3 += ch;
	c.check("units", std::u16string(w1.get_data()) == u1 && std::u16string(w2.get_data()) == u2 && std::u16string(w3.get_data()) == u2 && w1.length() == (int)u1.size() && w2.length() == (int)u2.size() && w3.length() == (int)u2.size(), "");
	c.check("units_less", (w1 < w2) == (u1 < u2) && (w2 < w1) == (u2 < u1) && !(w2 < w3), "");
	{ Char16String k = w1; k += u'!'; c.check("units_copy", std::u16string(k.get_data()) == u1 + u"!" && std::u16string(w1.get_data()) == u1, ""); k = w2; k = u""; c.check("units_clear", k.length() == 0 && std::u16string(w2.get_data()) == u2, ""); }
	// colours in HTML notation
	U html;
	int digits = r.pick(std::vector<int>{ 3, 4, 6, 8, 3, 4, 6, 8, 0, 1, 5, 7, 9, r.range(0, 12) });
	bool valid = digits == 3 || digits == 4 || digits == 6 || digits == 8;
	if (r.chance(0.7)) html += U'#';
	for (int i = 0; i < digits; i++) html += U"0123456789abcdefABCDEF"[r.range(0, 21)];
	if (digits && r.chance(0.3)) { html[html.size() - 1 - r.range(0, digits - 1)] = U"gz -."[r.range(0, 4)]; valid = false; }
	c.check("html_color", S(html).is_valid_html_color() == valid && Color::html_is_valid(S(html)) == valid, q(html));
	s.verify("wide forms");
}
