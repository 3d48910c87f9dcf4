// M06: texts, console listings and files of parameters hold every value, once, in order.
#include "vh.h"
#include "core/utilities.h"
#include "core/mlpp_vector.h"
#include "core/mlpp_matrix.h"
#include "core/mlpp_tensor3.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
typedef std::vector<real_t> SV;
typedef std::vector<SV> SM;
typedef std::vector<std::string> Lines;

static DV nums(const std::string &s) {
	DV o; const char *p = s.c_str();
	while (*p) {
		if (isdigit((unsigned char)*p) || (*p == '-' && (isdigit((unsigned char)p[1]) || p[1] == '.'))) { char *e; o.push_back(strtod(p, &e)); p = e; }
		else p++;
	}
	return o;
}
static std::string sstr(const String &s) { return s.utf8().get_data(); }
static double val(Rng &r) {
	switch (r.range(0, 5)) { case 0: return r.range(-20, 20); case 1: return (double)r.f(-1, 1); case 2: return (double)r.f(-1e6f, 1e6f); case 3: return 0; case 4: return (double)r.f(-0.01f, 0.01f); default: return (double)r.f(-100, 100); }
}
// printed with a fixed number of decimals
static void same(Ctx &c, const char *kind, const DV &g, const DV &w, double atol, double rtol) {
	if (!c.check("count", g.size() == w.size(), strf("%d values instead of %d", (int)g.size(), (int)w.size()))) return;
	for (size_t i = 0; i < w.size(); i++) if (!(std::fabs(g[i] - w[i]) <= atol + rtol * std::fabs(w[i]))) { c.fail(kind, strf("value %d is %.9g instead of %.9g", (int)i, g[i], w[i])); return; }
}
// the lines that open a row: one per row, each with the values of that row
static void rows(Ctx &c, const std::string &s, const DV &w, int co) {
	std::stringstream in(s); std::string l; size_t at = 0; int seen = 0; bool ok = true;
	while (std::getline(in, l)) { size_t t = l.find("MLPP"); if (t != std::string::npos) continue; DV g = nums(l); if (g.empty()) continue; seen++; if ((int)g.size() != co) ok = false; at += g.size(); }
	c.check("row_per_line", ok && (co == 0 || seen * co == (int)w.size()) && at == w.size(), s);
}
static std::string body(const std::string &s) { size_t b = s.find(": "); size_t n = s.find(":"); return b != std::string::npos ? s.substr(b + 1) : n != std::string::npos ? s.substr(n + 1) : s; }

UNIT("M06", "text", 1500, 30000) {
	Rng &r = c.rng; const long e0 = errors();
	int k = r.range(0, 2); int z = r.range(0, 4), y = r.range(0, 5), x = r.range(0, 6); if (r.chance(0.8)) { z = std::max(z, 1); y = std::max(y, 1); x = std::max(x, 1); }
	if (k == 0) {
		DV v(x); for (double &q : v) q = val(r); RV V = mkv(v); c.label("vector.to_string"); std::string s = sstr(V->to_string());
		c.check("name", s.find("MLPPVector") != std::string::npos, s); same(c, "value", nums(body(s)), v, 1e-6, 1e-6); samev(c, "unchanged", V, v); c.check("pure", sstr(V->to_string()) == s);
		c.obs(hsh(hs("v"), v), x > 1);
	} else if (k == 1) {
		DM m(y, x); for (double &q : m.d) q = val(r); RM M = mkm(m); c.label("matrix.to_string"); std::string s = sstr(M->to_string());
		c.check("name", s.find("MLPPMatrix") != std::string::npos, s); same(c, "value", nums(body(s)), m.d, 1e-6, 1e-6); if (x && y) rows(c, s, m.d, x); samem(c, "unchanged", M, m); c.check("pure", sstr(M->to_string()) == s);
		c.obs(hsh(hsh(hs("m"), m.d), x), x * y > 1);
	} else {
		DT t(z, y, x); for (double &q : t.d) q = val(r); RT T = mkt(t); c.label("tensor.to_string"); std::string s = sstr(T->to_string());
		c.check("name", s.find("MLPPTensor3") != std::string::npos, s); same(c, "value", nums(body(s)), t.d, 1e-6, 1e-6); if (x && y && z) rows(c, s, t.d, x); samet(c, "unchanged", T, t); c.check("pure", sstr(T->to_string()) == s);
		c.obs(hsh(hsh(hsh(hs("t"), t.d), x), y), x * y * z > 1);
	}
	c.check("no_error", errors() == e0, "an error was reported");
	c.count(k == 0 ? "vector" : k == 1 ? "matrix" : "tensor");
}

// ---- console and files: headings and one value per line ----
static Lines read_lines(const std::string &s) { Lines o; std::stringstream in(s); std::string l; while (std::getline(in, l)) if (!l.empty()) o.push_back(l); return o; }
static bool heading(const std::string &l) { for (char q : l) if (isalpha((unsigned char)q)) { std::string t; for (char w : l) t += tolower(w); return t.find("weight") != std::string::npos || t.find("bias") != std::string::npos || t.find("initial") != std::string::npos; } return false; }
struct Sect { std::string title; DV v; };
static std::vector<Sect> sections(Ctx &c, const std::string &s) {
	std::vector<Sect> o; for (auto &l : read_lines(s)) {
		if (heading(l)) { o.push_back(Sect()); o.back().title = l; continue; }
		if (o.empty()) { c.fail("format", "a value before the first heading: " + l); return o; }
		char *e; double d = strtod(l.c_str(), &e); if (*e) { c.fail("format", "not a single value: " + l); return o; } o.back().v.push_back(d);
	}
	return o;
}
struct Want { const char *word; DV v; };
static void judge(Ctx &c, const std::string &text, const std::vector<Want> &w, const std::vector<int> &layers) {
	std::vector<Sect> s = sections(c, text); if (!c.check("sections", s.size() == w.size(), strf("%d sections instead of %d\n", (int)s.size(), (int)w.size()) + text)) return;
	for (size_t i = 0; i < w.size(); i++) {
		std::string t; for (char q : s[i].title) t += tolower(q);
		c.check("title", t.find(w[i].word) != std::string::npos, s[i].title + " for " + w[i].word); same(c, "value", s[i].v, w[i].v, 1e-12, 1e-5);
		if (i < layers.size()) { if (layers[i] >= 0) { DV n = nums(s[i].title); c.check("layer", n.size() == 1 && n[0] == layers[i], s[i].title + strf(" for layer %d", layers[i])); } else c.check("layer", nums(s[i].title).empty(), s[i].title); }
	}
}
static SV sv(const DV &v) { SV o; for (double q : v) o.push_back((real_t)q); return o; }
static DV rnd(Rng &r, int n) { DV v(n); for (double &q : v) q = val(r); return v; }

UNIT("M06", "file", 700, 12000) {
	Rng &r = c.rng; std::string f = strf("m06_%d.txt", (int)getpid()); unlink(f.c_str());
	if (r.chance(0.3)) { std::ofstream o(f.c_str()); o << "Weight(s)\n1\n2\n3\nBias\n4\n"; }
	bool there = access(f.c_str(), F_OK) == 0; std::vector<Want> w; std::vector<int> lay; if (there) { w.push_back({ "weight", { 1, 2, 3 } }); w.push_back({ "bias", { 4 } }); lay = { -1, -1 }; }
	MLPPUtilities u; int n = r.range(1, 4); uint64_t h = hs("f");
	for (int i = 0; i < n; i++) {
		bool app = i > 0 ? r.chance(0.75) : r.chance(0.4); int l = r.chance(0.5) ? -1 : r.range(0, 12); int k = r.range(0, 2); bool def = !app && l < 0 && r.chance(0.5);
		if (!app) { w.clear(); lay.clear(); }
		c.label(k == 0 ? "save.vector" : k == 1 ? "save.initial" : "save.matrix");
		if (k == 0) { DV a = rnd(r, r.range(0, 6)); double b = val(r); if (def) u.saveParameters(f, sv(a), b); else u.saveParameters(f, sv(a), b, app, l); w.push_back({ "weight", a }); w.push_back({ "bias", { b } }); lay.push_back(l); lay.push_back(l); h = hsh(hsh(h, a), (uint64_t)l); }
		else if (k == 1) { DV a = rnd(r, r.range(0, 6)), q = rnd(r, r.range(0, 6)); double b = val(r); if (def) u.saveParameters(f, sv(a), sv(q), b); else u.saveParameters(f, sv(a), sv(q), b, app, l); w.push_back({ "weight", a }); w.push_back({ "initial", q }); w.push_back({ "bias", { b } }); for (int t = 0; t < 3; t++) lay.push_back(l); h = hsh(hsh(h, a), q); }
		else { int y = r.range(0, 4), x = r.range(1, 4); DM m(y, x); m.d = rnd(r, y * x); DV b = rnd(r, r.range(0, 4)); SM s; for (int t = 0; t < y; t++) s.push_back(sv(DV(m.d.begin() + t * x, m.d.begin() + (t + 1) * x))); if (def) u.saveParameters(f, s, sv(b)); else u.saveParameters(f, s, sv(b), app, l); w.push_back({ "weight", m.d }); w.push_back({ "bias", b }); lay.push_back(l); lay.push_back(l); h = hsh(hsh(h, m.d), b); }
		std::ifstream in(f.c_str()); std::stringstream all; all << in.rdbuf(); judge(c, all.str(), w, lay); c.count(app ? "appended" : "written");
	}
	unlink(f.c_str()); c.obs(h, n > 1);
}

struct Capture { std::stringstream s; std::streambuf *old; Capture() { old = std::cout.rdbuf(s.rdbuf()); } ~Capture() { std::cout.rdbuf(old); } };
UNIT("M06", "console", 700, 12000) {
	Rng &r = c.rng; int k = r.range(0, 3); uint64_t h = hsh(hs("c"), (uint64_t)k);
	DV a = rnd(r, r.range(0, 6)), q = rnd(r, r.range(0, 5)); double b = val(r); int y = r.range(0, 4), x = r.range(1, 4); DM m(y, x); m.d = rnd(r, y * x);
	SM s; for (int t = 0; t < y; t++) s.push_back(sv(DV(m.d.begin() + t * x, m.d.begin() + (t + 1) * x)));
	std::string out; std::vector<Want> w;
	{ Capture cap;
		if (k == 0) MLPPUtilities::UI(sv(a), b); if (k == 1) MLPPUtilities::UI(sv(a), sv(q), b); if (k == 2) MLPPUtilities::UI(s, sv(q)); if (k == 3) MLPPUtilities::CostInfo(y, (real_t)b, (real_t)val(r) * 0 + (real_t)m.co);
		out = cap.s.str(); }
	c.label(k == 0 ? "UI.vector" : k == 1 ? "UI.initial" : k == 2 ? "UI.matrix" : "CostInfo");
	if (k == 0) w = { { "weight", a }, { "bias", { b } } }; if (k == 1) w = { { "weight", a }, { "initial", q }, { "bias", { b } } }; if (k == 2) w = { { "weight", m.d }, { "bias", q } };
	if (k == 3) { DV n; for (auto &l : read_lines(out)) { if (l.find_first_not_of('-') == std::string::npos) continue; DV g = nums(l); n.insert(n.end(), g.begin(), g.end()); } same(c, "value", n, { (double)y, (double)((real_t)b - (real_t)m.co), (double)m.co }, 1e-12, 1e-5); }
	else judge(c, out, w, {});
	h = hsh(hsh(hsh(h, a), q), m.d); c.count("console"); c.obs(h, true);
	// the same listings as messages of the library
	RV A = mkv(a), Q = mkv(q); RM M = mkm(m); Lines log; g_log = &log; int j = r.range(0, 3); double d = val(r), e = val(r); int ep = r.range(0, 100000);
	if (j == 0) MLPPUtilities::print_ui_vb(A, b); if (j == 1) MLPPUtilities::print_ui_vib(A, Q, b); if (j == 2) MLPPUtilities::print_ui_mb(M, Q); if (j == 3) MLPPUtilities::cost_info(ep, (real_t)d, (real_t)e);
	g_log = nullptr; c.label(j == 0 ? "message.vector" : j == 1 ? "message.initial" : j == 2 ? "message.matrix" : "message.cost");
	std::string all; for (auto &l : log) all += l + "\n"; for (const char *t : { "MLPPVector", "MLPPMatrix" }) for (size_t p; (p = all.find(t)) != std::string::npos;) all.erase(p, strlen(t));
	DV want; if (j == 0 || j == 1) want = a; if (j == 1) want.insert(want.end(), q.begin(), q.end()); if (j < 2) want.push_back(b); if (j == 2) { want = m.d; want.insert(want.end(), q.begin(), q.end()); } if (j == 3) want = { (double)ep, (double)((real_t)d - (real_t)e), e };
	same(c, "value", nums(all), want, 2e-6, 2e-6); samev(c, "unchanged", A, a); samev(c, "unchanged", Q, q); samem(c, "unchanged", M, m); c.count("message");
}
