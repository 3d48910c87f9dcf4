// R07: files and directories: byte and text access, modes, permissions, safe saving, directory trees.
// All effects stay in a scratch directory: the destructive system calls of the platform go through the guards below,
// which refuse and report every target outside it.
#include "vh.h"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vh;

namespace r07 {
typedef std::string SS;
static SS g_scratch; // real path of this process's scratch directory
static std::vector<SS> g_escapes;
static SS S(const String &s) { CharString u = s.utf8(); return SS(u.get_data() ? u.get_data() : ""); }
static String G(const SS &s) { return String::utf8(s.c_str()); }
static bool inside(const SS &p) { return !g_scratch.empty() && (p == g_scratch || p.compare(0, g_scratch.size() + 1, g_scratch + "/") == 0); }
// where an operation on `path` takes effect; `follow`: through a final link
static SS effect(const char *path, bool follow) {
	char buf[PATH_MAX];
	if (follow && realpath(path, buf)) return buf;
	SS p = path; while (p.size() > 1 && p.back() == '/') p.pop_back();
	size_t k = p.rfind('/'); SS dir = k == SS::npos ? "." : k == 0 ? "/" : p.substr(0, k);
	if (!realpath(dir.c_str(), buf)) return ""; // the call will fail by itself
	return SS(buf) + "/" + (k == SS::npos ? p : p.substr(k + 1));
}
static bool allow(const char *what, const char *path, bool follow) {
	SS e = effect(path, follow);
	if (e.empty() || inside(e)) return true;
	g_escapes.push_back(SS(what) + " " + e); errno = EPERM; return false;
}
} // namespace r07
using namespace r07;

extern "C" {
FILE *__real_fopen64(const char *, const char *);
FILE *__wrap_fopen64(const char *p, const char *m) { if ((strchr(m, 'w') || strchr(m, '+') || strchr(m, 'a')) && !g_scratch.empty() && !allow("open", p, true)) return nullptr; return __real_fopen64(p, m); }
int __real_rename(const char *, const char *);
int __wrap_rename(const char *a, const char *b) { return !g_scratch.empty() && (!allow("rename", a, false) || !allow("rename", b, false)) ? -1 : __real_rename(a, b); }
int __real_unlink(const char *);
int __wrap_unlink(const char *a) { return !g_scratch.empty() && !allow("unlink", a, false) ? -1 : __real_unlink(a); }
int __real_rmdir(const char *);
int __wrap_rmdir(const char *a) { return !g_scratch.empty() && !allow("rmdir", a, false) ? -1 : __real_rmdir(a); }
int __real_mkdir(const char *, mode_t);
int __wrap_mkdir(const char *a, mode_t m) { struct stat st; if (lstat(a, &st) == 0) { errno = EEXIST; return -1; } return !g_scratch.empty() && !allow("mkdir", a, false) ? -1 : __real_mkdir(a, m); }
int __real_chmod(const char *, mode_t);
int __wrap_chmod(const char *a, mode_t m) { return !g_scratch.empty() && !allow("chmod", a, true) ? -1 : __real_chmod(a, m); }
int __real_symlink(const char *, const char *);
int __wrap_symlink(const char *t, const char *a) { return !g_scratch.empty() && !allow("symlink", a, false) ? -1 : __real_symlink(t, a); }
}

namespace r07 {
static void wipe(const SS &p) { // without following links
	struct stat st; if (lstat(p.c_str(), &st)) return;
	if (S_ISDIR(st.st_mode)) {
		chmod(p.c_str(), 0777); DIR *d = opendir(p.c_str()); std::vector<SS> n;
		if (d) { while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name); closedir(d); }
		for (auto &x : n) wipe(p + "/" + x);
		rmdir(p.c_str());
	} else unlink(p.c_str());
}
static void setup_scratch() {
	char t[] = "/tmp/vh_r07_XXXXXX"; char buf[PATH_MAX];
	if (!mkdtemp(t) || !realpath(t, buf)) { perror("scratch"); _exit(3); }
	g_scratch = buf; signal(SIGXFSZ, SIG_IGN); umask(022);
}
struct Case { // an empty directory for one case
	SS dir; Ctx &c; char cwd[PATH_MAX];
	explicit Case(Ctx &cc) : c(cc) { setup_scratch(); dir = g_scratch + "/c"; mkdir(dir.c_str(), 0777); g_escapes.clear(); if (!getcwd(cwd, sizeof cwd)) _exit(3); }
	~Case() {
		if (!g_escapes.empty()) c.fail("outside", "an operation reached outside its directory: " + g_escapes[0]);
		char now[PATH_MAX]; if (!getcwd(now, sizeof now) || strcmp(now, cwd)) { c.fail("process_directory", "the working directory of the process changed"); if (chdir(cwd)) _exit(3); }
		wipe(g_scratch); rmdir(g_scratch.c_str()); g_scratch.clear();
	}
};
static bool rd(const SS &p, SS &out) {
	out.clear(); int f = ::open(p.c_str(), O_RDONLY); if (f < 0) return false;
	char b[8192]; ssize_t n; while ((n = ::read(f, b, sizeof b)) > 0) out.append(b, n);
	::close(f); return true;
}
static void wr(const SS &p, const SS &d, int mode = 0644) {
	if (!inside(p)) _exit(3);
	int f = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, mode); size_t k = 0;
	while (k < d.size()) { ssize_t n = ::write(f, d.data() + k, d.size() - k); if (n <= 0) break; k += n; }
	::close(f);
}
static bool isfile(const SS &p) { struct stat st; return stat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode); }
static bool isdir(const SS &p) { struct stat st; return stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode); }
static SS shown(const SS &s) { SS o; for (unsigned char ch : s.substr(0, 60)) { if (ch >= 32 && ch < 127) o += ch; else o += strf("\\x%02x", ch); } return o + (s.size() > 60 ? strf("...(%d)", (int)s.size()) : ""); }

static void put_utf8(SS &o, uint32_t u) {
	if (u < 0x80) o += (char)u;
	else if (u < 0x800) { o += (char)(0xC0 | u >> 6); o += (char)(0x80 | (u & 63)); }
	else { o += (char)(0xE0 | u >> 12); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); }
}
static SS text(Rng &r, int maxlen, const char *extra = "") {
	SS o; int n = r.chance(.1) ? 0 : r.chance(.1) ? r.range(200, 1200) : r.range(0, maxlen); int ne = strlen(extra);
	bool ascii = r.chance(.5);
	for (int i = 0; i < n; i++) {
		if (ne && r.chance(.25)) o += extra[r.range(0, ne - 1)];
		else if (ascii || r.chance(.7)) o += (char)r.range(32, 126);
		else { static const uint32_t u[] = { 0xE9, 0xDF, 0x3B1, 0x7FF, 0x800, 0x20AC, 0x65E5, 0x672C, 0x80, 0xFFFD, 0xAC00 }; put_utf8(o, u[r.range(0, 10)]); }
	}
	return o;
}
static SS bytes(Rng &r, int maxlen) { SS o; int n = r.range(0, maxlen); for (int i = 0; i < n; i++) o += (char)(r.chance(.3) ? r.pick(std::vector<int>{ 0, 1, 10, 13, 127, 128, 255 }) : r.range(0, 255)); return o; }

// ---- a file as an array of bytes with a position ----
struct MF {
	SS d; size_t pos = 0; bool eof = false, swap = false;
	uint8_t g8() { if (pos < d.size()) return (uint8_t)d[pos++]; eof = true; return 0; }
	uint64_t g(int n) { uint64_t v = 0; for (int i = 0; i < n; i++) { uint64_t b = g8(); v |= b << (8 * (swap ? n - 1 - i : i)); } return v; }
	void s(const SS &x) { if (x.empty()) return; if (pos > d.size()) d.resize(pos, 0); if (d.size() < pos + x.size()) d.resize(pos + x.size()); memcpy(&d[pos], x.data(), x.size()); pos += x.size(); }
	void sn(uint64_t v, int n) { SS x; for (int i = 0; i < n; i++) x += (char)(v >> (8 * (swap ? n - 1 - i : i))); s(x); }
	SS line() { SS o; for (;;) { uint8_t b = g8(); if (eof || b == '\n' || b == 0) return o; if (b != '\r') o += (char)b; } }
	SS token() { SS o; for (;;) { uint8_t b = g8(); if (eof) return o; if (b <= 32) { if (!o.empty()) return o; } else o += (char)b; } }
};
static uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static double bitsd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static uint32_t fbits(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
static float bitsf(uint32_t u) { float d; memcpy(&d, &u, 4); return d; }
static uint64_t anybits(Rng &r) { return r.chance(.3) ? r.pick(std::vector<uint64_t>{ 0, 1, 0xFF, 0x100, 0x7F, 0x80, 0xFFFF, 0x8000, 0x12345678, 0x80000000u, 0xFFFFFFFFu, ~0ull, 1ull << 63, 0x3FF0000000000000ull }) : r.next(); }
} // namespace r07

UNIT("R07", "file.bytes", 12000, 400000) {
	Rng &r = c.rng; Case k(c); SS p = k.dir + "/f.bin"; MF m; uint64_t h = 7;
	int mode = r.pick(std::vector<int>{ FileAccess::READ, FileAccess::WRITE, FileAccess::READ_WRITE, FileAccess::WRITE_READ, FileAccess::READ_WRITE, FileAccess::WRITE_READ });
	bool exists = mode == FileAccess::READ || mode == FileAccess::READ_WRITE || r.chance(.5);
	if (exists) { m.d = bytes(r, r.chance(.2) ? 9000 : 60); wr(p, m.d); }
	if (mode == FileAccess::WRITE || mode == FileAccess::WRITE_READ) m.d.clear();
	Error e = FAILED; FileAccess *f = FileAccess::create_and_open(G(p), mode, &e); c.label("open");
	if (!c.check("refused", f && e == OK, strf("mode %d error %d", mode, e))) return;
	bool canr = mode != FileAccess::WRITE, canw = mode != FileAccess::READ; int n = r.range(1, 25); char last = 0;
	for (int i = 0; i < n; i++) {
		// the C library wants a seek between reading and writing one stream
		int op = m.eof ? r.pick(std::vector<int>{ 20, 21, 22, 0, 1, 8, 23 }) : r.range(0, 31); h = hsh(h, op);
		bool reads = op <= 9, writes = op >= 10 && op <= 19;
		if ((reads && !canr) || (writes && !canw)) continue;
		if ((reads && last == 'w') || (writes && last == 'r')) { if (r.chance(.7)) { f->seek(m.pos); m.eof = false; } }
		if (reads) last = 'r'; if (writes) last = 'w';
		switch (op) {
			case 0: { c.label("get_8"); uint64_t w = m.g(1); c.check("value", f->get_8() == w); } break;
			case 1: { c.label("get_16"); uint64_t w = m.g(2), g = f->get_16(); c.check("value", g == w, strf("%llx, want %llx", (long long)g, (long long)w)); } break;
			case 2: { c.label("get_32"); uint64_t w = m.g(4), g = f->get_32(); c.check("value", g == w, strf("%llx, want %llx", (long long)g, (long long)w)); } break;
			case 3: { c.label("get_64"); uint64_t w = m.g(8), g = f->get_64(); c.check("value", g == w, strf("%llx, want %llx", (long long)g, (long long)w)); } break;
			case 4: { c.label("get_float"); uint32_t w = m.g(4); c.check("value", fbits(f->get_float()) == w); } break;
			case 5: { c.label("get_double"); uint64_t w = m.g(8); c.check("value", dbits(f->get_double()) == w); } break;
			case 6: { c.label("get_real"); uint32_t w = m.g(4); c.check("value", fbits(f->get_real()) == w); } break;
			case 7: case 8: case 9: { c.label("get_buffer"); int len = r.chance(.2) ? 0 : r.chance(.1) ? r.range(0, 10000) : r.range(1, 40); std::vector<uint8_t> b(len + 1, 0x5A);
				size_t avail = m.pos < m.d.size() ? m.d.size() - m.pos : 0, want = std::min<size_t>(avail, len); uint64_t g = f->get_buffer(b.data(), len);
				c.check("count", g == want, strf("%llu of %d, want %d", (long long)g, len, (int)want));
				if (g == want) c.check("content", SS((char *)b.data(), want) == (want ? m.d.substr(m.pos, want) : SS()) && b[len] == 0x5A && (want == (size_t)len || b[want] == 0x5A));
				m.pos += want; if (want < (size_t)len) m.eof = true; } break;
			case 10: { c.label("store_8"); uint64_t v = anybits(r); f->store_8(v); m.sn(v, 1); } break;
			case 11: { c.label("store_16"); uint64_t v = anybits(r); f->store_16(v); m.sn(v, 2); } break;
			case 12: { c.label("store_32"); uint64_t v = anybits(r); f->store_32(v); m.sn(v, 4); } break;
			case 13: { c.label("store_64"); uint64_t v = anybits(r); f->store_64(v); m.sn(v, 8); } break;
			case 14: { c.label("store_float"); uint32_t v = anybits(r); f->store_float(bitsf(v)); m.sn(v, 4); } break;
			case 15: { c.label("store_double"); uint64_t v = anybits(r); f->store_double(bitsd(v)); m.sn(v, 8); } break;
			case 16: { c.label("store_real"); uint32_t v = anybits(r); f->store_real(bitsf(v)); m.sn(v, 4); } break;
			case 17: case 18: { c.label("store_buffer"); SS b = bytes(r, r.chance(.1) ? 10000 : 40); f->store_buffer(b.empty() ? nullptr : (const uint8_t *)b.data(), b.size()); m.s(b); } break;
			case 19: { c.label("store_buffer_vec"); SS b = bytes(r, 40); Vector<uint8_t> v; for (char ch : b) v.push_back((uint8_t)ch); f->store_buffer_vec(v); m.s(b); } break;
			case 20: case 24: { c.label("seek"); m.pos = r.range(0, (int)m.d.size() + (r.chance(.2) ? 20 : 0)); m.eof = false; f->seek(m.pos); last = 0; } break;
			case 21: case 25: { c.label("seek_end"); int off = -r.range(0, (int)m.d.size()); if (r.chance(.1)) off = r.range(0, 9); f->seek_end(off); m.pos = m.d.size() + off; m.eof = false; last = 0; } break;
			case 22: case 26: { c.label("get_len"); uint64_t g = f->get_len(); c.check("value", g == m.d.size(), strf("%llu, want %d", (long long)g, (int)m.d.size())); last = 0; } break;
			case 23: { c.label("get_position"); uint64_t g = f->get_position(); c.check("value", g == m.pos, strf("%llu, want %d", (long long)g, (int)m.pos)); } break;
			case 27: { c.label("endian_swap"); m.swap = r.chance(.5); f->set_endian_swap(m.swap); c.check("value", f->get_endian_swap() == m.swap); } break;
			case 28: { c.label("flush"); if (!canw || last != 'w') break; f->flush(); SS d; rd(p, d); c.check("content", d == m.d, shown(d) + ", want " + shown(m.d)); } break;
			case 29: { c.label("state"); c.check("open", f->is_open() && f->get_path() == G(p) && f->get_path_absolute() == G(p)); } break;
			case 30: { if (!r.chance(.3)) break; c.label("reopen"); int nm = r.pick(std::vector<int>{ FileAccess::READ, FileAccess::WRITE, FileAccess::READ_WRITE, FileAccess::WRITE_READ }); Error q = r.chance(.5) ? f->reopen(G(p), nm) : f->open(G(p), nm); c.check("refused", q == OK);
				canr = nm != FileAccess::WRITE; canw = nm != FileAccess::READ; m.pos = 0; m.eof = false; last = 0; f->set_endian_swap(m.swap); if (nm == FileAccess::WRITE || nm == FileAccess::WRITE_READ) m.d.clear(); } break;
			case 31: { if (canw) break; c.label("store_refused"); f->store_8(65); f->seek(m.pos); last = 0; } break;
		}
		c.check("eof", f->eof_reached() == m.eof, strf("%d, want %d", f->eof_reached(), m.eof));
		c.check("position", f->get_position() == m.pos, strf("%llu, want %d", (long long)f->get_position(), (int)m.pos));
	}
	c.label("close");
	if (r.chance(.5)) { f->close(); c.check("open", !f->is_open()); f->close(); }
	memdelete(f);
	SS d; rd(p, d); c.check("content", d == m.d, shown(d) + ", want " + shown(m.d));
	c.obs(hsh(h, hs(d)), n > 3);
}

UNIT("R07", "file.text", 10000, 300000) {
	Rng &r = c.rng; Case k(c); SS p = k.dir + "/t.txt"; uint64_t h = 1; int what = r.range(0, 6);
	if (what == 0) { // lines, tokens and the whole text of an existing file
		MF m; m.d = text(r, 80, "\n\n\r\t  \n"); wr(p, m.d); FileAccess *f = FileAccess::create_and_open(G(p), FileAccess::READ); c.label("open"); if (!c.check("refused", f)) return;
		for (int i = 0; i < 12 && !m.eof; i++) {
			if (r.chance(.6)) { c.label("get_line"); SS w = m.line(), g = S(f->get_line()); c.check("text", g == w, "'" + shown(g) + "', want '" + shown(w) + "'"); }
			else { c.label("get_token"); SS w = m.token(), g = S(f->get_token()); c.check("text", g == w, "'" + shown(g) + "', want '" + shown(w) + "'"); }
			c.check("eof", f->eof_reached() == m.eof); if (!m.eof) c.check("position", f->get_position() == m.pos);
		}
		if (m.eof) { c.label("seek_end"); int back = r.range(0, (int)m.d.size()); while (back < (int)m.d.size() && ((uint8_t)m.d[m.d.size() - back] & 0xC0) == 0x80) back++; f->seek_end(-back); m.pos = m.d.size() - back; m.eof = false; SS w = m.line(), g = S(f->get_line()); c.check("line", g == w, "'" + shown(g) + "', want '" + shown(w) + "'"); }
		c.label("get_as_utf8_string"); f->seek(0); bool skip = r.chance(.5); SS w; for (char ch : m.d) if (!skip || ch != '\r') w += ch; SS g = S(f->get_as_utf8_string(skip)); c.check("text", g == w, "'" + shown(g) + "', want '" + shown(w) + "'"); memdelete(f);
		h = hs(m.d);
	} else if (what == 1) { // what is stored as strings, lines and sized strings comes back
		std::vector<std::pair<int, SS>> v; FileAccess *f = FileAccess::create_and_open(G(p), FileAccess::WRITE); c.label("open"); if (!c.check("refused", f)) return; MF m; m.swap = r.chance(.3); f->set_endian_swap(m.swap); int n = r.range(1, 8);
		for (int i = 0; i < n; i++) { int o = r.range(0, 2); SS t = text(r, 30); v.push_back({ o, t }); if (o == 0) { c.label("store_line"); f->store_line(G(t)); m.s(t); m.sn('\n', 1); } else if (o == 1) { c.label("store_pascal_string"); f->store_pascal_string(G(t)); m.sn(t.size(), 4); m.s(t); } else { c.label("store_string"); f->store_string(G(t)); m.s(t); f->store_8('\n'); m.sn('\n', 1); } }
		memdelete(f); SS d; rd(p, d); c.label("stored"); c.check("content", d == m.d, shown(d) + ", want " + shown(m.d));
		f = FileAccess::create_and_open(G(p), FileAccess::READ); if (!c.check("refused", f)) return; f->set_endian_swap(m.swap);
		for (auto &x : v) { c.label(x.first == 1 ? "get_pascal_string" : "get_line"); SS g = S(x.first == 1 ? f->get_pascal_string() : f->get_line()); c.check("text", g == x.second, "'" + shown(g) + "', want '" + shown(x.second) + "'"); }
		memdelete(f); h = hs(d);
	} else if (what == 2) { // records separated by a delimiter
		SS delim = r.pick(std::vector<SS>{ ",", ";", "\t", "|", " ", "x", "\xC3\x9F" }); FileAccess *f = FileAccess::create_and_open(G(p), FileAccess::WRITE); c.label("open"); if (!c.check("refused", f)) return; int n = r.range(1, 5); std::vector<std::vector<SS>> v; SS ex = "\"\"\n,;x " + (delim.size() == 1 ? delim : SS());
		for (int i = 0; i < n; i++) { Vector<String> row; std::vector<SS> w; int co = r.range(1, 5); for (int j = 0; j < co; j++) { SS t = text(r, 12, ex.c_str()); if (delim.size() > 1 && r.chance(.3)) t += delim; w.push_back(t); row.push_back(G(t)); } v.push_back(w); c.label("store_csv_line"); f->store_csv_line(row, G(delim)); }
		memdelete(f); f = FileAccess::create_and_open(G(p), FileAccess::READ); if (!c.check("refused", f)) return;
		for (auto &w : v) { c.label("get_csv_line"); Vector<String> g = f->get_csv_line(G(delim)); bool ok = g.size() == (int)w.size(); for (int j = 0; ok && j < g.size(); j++) ok = S(g[j]) == w[j]; c.check("record", ok, strf("%d fields, want %d, first '", g.size(), (int)w.size()) + (g.size() ? shown(S(g[0])) : "") + "', want '" + shown(w[0]) + "'"); for (auto &x : w) h = hsh(h, hs(x)); }
		memdelete(f);
	} else if (what == 3) { // records written by hand
		SS d; std::vector<std::vector<SS>> v; int n = r.range(1, 4);
		for (int i = 0; i < n; i++) { std::vector<SS> w; int co = r.range(1, 4); for (int j = 0; j < co; j++) { SS t = text(r, 8, "\"\n,"), q; if (r.chance(.4)) { q = "\""; for (char ch : t) { q += ch; if (ch == '"') q += '"'; } q += '"'; } else { SS u; for (char ch : t) if (ch != '"' && ch != '\n' && ch != ',') u += ch; t = q = u; } w.push_back(t); d += (j ? "," : "") + q; } v.push_back(w); if (i < n - 1 || r.chance(.7)) d += r.chance(.5) ? "\n" : "\r\n"; }
		wr(p, d); FileAccess *f = FileAccess::create_and_open(G(p), FileAccess::READ); c.label("open"); if (!c.check("refused", f)) return;
		for (auto &w : v) { c.label("get_csv_line.parsed"); Vector<String> g = f->get_csv_line(); bool ok = g.size() == (int)w.size(); for (int j = 0; ok && j < g.size(); j++) ok = S(g[j]) == w[j]; c.check("record", ok, shown(d)); }
		memdelete(f); h = hs(d);
	} else if (what == 4) { // whole files at once
		SS t = text(r, 60, "\n\r\t"); Error e = FAILED; c.label("write_file"); FileAccess::write_file(G(p), G(t), r.chance(.5) ? &e : (e = OK, nullptr)); SS d; c.check("content", rd(p, d) && d == t && e == OK, shown(d) + ", want " + shown(t));
		e = FAILED; c.label("get_file_as_string"); String g = FileAccess::get_file_as_string(G(p), r.chance(.5) ? &e : (e = OK, nullptr)); c.check("text", S(g) == t && e == OK, strf("error %d '", e) + shown(S(g)) + "', want '" + shown(t) + "'");
		SS b = bytes(r, r.chance(.1) ? 9000 : 60); Vector<uint8_t> vb; for (char ch : b) vb.push_back((uint8_t)ch); c.label("write_file_buffer"); e = OK; FileAccess::write_file_buffer(G(p), vb, &e); c.check("content", rd(p, d) && d == b && e == OK);
		c.label("get_file_as_array"); Vector<uint8_t> a = FileAccess::get_file_as_array(G(p), &e); SS as; for (int i = 0; i < a.size(); i++) as += (char)a[i]; c.check("content", as == b && e == OK); h = hs(t + b);
	} else if (what == 5) { // a file that ends too early
		SS t = text(r, 40); MF m; m.sn(r.chance(.5) ? t.size() + r.range(1, 50) : (anybits(r) & 0xFFFFFFFFu) | 0x1000, 4); m.s(t.substr(0, 0xFFF)); if (r.chance(.2)) m.d.resize(r.range(0, 3)); wr(p, m.d);
		FileAccess *f = FileAccess::create_and_open(G(p), FileAccess::READ); c.label("open"); if (!c.check("refused", f)) return; c.label("get_pascal_string.cut_off"); SS g = S(f->get_pascal_string());
		c.check("invented", g == SS() || g == SS(m.d.size() > 4 ? m.d.substr(4) : SS()), "'" + shown(g) + "' from '" + shown(m.d) + "'"); memdelete(f); h = hs(m.d);
	} else { // missing files
		c.label("missing"); SS q = k.dir + r.pick(std::vector<SS>{ "/none", "/no/dir/x", "" }); Error e = OK;
		c.check("array", FileAccess::get_file_as_array(G(q), &e).size() == 0 && e != OK); e = OK;
		c.check("string", FileAccess::get_file_as_string(G(q), &e) == String() && e != OK); e = OK;
		if (q != k.dir + "/none") { FileAccess::write_file(G(q), "x", &e); c.check("write", e != OK && !isfile(q)); }
		h = hs(q);
	}
	c.obs(h, true);
}

namespace r07 {
static std::vector<std::pair<SS, int>> g_closed; static std::vector<SS> g_close_failed;
static void on_close(const String &f, int flags) { g_closed.push_back({ S(f), flags }); }
static void on_close_fail(const String &f) { g_close_failed.push_back(S(f)); }
}

UNIT("R07", "file.opening", 10000, 300000) {
	Rng &r = c.rng; Case k(c); uint64_t h = 3; SS D = k.dir; static const char *names[] = { "a", "b c", "\xC3\xA9.txt", "none", "dir", "link", "dangling", "no/x", "dir/in", "todir" };
	wr(D + "/a", "aaa"); wr(D + "/b c", "bb"); wr(D + "/\xC3\xA9.txt", "e"); mkdir((D + "/dir").c_str(), 0777); wr(D + "/dir/in", "in"); if (symlink("a", (D + "/link").c_str()) || symlink("nowhere", (D + "/dangling").c_str()) || symlink("dir", (D + "/todir").c_str())) return;
	int n = r.range(1, 6); FileAccess *f = FileAccess::create(); FileAccess::close_notification_func = on_close; g_closed.clear(); size_t closes = 0;
	for (int i = 0; i < n; i++) {
		SS p = D + "/" + names[r.range(0, 9)]; int mode = r.pick(std::vector<int>{ 1, 2, 3, 7, 1, 2, 0, 4, 8 }); bool file = isfile(p), dir = isdir(p), par = isdir(p.substr(0, p.rfind('/'))); SS old; rd(p, old); bool was = f->is_open();
		switch (r.range(0, 6)) {
			case 0: case 1: { c.label(strf("open.%d", mode)); Error e = f->open(G(p), mode); if (was) closes++; bool valid = mode == 1 || mode == 2 || mode == 3 || mode == 7; bool want = valid && !dir && (file || ((mode == 2 || mode == 7) && par));
				c.check("error", (e == OK) == want, p.substr(D.size()) + strf(": %d", e)); c.check("open", f->is_open() == want);
				if (valid && !want) c.check("code", e == (dir ? ERR_FILE_CANT_OPEN : ERR_FILE_NOT_FOUND), strf("%d", e));
				if (!valid) c.check("code", e == ERR_INVALID_PARAMETER, strf("%d", e));
				SS now; rd(p, now); c.check("content", now == (want && (mode == 2 || mode == 7) ? SS() : old)); if (!want) c.check("created", isfile(p) == file && isdir(p) == dir); } break;
			case 2: { c.label("exists"); c.check("static", FileAccess::exists(G(p)) == file, p.substr(D.size())); closes = g_closed.size(); c.check("member", f->file_exists(G(p)) == file, p.substr(D.size())); } break;
			case 3: { if (!file) break; c.label("permissions"); int pm = r.range(0, 0777); c.check("error", FileAccess::set_unix_permissions(G(p), pm) == OK); struct stat st; stat(p.c_str(), &st); c.check("set", (st.st_mode & 07777) == (mode_t)pm, strf("%o, want %o", st.st_mode & 07777, pm)); c.check("get", (FileAccess::get_unix_permissions(G(p)) & 0777) == (uint32_t)pm); chmod(p.c_str(), 0666); } break;
			case 4: { c.label("modified_time"); if (file || dir) { struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = r.range(1, 2000000000); ts[0].tv_nsec = ts[1].tv_nsec = 0; utimensat(AT_FDCWD, p.c_str(), ts, 0); uint64_t g = FileAccess::get_modified_time(G(p)); c.check("value", g == (uint64_t)ts[1].tv_sec); } else c.check("missing", FileAccess::get_modified_time(G(p)) == 0 && FileAccess::set_unix_permissions(G(p), 0600) != OK); } break;
			case 5: { c.label("close"); f->close(); if (was) closes++; c.check("open", !f->is_open()); } break;
			case 6: { c.label("backslashes"); SS q = p; for (size_t j = D.size(); j < q.size(); j++) if (q[j] == '/') q[j] = '\\'; c.check("same_file", f->file_exists(G(q)) == file); } break;
		}
		c.label("close_notification"); c.check("count", g_closed.size() == closes, strf("%d notifications of %d closed files", (int)g_closed.size(), (int)closes)); h = hsh(h, hs(p) + mode);
	}
	memdelete(f); FileAccess::close_notification_func = nullptr;
	c.obs(h, true);
}

UNIT("R07", "file.safe_save", 6000, 200000) {
	Rng &r = c.rng; Case k(c); uint64_t h = 9; struct Off { ~Off() { FileAccess::set_backup_save(false); FileAccess::set_file_close_fail_notify_callback(nullptr); } } off;
	std::map<SS, SS> m; // what readers of each file must see
	for (int i = 0; i < 3; i++) if (r.chance(.6)) { SS p = k.dir + "/" + (char)('a' + i); m[p] = bytes(r, 40); wr(p, m[p]); }
	FileAccess::set_backup_save(true); FileAccess::set_file_close_fail_notify_callback(on_close_fail); g_close_failed.clear(); c.label("enabled"); c.check("state", FileAccess::is_backup_save_enabled());
	FileAccess *f = FileAccess::create(); SS cur, pending, seen; bool writing = false; int n = r.range(2, 12);
	auto finish = [&]() { if (writing) m[cur] = pending; writing = false; cur.clear(); };
	for (int i = 0; i < n; i++) {
		int op = r.range(0, 7); SS p = k.dir + "/" + (r.chance(.1) ? "no/x" : r.chance(.1) ? "a/b" : SS(1, (char)('a' + r.range(0, 2)))); h = hsh(h, op);
		if (op <= 1) { c.label("open_to_write"); bool par = isdir(p.substr(0, p.rfind('/'))); Error e = f->open(G(p), FileAccess::WRITE); finish(); c.check("error", (e == OK) == par, strf("%d", e)); if (par) { cur = p; pending.clear(); writing = true; } }
		else if (op == 2) { c.label("open_to_read"); bool file = isfile(p) || (writing && cur == p); Error e = f->open(G(p), FileAccess::READ); finish(); c.check("error", (e == OK) == file, strf("%d", e)); if (file) { cur = p; seen = m[p]; } }
		else if (op <= 4) { if (!writing) continue; c.label("store"); SS b = bytes(r, 30); f->store_buffer((const uint8_t *)b.data(), b.size()); pending += b; if (r.chance(.3)) f->flush(); }
		else if (op == 5) { c.label("close"); f->close(); finish(); }
		else if (op == 6) { c.label("write_file"); if (cur == p && writing) continue; bool par = isdir(p.substr(0, p.rfind('/'))); SS t = text(r, 20); Error e; FileAccess::write_file(G(p), G(t), &e); c.check("error", (e == OK) == par); if (par) m[p] = t; }
		else { if (writing || cur.empty()) continue; c.label("read"); f->seek(0); std::vector<uint8_t> b(seen.size() + 1); c.check("content", f->get_len() == seen.size() && f->get_buffer(b.data(), b.size()) == seen.size() && SS((char *)b.data(), seen.size()) == seen); }
		c.label("readers"); for (auto &x : m) { SS d; c.check("content", rd(x.first, d) && d == x.second, x.first.substr(k.dir.size()) + " holds " + shown(d) + ", want " + shown(x.second)); }
		c.check("failed", g_close_failed.empty(), g_close_failed.empty() ? "" : "close failed for " + g_close_failed[0].substr(k.dir.size()));
	}
	memdelete(f); finish(); c.label("at_end");
	for (auto &x : m) { SS d; c.check("content", rd(x.first, d) && d == x.second, x.first.substr(k.dir.size()) + " holds " + shown(d) + ", want " + shown(x.second)); }
	int files = 0; DIR *d = opendir(k.dir.c_str()); while (dirent *e = readdir(d)) if (e->d_name[0] != '.') files++; closedir(d);
	c.check("left_over", files == (int)m.size(), strf("%d files, want %d", files, (int)m.size()));
	c.obs(h, true);
}

UNIT("R07", "file.write_faults", 5000, 150000) {
	// the file system accepts only the first bytes of what is written
	Rng &r = c.rng; Case k(c); SS src = k.dir + "/src", dst = k.dir + "/dst"; int size = r.chance(.5) ? r.range(1, 300) : r.range(1, 200000); SS d(size, 0); for (auto &ch : d) ch = (char)r.next(); wr(src, d); int limit = r.chance(.3) ? r.range(0, size * 2) : r.range(0, size);
	struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = limit; int what = r.range(0, 4); SS got;
	if (what == 0) {
		DirAccess *da = DirAccess::create(); c.label("copy"); setrlimit(RLIMIT_FSIZE, &lim); Error e = da->copy(G(src), G(dst), r.chance(.3) ? 0600 : -1); setrlimit(RLIMIT_FSIZE, &old); memdelete(da); rd(dst, got);
		if (size <= limit) c.check("refused", e == OK && got == d); else c.check("silent", e != OK, strf("%d of %d bytes copied and success reported", (int)got.size(), size)); SS s2; c.check("source", rd(src, s2) && s2 == d);
	} else if (what == 1) {
		c.label("write_file_buffer"); Vector<uint8_t> v; v.resize(size); memcpy(v.ptrw(), d.data(), size); Error e = FAILED; setrlimit(RLIMIT_FSIZE, &lim); FileAccess::write_file_buffer(G(dst), v, &e); setrlimit(RLIMIT_FSIZE, &old); rd(dst, got);
		if (size <= limit) c.check("refused", e == OK && got == d); else c.check("silent", e != OK, strf("%d of %d bytes written and success reported", (int)got.size(), size));
	} else if (what >= 3) { // safe saving: readers see the complete old or the complete new content
		struct Off { ~Off() { FileAccess::set_backup_save(false); FileAccess::set_file_close_fail_notify_callback(nullptr); } } off; c.label("safe_save"); SS old_text; bool had = r.chance(.8); if (had) { old_text = bytes(r, 400); wr(dst, old_text); }
		FileAccess::set_backup_save(true); FileAccess::set_file_close_fail_notify_callback(on_close_fail); g_close_failed.clear(); FileAccess *f = FileAccess::create(); Error oe = f->open(G(dst), FileAccess::WRITE); if (!c.check("open", oe == OK)) { memdelete(f); return; }
		setrlimit(RLIMIT_FSIZE, &lim); int k2 = 0; bool fl = r.chance(.3), destroy = r.chance(.3); while (k2 < size) { int part = std::min(size - k2, r.range(1, 9000)); f->store_buffer((const uint8_t *)d.data() + k2, part); k2 += part; if (fl && r.chance(.3)) f->flush(); }
		if (destroy) memdelete(f); else f->close();
		setrlimit(RLIMIT_FSIZE, &old); if (!destroy) memdelete(f);
		bool there = rd(dst, got); if (size <= limit) c.check("saved", there && got == d && g_close_failed.empty(), "a complete save did not arrive"); else { c.check("lost", there == had && got == old_text, strf("after a save that failed the file holds %d bytes instead of the %d before", (int)got.size(), (int)old_text.size())); c.check("reported", g_close_failed.size() == 1 && g_close_failed[0] == dst, "a save that failed is not reported"); }
	} else {
		c.label("store"); FileAccess *f = FileAccess::create_and_open(G(dst), FileAccess::WRITE); if (!c.check("open", f)) return; setrlimit(RLIMIT_FSIZE, &lim); int k2 = 0;
		while (k2 < size) { int part = std::min(size - k2, r.range(1, 9000)); if (part == 1) f->store_8(d[k2]); else f->store_buffer((const uint8_t *)d.data() + k2, part); k2 += part; }
		f->flush(); Error e = f->get_error(); setrlimit(RLIMIT_FSIZE, &old); memdelete(f); rd(dst, got);
		if (size <= limit) c.check("refused", e == OK && got == d, strf("%d", e)); else c.check("silent", e != OK, strf("%d of %d bytes written and no error reported", (int)got.size(), size));
	}
	c.obs(hsh(hsh(what, size), limit), limit < size);
}

// ---- directories: every operation is done by plain system calls in a second, equal tree ----
namespace r07 {
static void snap(const SS &root, const SS &rel, std::map<SS, SS> &out, bool modes) {
	DIR *d = opendir((root + rel).c_str()); if (!d) return; std::vector<SS> n;
	while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name);
	closedir(d);
	for (auto &x : n) {
		SS q = rel + "/" + x; struct stat st; if (lstat((root + q).c_str(), &st)) continue;
		if (S_ISDIR(st.st_mode)) { out[q] = "dir"; snap(root, q, out, modes); }
		else if (S_ISLNK(st.st_mode)) { char b[PATH_MAX]; ssize_t l = readlink((root + q).c_str(), b, sizeof b); out[q] = "-> " + SS(b, l > 0 ? l : 0); }
		else { SS t; rd(root + q, t); out[q] = (modes ? strf("%o ", st.st_mode & 07777) : SS()) + t; }
	}
}
static SS treediff(const SS &a, const SS &b, bool modes = true) {
	std::map<SS, SS> x, y; snap(a, "", x, modes); snap(b, "", y, modes);
	for (auto &e : x) { auto i = y.find(e.first); if (i == y.end()) return e.first + " should not exist (" + shown(e.second) + ")"; if (i->second != e.second) return e.first + " is " + shown(e.second) + ", want " + shown(i->second); }
	for (auto &e : y) if (!x.count(e.first)) return e.first + " is missing (" + shown(e.second) + ")";
	return "";
}
static const std::vector<SS> NAMES = { "a", "b", "c d", "\xC3\xA9", "\xE6\x97\xA5\xE6\x9C\xAC", ".hid", "...", "x.txt", "-r", "%41", "~", "..x", "a", "b" };
struct Tree {
	SS a, b; // the tree worked on and its twin
	std::vector<SS> dirs; // relative, "" first
	static void mk(const SS &p) { mkdir(p.c_str(), 0777); }
};
static void ref_copy(const SS &from, const SS &to, int mode);
// random content, equal in both trees; links point anywhere inside the tree (relative) or outside of `sub`
static void grow(Rng &r, const SS &a, const SS &b, const SS &rel, int depth, bool links, bool dangling) {
	int n = r.range(depth ? 0 : 1, 5); std::set<SS> used;
	for (int i = 0; i < n; i++) {
		SS nm = r.pick(NAMES); if (!used.insert(nm).second) continue; SS q = rel + "/" + nm; int t = r.range(0, 9);
		struct stat st; if (lstat((a + q).c_str(), &st) == 0) continue;
		if (t < 4 && depth < 3) { Tree::mk(a + q); Tree::mk(b + q); grow(r, a, b, q, depth + 1, links, dangling); }
		else if (t < 6 && links) {
			SS up; for (int j = 0; j <= depth; j++) up += "../"; // from the directory of q to the root of the tree
			SS tgt = dangling && r.chance(.3) ? SS("gone") : r.chance(.1) ? up + SS(r.range(100, 180), '.') + "/" + SS(150, 'x') : up + "out" + (r.chance(.5) ? "/keep" : r.chance(.5) ? "/d" : "");
			if (!dangling && tgt.find("xx") != SS::npos) tgt = up + "out/keep";
			if (symlink(tgt.c_str(), (a + q).c_str()) || symlink(tgt.c_str(), (b + q).c_str())) {}
		} else { SS d = bytes(r, 20); int m = r.pick(std::vector<int>{ 0644, 0600, 0755 }); wr(a + q, d, m); wr(b + q, d, m); }
	}
}
static void walk(const SS &root, const SS &rel, std::vector<SS> &all) {
	DIR *d = opendir((root + rel).c_str()); if (!d) return; std::vector<SS> n; while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name);
	closedir(d); std::sort(n.begin(), n.end());
	for (auto &x : n) { all.push_back(rel + "/" + x); struct stat st; if (!lstat((root + rel + "/" + x).c_str(), &st) && S_ISDIR(st.st_mode)) walk(root, rel + "/" + x, all); }
}
static void plant_outside(Rng &r, const SS &a, const SS &b) { // what links lead to
	for (const SS *t : { &a, &b }) { Tree::mk(*t + "/out"); Tree::mk(*t + "/out/d"); wr(*t + "/out/keep", "keep"); wr(*t + "/out/d/deep", "deep"); }
}
static SS lexical(const SS &p) { // removes . and .. without looking at links
	std::vector<SS> v; size_t i = 0; while (i <= p.size()) { size_t j = p.find('/', i); if (j == SS::npos) j = p.size(); SS e = p.substr(i, j - i); i = j + 1; if (e.empty() || e == ".") continue; if (e == "..") { if (!v.empty()) v.pop_back(); } else v.push_back(e); }
	SS o; for (auto &e : v) o += "/" + e; return o.empty() ? "/" : o;
}
static void ref_erase(const SS &p) { DIR *d = opendir(p.c_str()); std::vector<SS> n; if (d) { while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name); closedir(d); } for (auto &x : n) wipe(p + "/" + x); }
static void ref_copy(const SS &from, const SS &to, int mode) { SS d; rd(from, d); wr(to, d, 0666); if (mode != -1) chmod(to.c_str(), mode); }
static bool ref_copy_dir(const SS &from, const SS &to, int mode, bool links, int depth = 0) { // to exists; false if something cannot be copied
	if (depth > 12) return false; DIR *d = opendir(from.c_str()); std::vector<SS> n; if (!d) return false; while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name);
	closedir(d); bool ok = true;
	for (auto &x : n) { SS f = from + "/" + x, t = to + "/" + x; struct stat st; lstat(f.c_str(), &st);
		if (links && S_ISLNK(st.st_mode)) { char b[PATH_MAX]; ssize_t l = readlink(f.c_str(), b, sizeof b - 1); b[l > 0 ? l : 0] = 0; if (symlink(b, t.c_str())) {} }
		else if (isdir(f)) { if (!isdir(t) && mkdir(t.c_str(), 0775)) ok = false; else ok = ref_copy_dir(f, t, mode, links, depth + 1) && ok; }
		else if (isfile(f)) { if (isdir(t)) ok = false; else ref_copy(f, t, mode); } else ok = false; }
	return ok;
}
} // namespace r07

UNIT("R07", "dir.history", 5000, 150000) {
	Rng &r = c.rng; Case k(c); SS A = k.dir + "/A", B = k.dir + "/B"; Tree::mk(A); Tree::mk(B); plant_outside(r, A, B); grow(r, A, B, "", 0, true, true); uint64_t h = 5;
	DirAccess *da = DirAccess::create(); c.label("open"); if (!c.check("refused", da->open(G(A)) == OK)) return; SS cur = ""; // relative to the trees
	auto somepath = [&]() { // relative to the trees, mostly existing
		std::vector<SS> all; walk(A, "", all); SS p = all.empty() || r.chance(.25) ? SS() : r.pick(all); if (p.empty() || r.chance(.3)) p += "/" + r.pick(NAMES); return p; };
	int n = r.range(3, 16);
	for (int i = 0; i < n; i++) {
		int op = r.range(0, 13); SS p = somepath(), given; h = hsh(h, hs(p) + op);
		// half of the requests are relative to the current directory
		if (r.chance(.5)) given = A + p;
		else { if (p.compare(0, cur.size() + 1, cur + "/") == 0) given = p.substr(cur.size() + 1); else { given = r.pick(NAMES); p = cur + "/" + given; } }
		SS pa = A + p, pb = B + p; struct stat st; bool there = lstat(pb.c_str(), &st) == 0; bool link = there && S_ISLNK(st.st_mode);
		switch (op) {
			case 0: { c.label("change_dir"); if (r.chance(.3)) { given = r.pick(std::vector<SS>{ "..", ".", "../..", "./", "nowhere", "a/../b", "" }); SS f = lexical(A + cur + "/" + given); if (f.compare(0, A.size(), A) != 0 || (f.size() > A.size() && f[A.size()] != '/')) break; p = f.substr(A.size()); pb = B + p; }
				Error e = da->change_dir(G(given)); bool want = isdir(pb); c.check("error", (e == OK) == want, given + strf(" from '%s': %d", cur.c_str(), e)); if (want) cur = p; SS g = lexical(S(da->get_current_dir())); c.check("current", g == lexical(A + cur), g + ", want " + A + cur); } break;
			case 1: { c.label("make_dir"); Error e = da->make_dir(G(given)); int w = mkdir(pb.c_str(), 0775); int er = errno; c.check("error", e == (w == 0 ? OK : er == EEXIST ? ERR_ALREADY_EXISTS : ERR_CANT_CREATE), strf("%d (%s)", e, strerror(er))); } break;
			case 2: { c.label("make_dir_recursive"); if (r.chance(.6)) { SS x = "/" + r.pick(NAMES) + (r.chance(.3) ? "/./" : r.chance(.2) ? "//" : "/") + r.pick(NAMES); p += x; given += x; } if (r.chance(.1)) given += "/"; p = lexical("/" + p); if (p == "/") break; SS at; bool ok = true; size_t j = 1; while (j <= p.size()) { size_t q = p.find('/', j); if (q == SS::npos) q = p.size(); SS part = B + p.substr(0, q); j = q + 1; if (mkdir(part.c_str(), 0775) && !isdir(part)) { ok = false; break; } }
				Error e = da->make_dir_recursive(G(given)); c.check("error", (e == OK) == ok, given + strf(": %d", e)); } break;
			case 3: { c.label("rename"); SS q = somepath(), gq = A + q; if (r.chance(.4)) { gq = r.pick(NAMES); q = cur + "/" + gq; } int w = ::rename(pb.c_str(), (B + q).c_str()); Error e = da->rename(G(given), G(gq)); c.check("error", (e == OK) == (w == 0), p + " to " + q + strf(": %d", e)); if (!isdir(B + cur)) { cur = ""; da->change_dir(G(A)); } } break;
			case 4: case 5: { c.label(link ? "remove.link" : "remove"); int w = there && S_ISDIR(st.st_mode) ? rmdir(pb.c_str()) : unlink(pb.c_str()); Error e = da->remove(G(given)); c.check("error", (e == OK) == (w == 0), p + strf(": %d", e)); if (!isdir(B + cur)) { cur = ""; da->change_dir(G(A)); } } break;
			case 6: { c.label("file_exists"); c.check("value", da->file_exists(G(given)) == (stat(pb.c_str(), &st) == 0 && !S_ISDIR(st.st_mode)), p); } break;
			case 7: { c.label("dir_exists"); c.check("value", da->dir_exists(G(given)) == isdir(pb), p); } break;
			case 8: { c.label(there ? "is_link" : "is_link.missing"); c.check("value", da->is_link(G(given)) == link, p); } break;
			case 9: { c.label("read_link"); SS w; if (link) { char b[PATH_MAX]; ssize_t l = readlink(pb.c_str(), b, sizeof b); w = SS(b, l > 0 ? l : 0); } SS g = S(da->read_link(G(given))); c.check("target", g == w, g + ", want " + w); } break;
			case 10: { c.label("create_link"); SS t = r.pick(std::vector<SS>{ "a", "out/keep", "../b", "gone", "." }); int w = symlink(t.c_str(), pb.c_str()); Error e = da->create_link(G(t), G(given)); c.check("error", (e == OK) == (w == 0), p); } break;
			case 11: { c.label("copy"); SS q = somepath(); if (q == p || !isfile(pb)) break; char r1[PATH_MAX], r2[PATH_MAX]; if (realpath(pb.c_str(), r1) && realpath((B + q).c_str(), r2) && !strcmp(r1, r2)) break; bool can = !isdir(B + q) && isdir(B + q.substr(0, q.rfind('/'))); int m = r.chance(.5) ? -1 : r.pick(std::vector<int>{ 0600, 0755, 0644 });
				if (can) { SS eff = effect((B + q).c_str(), true); struct stat ls; if (lstat((B + q).c_str(), &ls) == 0 && S_ISLNK(ls.st_mode) && !isfile(B + q)) break; if (eff.empty()) break; ref_copy(pb, B + q, m); } Error e = da->copy(G(pa), G(A + q), m); c.check("error", (e == OK) == can, p + " to " + q + strf(": %d", e)); } break;
			case 12: { c.label("exists"); c.check("value", DirAccess::exists(G(pa)) == isdir(pb), p); char old[PATH_MAX]; if (!getcwd(old, sizeof old)) break; if (chdir((A + cur).c_str())) break; SS rel = r.chance(.5) ? r.pick(NAMES) : SS("out"); bool g = DirAccess::exists(G(rel)); SS full = S(DirAccess::get_full_path(G(rel))); if (chdir(old)) _exit(3); bool w = isdir(B + cur + "/" + rel); c.label("exists.relative"); c.check("value", g == w, rel + " in " + cur); if (w) c.check("full_path", lexical(full) == lexical(A + cur + "/" + rel) || isdir(full), full); } break;
			case 13: { c.label("modified_time"); if (!there || stat(pa.c_str(), &st)) break; c.check("value", da->get_modified_time(G(given)) == (uint64_t)st.st_mtime); } break;
		}
		SS d = treediff(A, B); if (!c.check("tree", d.empty(), d)) break;
	}
	memdelete(da); c.obs(h, true);
}

UNIT("R07", "dir.listing", 4000, 120000) {
	Rng &r = c.rng; Case k(c); SS A = k.dir + "/A", B = k.dir + "/B"; Tree::mk(A); Tree::mk(B); plant_outside(r, A, B); grow(r, A, B, "", 0, true, true); uint64_t h = 6; std::vector<SS> all; walk(A, "", all); std::vector<SS> ds = { "" }; for (auto &x : all) if (isdir(A + x)) ds.push_back(x);
	DirAccess *da = DirAccess::create_for_path(G(A)); int n = r.range(1, 4);
	for (int i = 0; i < n; i++) {
		SS d = r.pick(ds); c.label("change_dir"); if (!c.check("error", da->change_dir(G(A + d)) == OK)) break; bool skip = r.chance(.5); int stop = r.chance(.2) ? r.range(0, 3) : -1; c.label(skip ? "list.skip_specials" : "list"); if (!c.check("begin", da->list_dir_begin(skip) == OK)) break;
		std::multiset<SS> got, want; DIR *dd = opendir((A + d).c_str()); while (dirent *e = readdir(dd)) { SS nm = e->d_name; if (!skip || (nm != "." && nm != "..")) want.insert(nm); } closedir(dd); bool stopped = false;
		for (;;) { if (stop >= 0 && (int)got.size() == stop) { da->list_dir_end(); c.check("after_end", da->get_next() == String()); stopped = true; break; } SS g = S(da->get_next()); if (g.empty()) break; got.insert(g); h = hsh(h, hs(g));
			bool special = g == "." || g == ".."; c.check("is_dir", da->current_is_dir() == isdir(A + d + "/" + g), g); c.check("is_file", da->current_is_file() == !isdir(A + d + "/" + g), g); c.check("is_special", da->current_is_special_dir() == special, g); c.check("is_hidden", da->current_is_hidden() == (!special && g[0] == '.'), g); }
		if (!stopped) c.check("entries", got == want, strf("%d entries, want %d", (int)got.size(), (int)want.size())); else for (auto &x : got) c.check("entry", want.count(x), x);
	}
	memdelete(da); c.obs(h, true);
}

UNIT("R07", "dir.erase", 4000, 120000) {
	// removing what a directory holds removes links, not what they lead to
	Rng &r = c.rng; Case k(c); SS A = k.dir + "/A", B = k.dir + "/B"; Tree::mk(A); Tree::mk(B); plant_outside(r, A, B); bool links = r.chance(.7); grow(r, A, B, "", 0, links, links); std::vector<SS> all; walk(A, "", all); std::vector<SS> ds; for (auto &x : all) { struct stat st; if (!lstat((A + x).c_str(), &st) && S_ISDIR(st.st_mode)) ds.push_back(x); }
	SS d = r.pick(ds); DirAccess *da = DirAccess::create_for_path(G(A + d)); c.label(links ? "erase_contents_recursive.links" : "erase_contents_recursive"); Error e = da->erase_contents_recursive(); ref_erase(B + d); c.check("error", e == OK, strf("%d", e)); SS df = treediff(A, B); c.check("tree", df.empty(), "after erasing " + d + ": " + df); c.check("current", lexical(S(da->get_current_dir())) == lexical(A + d)); memdelete(da);
	uint64_t h = hs(d); for (auto &x : all) h = hsh(h, hs(x)); c.obs(h, all.size() > 4);
}

UNIT("R07", "dir.copy", 4000, 120000) {
	Rng &r = c.rng; Case k(c); SS A = k.dir + "/A", B = k.dir + "/B"; Tree::mk(A); Tree::mk(B); plant_outside(r, A, B); bool links = r.chance(.6), keep = r.chance(.5); grow(r, A, B, "", 0, links, keep); std::vector<SS> all; walk(A, "", all); std::vector<SS> ds; for (auto &x : all) { struct stat st; if (!lstat((A + x).c_str(), &st) && S_ISDIR(st.st_mode)) ds.push_back(x); }
	SS from = r.pick(ds), to = r.chance(.3) && from != "/out" ? "/out" : r.chance(.5) ? "/new" : "/new/deep er"; if (from == to || to.compare(0, from.size() + 1, from + "/") == 0 || from.compare(0, to.size() + 1, to + "/") == 0) return; int m = r.chance(.6) ? -1 : r.pick(std::vector<int>{ 0600, 0644, 0755 }); SS cur = r.chance(.5) ? SS() : r.pick(ds);
	DirAccess *da = DirAccess::create_for_path(G(A + cur)); c.label(keep ? "copy_dir.links" : "copy_dir"); SS pf = A + from, pt = A + to + (r.chance(.3) ? "/" : ""); bool rel = false; char old[PATH_MAX]; if (!getcwd(old, sizeof old)) return;
	if (r.chance(.2)) { rel = true; if (chdir(A.c_str())) return; da->change_dir(G(A)); cur = ""; pf = from.substr(1); pt = to.substr(1); c.label("copy_dir.relative"); }
	SS x; bool ok = true; for (size_t j = 1; j <= to.size(); j++) if (j == to.size() || to[j] == '/') mkdir((B + to.substr(0, j)).c_str(), 0775);
	ok = ref_copy_dir(B + from, B + to, m, keep); Error e = da->copy_dir(G(pf), G(pt), m, keep); if (rel && chdir(old)) _exit(3);
	c.check("error", (e == OK) == ok, from + " to " + to + strf(": %d, want %s", e, ok ? "success" : "failure")); if (ok && e == OK) { SS df = treediff(A, B); c.check("tree", df.empty(), from + " to " + to + ": " + df); }
	c.check("current", lexical(S(da->get_current_dir())) == lexical(A + cur), S(da->get_current_dir())); memdelete(da); uint64_t h = hs(from + to); for (auto &y : all) h = hsh(h, hs(y)); c.obs(h, all.size() > 4);
}
