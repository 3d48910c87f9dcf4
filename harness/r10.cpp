// R10: the image class (pixels, formats, regions, scaling, mipmaps, colours, files).
// Files are written only into a scratch directory of the case.
#include "vh.h"
#include "image.h"
#include <algorithm>
#include <array>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vh;

namespace r10 {
typedef std::string SS;
typedef std::vector<uint8_t> BV;
typedef Ref<Image> RI;
typedef Image::Format F;
static const int CH[12] = { 1, 2, 1, 2, 3, 4, 4, 4, 1, 2, 3, 4 };
static const int PS[12] = { 1, 2, 1, 2, 3, 4, 2, 2, 4, 8, 12, 16 };
static bool isf(int f) { return f >= 8; }
static bool packed(int f) { return f == 6 || f == 7; }
static bool has_a(int f) { return f == 1 || f == 5 || f == 6 || f == 7 || f == 11; }
static SS fn(int f) { static const char *n[] = { "L8", "LA8", "R8", "RG8", "RGB8", "RGBA8", "RGBA4444", "RGBA5551", "RF", "RGF", "RGBF", "RGBAF" }; return n[f]; }
static SS hex(const uint8_t *p, int n) { SS o; for (int i = 0; i < n && i < 24; i++) o += strf("%02x", p[i]); return o; }

struct M { // model image: level 0 only
	int w = 0, h = 0, f = 0; BV d;
	uint8_t *at(int x, int y) { return &d[(size_t)(y * w + x) * PS[f]]; }
	const uint8_t *at(int x, int y) const { return &d[(size_t)(y * w + x) * PS[f]]; }
};
static void decode(int f, const uint8_t *p, double *o) {
	o[0] = o[1] = o[2] = 0; o[3] = 1; float q[4]; uint16_t u;
	if (isf(f)) { memcpy(q, p, PS[f]); for (int i = 0; i < CH[f]; i++) o[i] = q[i]; return; }
	if (packed(f)) {
		memcpy(&u, p, 2);
		if (f == 6) { for (int i = 0; i < 4; i++) o[i] = ((u >> (12 - 4 * i)) & 15) / 15.0; }
		else { for (int i = 0; i < 3; i++) o[i] = ((u >> (11 - 5 * i)) & 31) / 31.0; o[3] = u & 1; }
		return;
	}
	if (f <= 1) { o[0] = o[1] = o[2] = p[0] / 255.0; if (f == 1) o[3] = p[1] / 255.0; return; }
	for (int i = 0; i < CH[f]; i++) o[i] = p[i] / 255.0;
}
static void rnd_pixel(Rng &r, int f, uint8_t *p, int style) {
	if (isf(f)) { for (int i = 0; i < CH[f]; i++) { float v = style == 1 ? (float)r.range(0, 1) : style == 2 ? (float)r.f(-20, 20) : (float)r.uni(0, 1); if (style == 3 && i < 3) v = i ? ((float *)p)[0] : v; memcpy(p + 4 * i, &v, 4); } return; }
	if (packed(f)) { uint16_t u = r.next(); if (style == 1) u = r.chance(.5) ? 0 : 0xFFFF; memcpy(p, &u, 2); return; }
	for (int i = 0; i < PS[f]; i++) p[i] = style == 1 ? (r.chance(.5) ? 0 : 255) : style == 3 && i && i < 3 ? p[0] : r.range(0, 255);
}
static M rndm(Rng &r, int f = -1, int maxd = 9) {
	M m; m.f = f < 0 ? r.range(0, 11) : f; m.w = r.range(1, maxd); m.h = r.range(1, maxd); m.d.resize((size_t)m.w * m.h * PS[m.f]); int st = r.range(0, 3), mode = r.range(0, 3); float t[4];
	rnd_pixel(r, m.f, (uint8_t *)t, st);
	for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { if (mode == 0) memcpy(m.at(x, y), t, PS[m.f]); else rnd_pixel(r, m.f, m.at(x, y), st); }
	return m;
}
static Vector<uint8_t> gvec(const BV &d) { Vector<uint8_t> v; v.resize(d.size()); if (d.size()) memcpy(v.ptrw(), d.data(), d.size()); return v; }
static RI mk(const M &m, bool mips = false) {
	RI i; i.instance(); i->create(m.w, m.h, false, (F)m.f, gvec(m.d)); if (mips) i->generate_mipmaps(); return i;
}
static M of(RI i) { M m; m.w = i->get_width(); m.h = i->get_height(); m.f = i->get_format(); size_t n = (size_t)m.w * m.h * PS[m.f]; m.d.assign(n, 0); if ((size_t)i->get_data_size() >= n && n) memcpy(m.d.data(), i->datar(), n); return m; }
static BV all(RI i) { BV b(i->get_data_size()); if (!b.empty()) memcpy(b.data(), i->datar(), b.size()); return b; }

static int levels(int w, int h) { int n = 0; while (w > 1 || h > 1) { w = std::max(1, w / 2); h = std::max(1, h / 2); n++; } return n; }
// sizes, offsets and the number of levels fit together
static bool shape(Ctx &c, RI i, int w, int h, int f, bool mips, const char *when) {
	bool ok = c.check("dimensions", i->get_width() == w && i->get_height() == h, strf("%s: %dx%d, expected %dx%d", when, i->get_width(), i->get_height(), w, h));
	ok &= c.check("format", i->get_format() == f, strf("%s: format %s, expected %s", when, fn(i->get_format()).c_str(), fn(f).c_str()));
	ok &= c.check("has_mipmaps", i->has_mipmaps() == mips, strf("%s: has_mipmaps %d, expected %d", when, i->has_mipmaps(), mips));
	int n = mips ? levels(w, h) : 0, ww = w, hh = h, off = 0;
	ok &= c.check("mipmap_count", i->get_mipmap_count() == n, strf("%s: %d mipmaps of %dx%d, expected %d", when, i->get_mipmap_count(), w, h, n));
	for (int k = 0; k <= n; k++) {
		int o = -1, s = -1, o2 = -1, s2 = -1, aw = -1, ah = -1; i->get_mipmap_offset_and_size(k, o, s); i->get_mipmap_offset_size_and_dimensions(k, o2, s2, aw, ah);
		int go = i->get_mipmap_offset(k), so = Image::get_image_mipmap_offset(w, h, (F)f, k);
		ok &= c.check("level", o == off && go == off && so == off && o2 == off && s == ww * hh * PS[f] && s2 == s && aw == ww && ah == hh, strf("%s: level %d of %s %dx%d at %d/%d/%d/%d size %d/%d dims %dx%d, expected at %d, %dx%d", when, k, fn(f).c_str(), w, h, o, go, so, o2, s, s2, aw, ah, off, ww, hh));
		off += ww * hh * PS[f]; ww = std::max(1, ww / 2); hh = std::max(1, hh / 2);
	}
	ok &= c.check("data_size", i->get_data_size() == off && Image::get_image_data_size(w, h, (F)f, mips) == off && i->get_data().size() == off, strf("%s: %d bytes for %s %dx%d mipmaps %d, expected %d", when, i->get_data_size(), fn(f).c_str(), w, h, mips, off));
	return ok;
}
static bool same(Ctx &c, const char *kind, RI i, const M &m, const char *when, double tol = 0) {
	if (!shape(c, i, m.w, m.h, m.f, i->has_mipmaps(), when)) return false;
	M g = of(i); int n = PS[m.f];
	for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
		const uint8_t *a = g.at(x, y), *b = m.at(x, y); bool ok = true;
		if (tol == 0) ok = memcmp(a, b, n) == 0;
		else if (isf(m.f)) { const float *p = (const float *)a, *q = (const float *)b; for (int k = 0; k < CH[m.f]; k++) ok = ok && std::fabs(p[k] - q[k]) <= tol * std::max(1.0, (double)std::fabs(q[k])); }
		else if (packed(m.f)) { double p[4], q[4]; decode(m.f, a, p); decode(m.f, b, q); for (int k = 0; k < 4; k++) ok = ok && std::fabs(p[k] - q[k]) <= 1.01 / (m.f == 6 ? 15 : k == 3 ? 1 : 31); }
		else for (int k = 0; k < n; k++) ok = ok && std::abs((int)a[k] - (int)b[k]) <= tol;
		if (!ok) { c.fail(kind, strf("%s: pixel (%d,%d) of %s %dx%d is %s, expected %s", when, x, y, fn(m.f).c_str(), m.w, m.h, hex(a, n).c_str(), hex(b, n).c_str())); return false; }
	}
	return true;
}
static M half(const M &m, bool renorm = false) {
	M o; o.f = m.f; o.w = std::max(1, m.w / 2); o.h = std::max(1, m.h / 2); o.d.resize((size_t)o.w * o.h * PS[m.f]);
	for (int y = 0; y < o.h; y++) for (int x = 0; x < o.w; x++) {
		int x0 = m.w == 1 ? 0 : 2 * x, x1 = m.w == 1 ? 0 : 2 * x + 1, y0 = m.h == 1 ? 0 : 2 * y, y1 = m.h == 1 ? 0 : 2 * y + 1;
		const uint8_t *p[4] = { m.at(x0, y0), m.at(x1, y0), m.at(x0, y1), m.at(x1, y1) }; uint8_t *q = o.at(x, y);
		for (int k = 0; k < CH[m.f]; k++) {
			if (isf(m.f)) { double s = 0; for (int j = 0; j < 4; j++) s += ((const float *)p[j])[k]; ((float *)q)[k] = s / 4; }
			else { int s = 2; for (int j = 0; j < 4; j++) s += p[j][k]; q[k] = s >> 2; }
		}
		if (renorm && CH[m.f] >= 3) {
			double v[3], l = 0; for (int k = 0; k < 3; k++) { v[k] = isf(m.f) ? ((float *)q)[k] : q[k] / 255.0 * 2 - 1; l += v[k] * v[k]; }
			l = std::sqrt(l); for (int k = 0; k < 3; k++) { double t = l > 0 ? v[k] / l : 0; if (isf(m.f)) ((float *)q)[k] = t; else q[k] = (int)std::min(255.0, std::max(0.0, (t + 1) * .5 * 255)); }
		}
	}
	return o;
}
static bool mips_ok(Ctx &c, RI i, const char *when, bool renorm = false) {
	if (!i->has_mipmaps()) return true;
	int n = levels(i->get_width(), i->get_height()); BV b = all(i); M m = of(i); size_t off = m.d.size();
	for (int k = 1; k <= n; k++) {
		M e = half(m, renorm), g = e; if (off + g.d.size() > b.size()) return c.check("mipmap", false, "data ends early");
		memcpy(g.d.data(), &b[off], g.d.size()); off += g.d.size(); bool ok = true; size_t at = 0;
		for (size_t j = 0; j < g.d.size() && ok; j++) { if (isf(m.f)) { if (j % 4 == 0) { float x, y; memcpy(&x, &g.d[j], 4); memcpy(&y, &e.d[j], 4); ok = std::fabs(x - y) <= 1e-5 * std::max(1.0f, std::fabs(y)) || (renorm && y != y); } } else ok = std::abs((int)g.d[j] - (int)e.d[j]) <= (renorm ? 1 : 0); at = j; }
		if (!c.check("mipmap", ok, strf("%s: level %d of %s %dx%d, byte %d is %d, expected %d", when, k, fn(m.f).c_str(), i->get_width(), i->get_height(), (int)at, g.d[at], e.d[at]))) return false;
		m = g;
	}
	return true;
}
static Color gcol(const double *p) { return Color(p[0], p[1], p[2], p[3]); }
// how a component is stored: the clamped value scaled, rounded in either way
static bool quant(double got, double v, int top) { v = std::min(1.0, std::max(0.0, v)) * top; return std::fabs(got - v) < 1.0 - 1e-9 || std::fabs(got - std::round(v)) < 1e-6; }
static bool stored(int f, const uint8_t *p, const double *col, SS &why) {
	double q[4]; decode(f, p, q);
	if (isf(f)) { for (int k = 0; k < CH[f]; k++) if (q[k] != (float)col[k]) { why = strf("component %d is %g", k, q[k]); return false; } return true; }
	if (f <= 1) {
		double lo = std::min(col[0], std::min(col[1], col[2])), hi = std::max(col[0], std::max(col[1], col[2])); lo = std::min(1.0, std::max(0.0, lo)) * 255; hi = std::min(1.0, std::max(0.0, hi)) * 255;
		if (p[0] <= lo - 1 || p[0] >= hi + 1) { why = strf("luminance %d outside %g..%g", p[0], lo, hi); return false; }
		if (f == 1 && !quant(p[1], col[3], 255)) { why = strf("alpha %d", p[1]); return false; }
		return true;
	}
	int n = CH[f];
	for (int k = 0; k < n; k++) {
		if (f == 7 && k == 3) { if (col[3] != 0.5 && q[3] != (col[3] > 0.5)) { why = strf("alpha %g", q[3]); return false; } continue; }
		int top = f == 6 ? 15 : f == 7 ? 31 : 255;
		if (!quant(q[k] * top, col[k], top)) { why = strf("component %d is %g/%d", k, q[k] * top, top); return false; }
	}
	return true;
}
static SS cs(const double *p) { return strf("(%g %g %g %g)", p[0], p[1], p[2], p[3]); }

// ---------------------------------------------------------------- pixels
UNIT("R10", "image.pixels", 20000, 600000) {
	Rng &r = c.rng; M m = rndm(r); RI i; i.instance(); c.label(fn(m.f)); bool viadata = r.chance(.6); const bool mips = !viadata && r.chance(.3);
	if (viadata) { if (r.chance(.5)) i->create(m.w, m.h, false, (F)m.f, gvec(m.d)); else { PoolVector<uint8_t> pv; pv.resize(m.d.size()); { PoolVector<uint8_t>::Write wr = pv.write(); memcpy(wr.ptr(), m.d.data(), m.d.size()); } i->create(m.w, m.h, false, (F)m.f, pv); } }
	else { std::fill(m.d.begin(), m.d.end(), 0); if (r.chance(.5)) i = Ref<Image>(memnew(Image(m.w, m.h, mips, (F)m.f))); else i->create(m.w, m.h, mips, (F)m.f); }
	if (!shape(c, i, m.w, m.h, m.f, mips, "created") || !same(c, "created", i, m, "created")) return;
	c.check("format_name", !Image::get_format_name((F)m.f).empty() && Image::get_format_pixel_size((F)m.f) == PS[m.f] && !i->is_compressed() && !i->empty() && i->get_size() == Vector2(m.w, m.h), "format facts of " + fn(m.f));
	i->lock(); uint64_t h = m.f * 1000 + m.w;
	for (int k = r.range(2, 14); k > 0; k--) {
		int x = r.chance(.08) ? r.pick(std::vector<int>{ -1, m.w, -1000000, 1 << 30 }) : r.range(0, m.w - 1), y = r.chance(.08) ? r.pick(std::vector<int>{ -1, m.h, 1 << 30 }) : r.range(0, m.h - 1);
		bool in = x >= 0 && y >= 0 && x < m.w && y < m.h; long e = errors();
		if (r.chance(.5)) {
			Color g = r.chance(.5) || !in ? i->get_pixel(x, y) : i->get_pixelv(Vector2(x, y));
			if (!in) { c.check("outside", errors() > e, strf("read of (%d,%d) in %dx%d was not refused", x, y, m.w, m.h)); continue; }
			double w[4]; decode(m.f, m.at(x, y), w);
			for (int q = 0; q < 4; q++) if (!c.check("get", std::fabs(g[q] - w[q]) <= 1e-6 * std::max(1.0, std::fabs(w[q])), strf("%s %s read as (%g %g %g %g), expected %s", fn(m.f).c_str(), hex(m.at(x, y), PS[m.f]).c_str(), g.r, g.g, g.b, g.a, cs(w).c_str()))) return;
			BV before(m.at(x, y), m.at(x, y) + PS[m.f]); i->set_pixel(x, y, g); // what was read can be written back
			if (!c.check("write_back", memcmp(i->datar() + (size_t)(y * m.w + x) * PS[m.f], before.data(), PS[m.f]) == 0, strf("%s %s read and written back is %s", fn(m.f).c_str(), hex(before.data(), PS[m.f]).c_str(), hex(i->datar() + (size_t)(y * m.w + x) * PS[m.f], PS[m.f]).c_str()))) return;
		} else {
			double col[4]; for (double &v : col) v = (float)(r.chance(.2) ? r.range(0, 1) : r.chance(.15) ? r.f(-2, 3) : r.uni(0, 1)); if (r.chance(.2)) col[1] = col[2] = col[0];
			if (r.chance(.5) || !in) i->set_pixel(x, y, gcol(col)); else i->set_pixelv(Vector2(x, y), gcol(col));
			if (!in) { c.check("outside", errors() > e, strf("write to (%d,%d) in %dx%d was not refused", x, y, m.w, m.h)); if (!same(c, "outside", i, m, "refused write")) return; continue; }
			M g = of(i); SS why;
			if (!c.check("set", stored(m.f, g.at(x, y), col, why), strf("%s set to %s stores %s: %s", fn(m.f).c_str(), cs(col).c_str(), hex(g.at(x, y), PS[m.f]).c_str(), why.c_str()))) return;
			memcpy(m.at(x, y), g.at(x, y), PS[m.f]); if (!same(c, "neighbour", i, m, "write of one pixel")) return;
			h = hsh(h, m.at(x, y)[0]);
		}
	}
	i->unlock(); c.count("pixels", m.w * m.h); c.obs(h, true);
	long e = errors(); RI bad; bad.instance(); int wh = r.range(0, 4);
	if (wh == 0) bad->create(r.range(-3, 0), 4, false, (F)m.f); else if (wh == 1) bad->create(4, r.range(-3, 0), r.chance(.5), (F)m.f); else if (wh == 2) bad->create(16385, 1, false, (F)m.f); else if (wh == 3) bad->create(1, 1, false, (F)(12 + r.range(0, 3)));
	else { BV d = m.d; if (r.chance(.5)) d.pop_back(); else d.push_back(1); bad->create(m.w, m.h, false, (F)m.f, gvec(d)); }
	c.check("bad_creation", errors() > e && bad->empty() && bad->get_width() == 0, strf("creation %d was not refused", wh));
}

// ---------------------------------------------------------------- formats
static void bytes_of(int f, const uint8_t *p, int *o) { o[0] = o[1] = o[2] = 0; o[3] = 255; if (f <= 1) { o[0] = o[1] = o[2] = p[0]; if (f == 1) o[3] = p[1]; } else for (int k = 0; k < CH[f]; k++) o[k] = p[k]; }
static bool conv_ok(int sf, const uint8_t *s, int tf, const uint8_t *t, SS &why) {
	double col[4], q[4]; decode(sf, s, col); decode(tf, t, q);
	if (sf <= 5 && tf <= 5) { // bytes keep their value
		int a[4], b[4]; bytes_of(sf, s, a); bytes_of(tf, t, b); if (!has_a(tf)) a[3] = 255;
		if (tf <= 1) {
			int mn = std::min(a[0], std::min(a[1], a[2])), mx = std::max(a[0], std::max(a[1], a[2])), av = (a[0] + a[1] + a[2]) / 3; double lu = .299 * a[0] + .587 * a[1] + .114 * a[2], l7 = .2126 * a[0] + .7152 * a[1] + .0722 * a[2];
			if (!(b[0] == av || b[0] == mx || b[0] == (a[0] + a[1] + a[2] + 1) / 3 || std::fabs(b[0] - lu) <= 1 || std::fabs(b[0] - l7) <= 1) || b[0] < mn || b[0] > mx) { why = strf("luminance %d of %d %d %d", b[0], a[0], a[1], a[2]); return false; }
			if (b[3] != a[3]) { why = strf("alpha %d, was %d", b[3], a[3]); return false; }
			return true;
		}
		for (int k = 0; k < CH[tf]; k++) if (b[k] != a[k]) { why = strf("component %d is %d, was %d", k, b[k], a[k]); return false; }
		return true;
	}
	return stored(tf, t, col, why);
}
UNIT("R10", "image.convert", 20000, 600000) {
	Rng &r = c.rng; M m = rndm(r, -1, 7); bool mips = r.chance(.3) && !packed(m.f); RI i = mk(m, mips); int tf = r.chance(.6) ? r.range(0, 5) : r.range(0, 11); if (r.chance(.5) && m.f > 5) tf = r.range(0, 11);
	c.label(fn(m.f) + ">" + fn(tf)); i->convert((F)tf); SS why;
	if (!shape(c, i, m.w, m.h, tf, mips && (!packed(tf)), "converted")) return;
	M g = of(i);
	for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) if (!c.check("convert", conv_ok(m.f, m.at(x, y), tf, g.at(x, y), why), strf("%s %s becomes %s %s: %s", fn(m.f).c_str(), hex(m.at(x, y), PS[m.f]).c_str(), fn(tf).c_str(), hex(g.at(x, y), PS[tf]).c_str(), why.c_str()))) return;
	if (tf != m.f && !mips_ok(c, i, "converted")) return;
	// a wider format and back loses nothing
	bool wider = (m.f <= 5 && isf(tf) && CH[tf] >= CH[m.f] && m.f > 1) || (m.f == 1 && (tf == 5 || tf == 11)) || (m.f == 0 && (tf == 1 || tf == 2 || tf == 3 || tf == 4 || tf == 5 || tf == 10)) || (m.f > 1 && m.f <= 5 && tf > 2 && tf <= 5 && CH[tf] >= CH[m.f]) || (packed(m.f) && (tf == 11 || tf == 5)) || (isf(m.f) && isf(tf) && CH[tf] >= CH[m.f]);
	if (wider && !(m.f <= 1 && (tf == 2 || tf == 3))) { i->convert((F)m.f); same(c, "round_trip", i, m, ("back from " + fn(tf)).c_str()); c.count("round_trips"); }
	c.obs(hsh(m.f * 16 + tf, g.d.empty() ? 0 : g.d[g.d.size() / 2]), true);
}

// ---------------------------------------------------------------- scaling
static double comp(const M &m, int x, int y, int k) { const uint8_t *p = m.at(x, y); return isf(m.f) ? ((const float *)p)[k] : p[k]; }
static M channel(const M &m, int k) { M o; o.w = m.w; o.h = m.h; o.f = isf(m.f) ? 8 : 2; int s = PS[o.f]; o.d.resize((size_t)m.w * m.h * s); for (int j = 0; j < m.w * m.h; j++) memcpy(&o.d[j * s], &m.d[(size_t)j * PS[m.f] + k * s], s); return o; }
static M transposed(const M &m) { M o; o.w = m.h; o.h = m.w; o.f = m.f; o.d.resize(m.d.size()); for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) memcpy(o.at(y, x), m.at(x, y), PS[m.f]); return o; }
UNIT("R10", "image.resize", 12000, 400000) {
	Rng &r = c.rng; M m = rndm(r, -1, 14); int in = r.range(0, 4), w = r.range(1, 16), h = r.range(1, 16); static const char *IN[] = { "nearest", "bilinear", "cubic", "trilinear", "lanczos" };
	if (r.chance(.1)) { w = m.w * r.range(1, 3); h = m.h * r.range(1, 3); }
	bool mips = r.chance(.25) && !packed(m.f), po2 = r.chance(.1), sq = r.chance(.5); RI i = mk(m, mips); c.label(IN[in] + SS(isf(m.f) ? " float" : packed(m.f) ? " packed" : " bytes"));
	auto p2 = [](int v) { int p = 1; while (p < v) p *= 2; return p; };
	c.check("is_po2", i->is_size_po2() == (p2(m.w) == m.w && p2(m.h) == m.h), strf("is_size_po2 of %dx%d is %d", m.w, m.h, i->is_size_po2()));
	if (po2) { w = p2(m.w); h = p2(m.h); if (sq) w = h = std::max(w, h); }
	long e = errors();
	if (r.chance(.05)) {
		int k = r.range(0, 2); i->resize(k == 0 ? r.range(-2, 0) : k == 1 ? 16385 : 3, k == 2 ? r.range(-5, 0) : 3, (Image::Interpolation)in);
		c.check("bad_size", errors() > e, "an impossible size was not refused"); same(c, "bad_size", i, m, "refused resize"); return;
	}
	if (po2) i->resize_to_po2(sq, (Image::Interpolation)in); else i->resize(w, h, (Image::Interpolation)in);
	if (errors() > e) { c.check("refused", packed(m.f) && in != 0, "resize of " + fn(m.f) + " " + IN[in] + " refused"); same(c, "refused", i, m, "refused resize"); return; }
	if (w == m.w && h == m.h) { same(c, "same_size", i, m, "resize to the same size"); return; }
	if (!shape(c, i, w, h, m.f, mips, "resized") || !mips_ok(c, i, "resized")) return;
	M g = of(i);
	if (in == 0) {
		M e2 = g; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) memcpy(e2.at(x, y), m.at(x * m.w / w, y * m.h / h), PS[m.f]);
		same(c, "nearest", i, e2, "nearest");
	} else if (!c.check("packed", !packed(m.f), fn(m.f) + " interpolated as bytes")) return;
	if (!packed(m.f)) for (int k = 0; k < CH[m.f]; k++) {
		double mn = 1e30, mx = -1e30; for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { double v = comp(m, x, y, k); mn = std::min(mn, v); mx = std::max(mx, v); }
		double ov = in == 2 ? .6 : in == 4 ? 1 : 0, q = isf(m.f) ? 1e-4 * (std::fabs(mn) + std::fabs(mx) + 1) : mn == mx && in == 3 ? 2 : 1, sp = mx - mn;
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
			double v = comp(g, x, y, k);
			if (!c.check("range", v >= mn - ov * sp - q && v <= mx + ov * sp + q, strf("%s %s %dx%d to %dx%d: (%d,%d) component %d is %g, the image has %g..%g", IN[in], fn(m.f).c_str(), m.w, m.h, w, h, x, y, k, v, mn, mx))) return;
			if (in == 1 || (in == 3 && (double)w / m.w + (double)h / m.h >= 2.0001)) {
				double fx = (x + .5) * m.w / w - .5, fy = (y + .5) * m.h / h - .5; int x0 = (int)std::floor(fx), y0 = (int)std::floor(fy); double dx = fx - x0, dy = fy - y0;
				auto at = [&](int a, int b) { return comp(m, std::min(m.w - 1, std::max(0, a)), std::min(m.h - 1, std::max(0, b)), k); };
				double want = (at(x0, y0) * (1 - dx) + at(x0 + 1, y0) * dx) * (1 - dy) + (at(x0, y0 + 1) * (1 - dx) + at(x0 + 1, y0 + 1) * dx) * dy, tol = sp * 2.2 / 256 + (isf(m.f) ? q : 1.6);
				if (!c.check("bilinear", std::fabs(v - want) <= tol, strf("%s %dx%d to %dx%d: (%d,%d) component %d is %g, expected %g", fn(m.f).c_str(), m.w, m.h, w, h, x, y, k, v, want))) return;
			}
		}
	}
	if (in >= 1 && !packed(m.f)) { // each component is scaled on its own; rows and columns are treated alike
		int k = r.range(0, CH[m.f] - 1); RI j = mk(channel(m, k), mips); j->resize(w, h, (Image::Interpolation)in); M e2 = channel(g, k); same(c, "separate", j, e2, "one component", isf(m.f) ? 1e-4 : in == 3 ? 1 : 0);
		RI t = mk(transposed(m), mips); t->resize(h, w, (Image::Interpolation)in); same(c, "transposed", t, transposed(g), "transposed", isf(m.f) ? 2e-3 : 2);
	}
	c.count("scaled_pixels", w * h); c.obs(hsh(in * 100 + m.f, w * 64 + h), true);
}

// ---------------------------------------------------------------- regions
static M blank(int w, int h, int f) { M m; m.w = w; m.h = h; m.f = f; m.d.assign((size_t)w * h * PS[f], 0); return m; }
UNIT("R10", "image.regions", 25000, 800000) {
	Rng &r = c.rng; M m = rndm(r, -1, 10); int op = r.range(0, 10); static const char *N[] = { "crop", "flip", "get_rect", "blit", "blit_mask", "blend", "blend_mask", "fill", "fill_rect", "used_rect", "crop0" }; c.label(N[op]);
	bool mips = op < 2 && r.chance(.3) && !packed(m.f); RI i = mk(m, mips); uint64_t h = op * 20 + m.f; auto num = [&](int lo, int hi) { return r.range(lo, hi); };
	if (op == 0 || op == 10) {
		int x = op ? 0 : num(0, m.w + 2), y = op ? 0 : num(0, m.h + 2), w = num(1, 14), hh = num(1, 14); long e = errors();
		if (r.chance(.08)) { int k = r.range(0, 3); i->crop_from_point(k == 0 ? -1 : 0, k == 1 ? -2 : 0, k == 2 ? 0 : 2, k == 3 ? r.pick(std::vector<int>{ -1, 20000 }) : 2); c.check("bad_crop", errors() > e, "an impossible crop was not refused"); same(c, "bad_crop", i, m, "refused crop"); return; }
		if (op) i->crop(w, hh); else i->crop_from_point(x, y, w, hh);
		M g = blank(w, hh, m.f); for (int b = 0; b < hh; b++) for (int a = 0; a < w; a++) if (x + a < m.w && y + b < m.h) memcpy(g.at(a, b), m.at(x + a, y + b), PS[m.f]);
		if (shape(c, i, w, hh, m.f, mips, "cropped")) { same(c, "crop", i, g, "cropped"); mips_ok(c, i, "cropped"); }
	} else if (op == 1) {
		bool fx = r.chance(.5); if (fx) i->flip_x(); else i->flip_y(); M g = m; for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) memcpy(g.at(x, y), fx ? m.at(m.w - 1 - x, y) : m.at(x, m.h - 1 - y), PS[m.f]);
		if (shape(c, i, m.w, m.h, m.f, mips, "flipped")) { same(c, "flip", i, g, fx ? "flip_x" : "flip_y"); mips_ok(c, i, "flipped"); }
	} else if (op == 2) {
		int x = num(-4, m.w), y = num(-4, m.h), w = num(1, 12), hh = num(1, 12); RI g = i->get_rect(Rect2(x, y, w, hh));
		M e = blank(w, hh, m.f); for (int b = 0; b < hh; b++) for (int a = 0; a < w; a++) { int sx = x + a, sy = y + b; if (sx >= 0 && sy >= 0 && sx < m.w && sy < m.h) memcpy(e.at(a, b), m.at(sx, sy), PS[m.f]); }
		if (c.check("get_rect", g.is_valid(), "get_rect returned nothing")) same(c, "get_rect", g, e, strf("get_rect(%d,%d,%d,%d) of %dx%d", x, y, w, hh, m.w, m.h).c_str());
		same(c, "source_changed", i, m, "get_rect");
	} else if (op >= 3 && op <= 6) {
		bool mask = op == 4 || op == 6, blend = op >= 5; M s = rndm(r, m.f, 10); if (r.chance(.4)) for (int y = 0; y < s.h; y++) for (int x = 0; x < s.w; x++) rnd_pixel(r, s.f, s.at(x, y), 0);
		M k = rndm(r, r.pick(std::vector<int>{ 0, 1, 4, 5, 6, 7, 11 }), 3); { int f = k.f; k = blank(s.w, s.h, f); for (int y = 0; y < k.h; y++) for (int x = 0; x < k.w; x++) if (r.chance(.6)) rnd_pixel(r, f, k.at(x, y), r.chance(.5) ? 1 : 0); }
		RI src = mk(s), msk = mk(k); int x = num(-5, s.w + 1), y = num(-5, s.h + 1), w = num(0, 14), hh = num(0, 14), dx = num(-8, m.w + 2), dy = num(-8, m.h + 2); Rect2 R(x, y, w, hh); Vector2 D(dx, dy); long e = errors();
		bool wrong = r.chance(.05); if (wrong) { M o = rndm(r, (s.f + 1) % 12, 4); RI q = mk(o); if (mask && r.chance(.5)) { q = src; M o2 = blank(s.w + 1, s.h, 5); msk = mk(o2); } else if (mask) { M o2 = blank(o.w, o.h, 5); msk = mk(o2); } src = q; }
		if (op == 3) i->blit_rect(src, R, D); else if (op == 4) i->blit_rect_mask(src, msk, R, D); else if (op == 5) i->blend_rect(src, R, D); else i->blend_rect_mask(src, msk, R, D);
		if (wrong) { c.check("mismatch", errors() > e, "images of different formats or sizes were combined"); same(c, "mismatch", i, m, "refused"); return; }
		M g = m; M got = of(i); int touched = 0;
		for (int b = 0; b < hh; b++) for (int a = 0; a < w; a++) {
			int sx = x + a, sy = y + b, tx = dx + a, ty = dy + b; if (sx < 0 || sy < 0 || sx >= s.w || sy >= s.h || tx < 0 || ty < 0 || tx >= m.w || ty >= m.h) continue;
			if (mask) { double q[4]; decode(k.f, k.at(sx, sy), q); if (q[3] == 0) continue; }
			touched++;
			if (!blend) { memcpy(g.at(tx, ty), s.at(sx, sy), PS[m.f]); continue; }
			double p[4], q[4], o[4]; decode(m.f, m.at(tx, ty), p); decode(s.f, s.at(sx, sy), q); if (q[3] == 0) continue;
			o[3] = p[3] * (1 - q[3]) + q[3]; if (o[3] == 0) o[0] = o[1] = o[2] = 0; else for (int j = 0; j < 3; j++) o[j] = (p[j] * p[3] * (1 - q[3]) + q[j] * q[3]) / o[3];
			bool ok = true; double z[4]; decode(m.f, got.at(tx, ty), z); double step = isf(m.f) ? 0 : m.f == 6 ? 1 / 15. : m.f == 7 ? 1 / 31. : 1 / 255.; double sc = isf(m.f) ? 20 / std::max(.01, std::fabs(o[3])) * 2e-5 : 1e-4;
			for (int j = 0; j < (m.f <= 1 ? 1 : std::min(3, CH[m.f])); j++) { double t = isf(m.f) ? o[j] : std::min(1.0, std::max(0.0, o[j])); ok = ok && std::fabs(z[j] - t) <= step + sc * std::max(1.0, std::fabs(t)); }
			if (has_a(m.f)) { double t = isf(m.f) ? o[3] : std::min(1.0, std::max(0.0, o[3])); ok = ok && (m.f == 7 ? std::fabs(o[3] - .5) < 1e-6 || z[3] == (o[3] > .5) : std::fabs(z[3] - t) <= step + sc * std::max(1.0, std::fabs(t))); }
			if (isf(m.f) && m.f == 11 && std::fabs(o[3]) < .05) ok = true;
			if (!c.check("blend", ok, strf("%s %s over %s gives %s, expected %s", fn(m.f).c_str(), cs(q).c_str(), cs(p).c_str(), cs(z).c_str(), cs(o).c_str()))) return;
			memcpy(g.at(tx, ty), got.at(tx, ty), PS[m.f]);
		}
		same(c, "placement", i, g, strf("%s of (%d,%d,%d,%d) from %dx%d to (%d,%d) in %dx%d", N[op], x, y, w, hh, s.w, s.h, dx, dy, m.w, m.h).c_str()); same(c, "source_changed", mk(s), of(src), "source"); h = hsh(h, touched);
	} else if (op == 7 || op == 8) {
		double col[4]; for (double &v : col) v = (float)(r.chance(.3) ? r.range(0, 1) : r.uni(0, 1)); int x = num(-4, m.w + 1), y = num(-4, m.h + 1), w = num(-6, 14), hh = num(-6, 14); if (op == 7) { i->fill(gcol(col)); x = y = 0; w = m.w; hh = m.h; } else i->fill_rect(Rect2(x, y, w, hh), gcol(col));
		if (w < 0) { x += w; w = -w; } if (hh < 0) { y += hh; hh = -hh; }
		M g = of(i), e = m; const uint8_t *first = nullptr; SS why;
		for (int b = std::max(0, y); b < std::min(m.h, y + hh); b++) for (int a = std::max(0, x); a < std::min(m.w, x + w); a++) { if (!first) { first = g.at(a, b); c.check("fill", stored(m.f, first, col, why), fn(m.f) + " filled with " + cs(col) + ": " + why); } memcpy(e.at(a, b), first, PS[m.f]); }
		same(c, "fill_area", i, e, strf("fill (%d,%d,%d,%d) of %dx%d", x, y, w, hh, m.w, m.h).c_str());
	} else if (op == 9) {
		if (r.chance(.7)) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) if (r.chance(.8)) memset(m.at(x, y), 0, PS[m.f]); // mostly transparent
		i = mk(m); Rect2 u = i->get_used_rect(); int x0 = 99, y0 = 99, x1 = -1, y1 = -1;
		for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { double q[4]; decode(m.f, m.at(x, y), q); if (q[3] > 0) { x0 = std::min(x0, x); x1 = std::max(x1, x); y0 = std::min(y0, y); y1 = std::max(y1, y); } }
		Rect2 w = x1 < 0 ? Rect2() : Rect2(x0, y0, x1 - x0 + 1, y1 - y0 + 1);
		c.check("used_rect", u == w, strf("%s: used (%g,%g,%g,%g), expected (%g,%g,%g,%g)", fn(m.f).c_str(), u.position.x, u.position.y, u.size.x, u.size.y, w.position.x, w.position.y, w.size.x, w.size.y)); same(c, "source_changed", i, m, "used_rect");
	}
	c.obs(hsh(h, m.w * 16 + m.h), true);
}

// ---------------------------------------------------------------- mipmaps
UNIT("R10", "image.mipmaps", 10000, 300000) {
	Rng &r = c.rng; M m = rndm(r, -1, r.chance(.2) ? 40 : 12); RI i = mk(m); c.label(fn(m.f)); long e = errors(); bool rn = r.chance(.3) && CH[m.f] >= 3;
	if (rn && isf(m.f)) for (int k = 0; k < m.w * m.h; k++) for (int q = 0; q < 3; q++) { float v = r.f(.1, 1); memcpy(&m.d[(size_t)k * PS[m.f] + 4 * q], &v, 4); }
	if (rn) i = mk(m);
	int ret = i->generate_mipmaps(rn); uint64_t h = m.f;
	if (packed(m.f)) { c.check("packed", ret != 0 && errors() > e, "mipmaps of a packed format were not refused"); same(c, "packed", i, m, "refused"); shape(c, i, m.w, m.h, m.f, false, "refused"); c.obs(h, false); return; }
	if (!c.check("result", ret == 0 && errors() == e, strf("generate_mipmaps returns %d", ret)) || !shape(c, i, m.w, m.h, m.f, true, "mipmaps") || !same(c, "base", i, m, "mipmaps") || !mips_ok(c, i, "mipmaps", rn)) return;
	int op = r.range(0, 3); int n = levels(m.w, m.h);
	{ long e1 = errors(); c.check("level_range", i->get_mipmap_offset(n + 1) == -1 && errors() > e1, "a level that does not exist has an offset"); }
	if (op == 0) { i->clear_mipmaps(); shape(c, i, m.w, m.h, m.f, false, "cleared"); same(c, "clear", i, m, "cleared"); i->clear_mipmaps(); same(c, "clear", i, m, "cleared twice"); }
	else if (op == 1) { BV was = all(i); M want = half(m); if (rn) { memcpy(want.d.data(), was.data() + m.d.size(), n ? want.d.size() : 0); } i->shrink_x2(); if (shape(c, i, want.w, want.h, m.f, true, "shrunk") && n) { same(c, "shrink", i, want, "shrunk", isf(m.f) ? 1e-5 : 0); BV now = all(i); c.check("shrink_levels", now == BV(was.begin() + m.d.size(), was.end()), "the remaining levels changed"); } }
	else if (op == 2) { BV was = all(i); i->generate_mipmaps(rn); c.check("again", all(i) == was, "generating the mipmaps again changed them"); }
	else { i->clear_mipmaps(); long e2 = errors(); i->shrink_x2(); if (m.w < 2 || m.h < 2) { if (errors() > e2) same(c, "shrink_refused", i, m, "refused"); else shape(c, i, std::max(1, m.w / 2), std::max(1, m.h / 2), m.f, false, "shrunk"); } else same(c, "shrink", i, half(m), "shrunk without mipmaps", isf(m.f) ? 1e-5 : 0); }
	c.count("levels", n); c.obs(hsh(h, m.w * 64 + m.h), n > 1);
}

// ---------------------------------------------------------------- colours and channels
UNIT("R10", "image.colours", 15000, 500000) {
	Rng &r = c.rng; int op = r.range(0, 7); static const char *N[] = { "alpha", "premultiply", "linear", "channels", "normalize", "edges", "normalmap", "bumpmap" }; c.label(N[op]); uint64_t h = op;
	if (op == 0) {
		M m = rndm(r, -1, 6); int mode = r.range(0, 3); // all transparent, all opaque, both, anything
		if (mode < 3 && has_a(m.f)) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { uint8_t *p = m.at(x, y); bool on = mode == 1 || (mode == 2 && r.chance(.5)); if (m.f == 1) p[1] = on ? 255 : 0; else if (m.f == 5) p[3] = on ? 255 : 0; else if (m.f == 6) p[0] = on ? p[0] | 15 : p[0] & 0xF0; else if (m.f == 7) p[0] = on ? p[0] | 1 : p[0] & 0xFE; else ((float *)p)[3] = on ? 1 : 0; }
		bool mips = r.chance(.3) && !packed(m.f); RI i = mk(m, mips); bool any = false, zero = false, part = false, edge = false;
		for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { double q[4]; decode(m.f, m.at(x, y), q); if (q[3] > 0) any = true; double b = q[3] * 255; if (b <= .01) zero = true; else if (b < 3 || (b > 252.5 && b < 254.99)) edge = true; else if (b < 254) part = true; }
		if (!has_a(m.f) || m.f != 11 || !edge) c.check("invisible", i->is_invisible() == !any || (m.f == 11 && edge), strf("%s invisible %d, but visible pixels %d", fn(m.f).c_str(), i->is_invisible(), any));
		Image::AlphaMode want = part ? Image::ALPHA_BLEND : zero ? Image::ALPHA_BIT : Image::ALPHA_NONE; if (!edge || part) c.check("detect_alpha", i->detect_alpha() == want, strf("%s: alpha mode %d, expected %d", fn(m.f).c_str(), (int)i->detect_alpha(), (int)want));
		same(c, "source_changed", i, m, "asked about alpha"); h = hsh(h, want * 16 + m.f);
	} else if (op == 1) {
		M m = rndm(r, 5, 8); RI i = mk(m); i->premultiply_alpha(); M g = of(i);
		for (int k = 0; k < m.w * m.h; k++) for (int q = 0; q < 4; q++) { int v = m.d[k * 4 + q], a = m.d[k * 4 + 3]; double w = q == 3 ? v : v * a / 255.0; int x = g.d[k * 4 + q]; bool ok = q == 3 ? x == v : a == 255 ? x == v : a == 0 ? x == 0 : std::fabs(x - w) <= 1.01; if (!c.check("premultiply", ok, strf("component %d of alpha %d becomes %d", v, a, x))) return; }
		M o = rndm(r, r.pick(std::vector<int>{ 0, 1, 4, 6, 11 }), 4); RI j = mk(o); j->premultiply_alpha(); same(c, "other_format", j, o, "premultiply");
	} else if (op == 2) {
		M m = rndm(r, r.chance(.5) ? 4 : 5, 8); RI i = mk(m); i->srgb_to_linear(); M g = of(i); int n = PS[m.f];
		for (int k = 0; k < m.w * m.h; k++) for (int q = 0; q < n; q++) { int v = m.d[k * n + q], x = g.d[k * n + q]; double s = v / 255.0, l = (s <= .04045 ? s / 12.92 : std::pow((s + .055) / 1.055, 2.4)) * 255; if (!c.check("linear", q == 3 ? x == v : std::fabs(x - l) <= 1.01, strf("component %d of %d becomes %d, expected %g", q, v, x, l))) return; }
	} else if (op == 3) {
		M m = rndm(r, r.chance(.7) ? r.range(0, 5) : -1, 5); int keep = r.range(0, 15); // some components empty
		if (r.chance(.5) && m.f >= 2 && m.f <= 5) for (int k = 0; k < m.w * m.h; k++) for (int q = 0; q < CH[m.f]; q++) if (!(keep >> q & 1)) m.d[k * PS[m.f] + q] = q == 3 ? 255 : 0;
		RI i = mk(m); bool clean = true; if (isf(m.f) || packed(m.f)) clean = false;
		i->optimize_channels();
		if (c.check("optimized_size", i->get_width() == m.w && i->get_height() == m.h && i->get_format() <= 5, "optimize_channels gives " + fn(i->get_format()))) {
			M g = of(i);
			for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { double p[4], q[4]; decode(m.f, m.at(x, y), p); decode(g.f, g.at(x, y), q); for (int k = 0; k < 4; k++) { double v = clean ? p[k] : std::min(1.0, std::max(0.0, p[k])); if (!c.check("optimized", std::fabs(v - q[k]) <= (clean ? 1e-9 : 1 / 255.0 + .0011), strf("%s %s is %s in %s, was %s", fn(m.f).c_str(), hex(m.at(x, y), PS[m.f]).c_str(), cs(q).c_str(), fn(g.f).c_str(), cs(p).c_str()))) return; } }
			h = hsh(h, g.f * 16 + m.f);
		}
	} else if (op == 4) {
		M m = rndm(r, r.pick(std::vector<int>{ 4, 5, 10, 11 }), 6); if (isf(m.f)) for (int k = 0; k < m.w * m.h * CH[m.f]; k++) ((float *)m.d.data())[k] = r.uni(0, 1);
		bool mips = r.chance(.3); RI i = mk(m, mips); i->normalize(); M g = of(i); if (!shape(c, i, m.w, m.h, m.f, mips, "normalized")) return;
		for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { double p[4], q[4], l = 0; decode(m.f, m.at(x, y), p); decode(g.f, g.at(x, y), q); for (int k = 0; k < 3; k++) l += (p[k] * 2 - 1) * (p[k] * 2 - 1); l = std::sqrt(l); if (l < .02) continue; for (int k = 0; k < 3; k++) if (!c.check("normalize", std::fabs(q[k] - ((p[k] * 2 - 1) / l * .5 + .5)) <= (isf(m.f) ? 1e-4 : 1.05 / 255), strf("%s normalized to %s", cs(p).c_str(), cs(q).c_str()))) return; if (!c.check("normalize_alpha", q[3] == p[3], "alpha changed")) return; }
	} else if (op == 5) {
		M m = rndm(r, 5, 12); double dens = r.pick(std::vector<double>{ .02, .2, .7 }); for (int k = 0; k < m.w * m.h; k++) { for (int q = 0; q < 3; q++) m.d[k * 4 + q] = r.range(0, 255); m.d[k * 4 + 3] = r.chance(dens) ? r.range(20, 255) : r.range(0, 19); }
		RI i = mk(m); i->fix_alpha_edges(); M g = of(i);
		for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
			const uint8_t *p = m.at(x, y), *q = g.at(x, y); if (!c.check("edge_alpha", q[3] == p[3], "alpha changed")) return;
			int best = 1 << 30; if (p[3] < 20) for (int b = std::max(0, y - 4); b <= std::min(m.h - 1, y + 4); b++) for (int a = std::max(0, x - 4); a <= std::min(m.w - 1, x + 4); a++) if (m.at(a, b)[3] >= 20) best = std::min(best, (a - x) * (a - x) + (b - y) * (b - y));
			bool ok = false; if (best == 1 << 30) ok = memcmp(p, q, 4) == 0; else for (int b = std::max(0, y - 4); b <= std::min(m.h - 1, y + 4); b++) for (int a = std::max(0, x - 4); a <= std::min(m.w - 1, x + 4); a++) if (m.at(a, b)[3] >= 20 && (a - x) * (a - x) + (b - y) * (b - y) == best && memcmp(m.at(a, b), q, 3) == 0) ok = true;
			if (!c.check("edge", ok, strf("pixel (%d,%d) of alpha %d becomes %s", x, y, p[3], hex(q, 4).c_str()))) return;
		}
	} else if (op == 6) {
		M m = rndm(r, r.chance(.5) ? 4 : 5, 6); RI i = mk(m); i->normalmap_to_xy(); M g = of(i); if (!shape(c, i, m.w, m.h, 1, false, "xy")) return;
		for (int k = 0; k < m.w * m.h; k++) if (!c.check("xy", g.d[k * 2] == m.d[k * PS[m.f] + 1] && g.d[k * 2 + 1] == m.d[k * PS[m.f]], strf("normal %s becomes %s", hex(&m.d[k * PS[m.f]], 3).c_str(), hex(&g.d[k * 2], 2).c_str()))) return;
	} else {
		M m = rndm(r, r.pick(std::vector<int>{ 0, 2, 8 }), 7); bool mips = r.chance(.2); float sc = r.pick(std::vector<float>{ 1, 2, .5f, -1 }); RI i = mk(m, mips); i->bumpmap_to_normalmap(sc); if (!shape(c, i, m.w, m.h, 5, i->has_mipmaps(), "bumpmap")) return; if (i->has_mipmaps() && !mips_ok(c, i, "bumpmap", true)) return;
		M g = of(i); auto at = [&](int x, int y) { double q[4]; decode(m.f, m.at(x % m.w, y % m.h), q); return q[0]; };
		for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
			double a = (at(x, y) - at(x, y + 1)) * sc, b = (at(x + 1, y) - at(x, y)) * sc, nx = -b, ny = -a, nz = 1, l = std::sqrt(nx * nx + ny * ny + nz * nz); double w[3] = { nx / l, ny / l, nz / l };
			for (int k = 0; k < 3; k++) if (!c.check("bumpmap", std::fabs(g.at(x, y)[k] - (127.5 + w[k] * 127.5)) <= 1.02, strf("normal at (%d,%d) is %s, expected %g %g %g", x, y, hex(g.at(x, y), 4).c_str(), w[0], w[1], w[2]))) return;
			if (!c.check("bumpmap", g.at(x, y)[3] == 255, "transparent normal")) return;
		}
	}
	c.obs(hsh(h, r.next() & 63), true);
}

// ---------------------------------------------------------------- sharing, locking, empty images
UNIT("R10", "image.life", 8000, 200000) {
	Rng &r = c.rng; int op = r.range(0, 2); static const char *N[] = { "copies", "locked", "empty" }; c.label(N[op]); M m = rndm(r, -1, 6); RI i = mk(m); uint64_t h = op * 16 + m.f;
	auto change = [&](RI t, int k) {
		switch (k) {
			case 0: t->set_pixel(0, 0, Color(.3, .6, .9, .8)); break; case 1: t->fill(Color(.5, .2, .7, .4)); break; case 2: t->flip_x(); break; case 3: t->convert(m.f == 5 ? Image::FORMAT_RGB8 : Image::FORMAT_RGBA8); break;
			case 4: t->resize(3, 5, Image::INTERPOLATE_NEAREST); break; case 5: t->crop(2, 7); break; case 6: t->generate_mipmaps(); break; case 7: t->clear(); break; case 8: t->dataw()[0] ^= 0x55; break; case 9: t->fill_rect(Rect2(0, 0, 1, 1), Color(0, 1, 0)); break; default: t->flip_y(); break;
		}
	};
	if (op == 0) {
		RI o = r.chance(.6) ? i->duplicate() : RI(memnew(Image)); if (o->empty()) o->copy_internals_from(i); if (!same(c, "copy", o, m, "copy")) return;
		bool which = r.chance(.5); int k = r.range(0, 10); change(which ? i : o, k); same(c, "copy_shared", which ? o : i, m, strf("after change %d of the other one", k).c_str());
		Vector<uint8_t> d = (which ? o : i)->get_data(); BV b = all(which ? o : i); change(which ? o : i, 8); c.check("data_shared", (int)b.size() == d.size() && memcmp(b.data(), d.ptr(), b.size()) == 0, "the data that was handed out changed"); h = hsh(h, k);
	} else if (op == 1) {
		i->lock(); long e = errors(); int k = r.range(0, 6); if (k == 0) i->convert(m.f == 5 ? Image::FORMAT_RGB8 : Image::FORMAT_RGBA8); else if (k == 1) i->resize(m.w + 1, m.h); else if (k == 2) i->crop(m.w, m.h + 1); else if (k == 3) i->generate_mipmaps(); else if (k == 4) i->shrink_x2(); else if (k == 5) i->create(2, 2, false, Image::FORMAT_L8); else i->bumpmap_to_normalmap();
		c.check("locked", errors() > e, strf("operation %d on a locked image was not refused", k)); same(c, "locked", i, m, "refused while locked"); i->unlock(); shape(c, i, m.w, m.h, m.f, false, "unlocked"); i->crop(m.w, m.h + 1); c.check("unlocked", i->get_height() == m.h + 1, "an unlocked image cannot be cropped"); h = hsh(h, k);
	} else {
		bool cleared = r.chance(.5); bool mips = r.chance(.4) && !packed(m.f); if (cleared) { i = mk(m, mips); i->clear(); } else { i.unref(); i.instance(); }
		c.check("empty", i->empty() && i->get_width() == 0 && i->get_height() == 0 && i->get_data_size() == 0, "an empty image has content"); int k = r.range(0, 17); RI o = mk(m); h = hsh(h, k);
		switch (k) {
			case 0: i->fill(Color(1, 1, 1)); break; case 1: i->fill_rect(Rect2(0, 0, 4, 4), Color(1, 1, 1)); break; case 2: i->flip_x(); i->flip_y(); break; case 3: i->convert(Image::FORMAT_RGBAF); break; case 4: i->resize(3, 3); break; case 5: i->generate_mipmaps(); i->clear_mipmaps(); break;
			case 6: i->shrink_x2(); break; case 7: i->normalize(); break; case 8: i->premultiply_alpha(); i->fix_alpha_edges(); i->srgb_to_linear(); break; case 9: i->get_used_rect(); i->detect_alpha(); i->is_invisible(); break; case 10: i->get_detected_channels(); i->optimize_channels(); break;
			case 11: i->blit_rect(o, Rect2(0, 0, 3, 3), Vector2()); o->blit_rect(i, Rect2(0, 0, 3, 3), Vector2()); break; case 12: o->blend_rect(i, Rect2(0, 0, 3, 3), Vector2()); i->blend_rect(o, Rect2(0, 0, 3, 3), Vector2()); break; case 13: i->set_pixel(0, 0, Color()); i->get_pixel(0, 0); break; case 14: i->lock(); i->unlock(); break;
			case 15: i->normalmap_to_xy(); break; case 16: i->bumpmap_to_normalmap(); break; default: { RI d = i->duplicate(); c.check("empty_copy", d->empty(), "copy of an empty image"); } break;
		}
		same(c, "empty_source", o, m, "used with an empty image");
		if (i->empty()) shape(c, i, 0, 0, i->get_format(), i->has_mipmaps(), "empty"); 
		i->create(3, 2, false, Image::FORMAT_LA8); shape(c, i, 3, 2, 1, false, "created again");
	}
	c.obs(h, true);
}

// ---------------------------------------------------------------- files
struct Dir { SS p; Dir() { char t[] = "/tmp/vh_r10_XXXXXX"; if (!mkdtemp(t)) _exit(3); p = t; } ~Dir() { DIR *d = opendir(p.c_str()); if (d) { while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) ::unlink((p + "/" + e->d_name).c_str()); closedir(d); } ::rmdir(p.c_str()); } };
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (d) { while (readdir(d)) n++; closedir(d); } return n; }
UNIT("R10", "image.files", 1500, 40000) {
	Rng &r = c.rng; Dir dir; int k = r.range(0, 4); static const char *N[] = { "png", "bmp", "tga", "jpg", "hdr" }; M m = rndm(r, k == 4 ? r.range(8, 11) : r.range(0, 5), 20); if (r.chance(.1)) { m = rndm(r, k == 4 ? 10 : 4, 90); }
	if (k == 4) for (size_t j = 0; j < m.d.size() / 4; j++) ((float *)m.d.data())[j] = r.f(.01, 1);
	c.label(N[k] + SS(" ") + fn(m.f)); RI i = mk(m); SS path = dir.p + "/picture " + (r.chance(.3) ? "\xc3\xa9" : "x") + "." + N[k]; String gp = String::utf8(path.c_str()); int f0 = fds(); long e = errors(); Error er = OK;
	if (r.chance(.08)) { // impossible places and formats
		bool fmt = r.chance(.5); if (fmt) { M b = rndm(r, k == 4 ? 4 : 10, 4); i = mk(b); } else gp = String::utf8((dir.p + "/missing/picture").c_str());
		er = k == 0 ? i->save_png(gp) : k == 1 ? i->save_bmp(gp) : k == 2 ? i->save_tga(gp) : k == 3 ? i->save_jpg(gp, 90) : i->save_hdr(gp); c.check("unsavable", er != OK, strf("saving %s as %s reports success", fmt ? "a wrong format" : "to a missing directory", N[k])); c.check("descriptors", fds() == f0, "a descriptor stayed open");
		RI l; l.instance(); l->load_from_file(gp); c.check("unloadable", l->empty(), "a missing file was loaded"); return;
	}
	er = k == 0 ? i->save_png(gp) : k == 1 ? i->save_bmp(gp) : k == 2 ? i->save_tga(gp) : k == 3 ? i->save_jpg(gp, r.range(60, 100)) : i->save_hdr(gp);
	if (!c.check("save", er == OK && errors() == e, strf("saving %s %dx%d as %s fails with %d", fn(m.f).c_str(), m.w, m.h, N[k], (int)er))) return;
	if (!c.check("descriptors", fds() == f0, "a descriptor stayed open after saving")) return;
	same(c, "saved_changed", i, m, "after saving"); struct stat st; if (!c.check("file", stat(path.c_str(), &st) == 0 && st.st_size > 0, SS("no content in the ") + N[k])) return;
	RI l; l.instance(); int want = 5; if (r.chance(.3)) { want = r.range(0, 5); l->load_from_file(gp, (F)want); } else l->load_from_file(gp);
	if (!c.check("load", !l->empty() && errors() == e, strf("the saved %s of %s %dx%d cannot be loaded", N[k], fn(m.f).c_str(), m.w, m.h)) || !shape(c, l, m.w, m.h, want, false, "loaded")) return;
	bool flat = true; for (size_t j = PS[m.f]; j < m.d.size() && flat; j++) flat = m.d[j] == m.d[j - PS[m.f]];
	bool meant = m.f == 0 || m.f == 4 || m.f == 5 || (m.f == 1 && k == 0) || (m.f == 1 && k == 2); // a file of one or two components holds luminance and alpha
	if (k < 3 && meant) { RI w = mk(m); w->convert(Image::FORMAT_RGBA8); if (k == 1 && m.f == 1) w->convert(Image::FORMAT_RGB8); w->convert((F)want); same(c, "lossless", l, of(w), N[k]); c.count("lossless_files"); }
	else if (k == 3 && flat && (m.f == 4 || m.f == 0) && want == 5) { M g = of(l); double q[4]; decode(m.f, m.at(0, 0), q); for (int j = 0; j < m.w * m.h; j++) for (int b = 0; b < 3; b++) if (!c.check("jpg", std::fabs(g.d[j * 4 + b] - q[b] * 255) <= 24, strf("component %d of a one-coloured picture is %d, was %g", b, g.d[j * 4 + b], q[b] * 255))) return; }
	if (r.chance(.35)) { // a damaged file: refused or read, never more than it says
		SS d; { FILE *f = fopen(path.c_str(), "rb"); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) d.append(b, n); fclose(f); }
		if (r.chance(.5)) d.resize(r.range(0, (int)d.size() - 1)); else for (int j = r.range(1, 4); j > 0; j--) d[r.range(0, (int)d.size() - 1)] = (char)r.next();
		SS p2 = dir.p + "/damaged"; { FILE *f = fopen(p2.c_str(), "wb"); fwrite(d.data(), 1, d.size(), f); fclose(f); }
		// sizes are bounded so that a damaged header cannot ask for gigabytes
		bool huge = false; auto be = [&](size_t o) { return o + 4 <= d.size() ? ((uint32_t)(uint8_t)d[o] << 24 | (uint8_t)d[o + 1] << 16 | (uint8_t)d[o + 2] << 8 | (uint8_t)d[o + 3]) : 0u; }; if (k == 0 && d.size() > 24) huge = be(16) > 4096 || be(20) > 4096; if (k == 1 || k == 4) huge = true; if (k == 2 && d.size() > 18) huge = (uint8_t)d[13] > 3 || (uint8_t)d[15] > 3; if (k == 3) huge = true;
		if (!huge) { RI x = mk(m); x->load_from_file(String::utf8(p2.c_str())); shape(c, x, x->get_width(), x->get_height(), x->get_format(), false, "damaged file"); c.count("damaged_files"); }
	}
	c.obs(hsh(k * 16 + m.f, m.w * 128 + m.h), true);
}

// ---------------------------------------------------------------- XPM
UNIT("R10", "image.xpm", 4000, 100000) {
	Rng &r = c.rng; int n = r.range(1, 12), cpp = r.range(1, 3), w = r.range(1, 10), h = r.range(1, 10); bool tab = r.chance(.3); SS ws = tab ? "\t" : " "; std::vector<SS> lines; std::vector<SS> key; std::vector<std::array<int, 4>> col; c.label(tab ? "tabs" : "spaces");
	lines.push_back(strf("%d", w) + ws + strf("%d", h) + ws + strf("%d", n) + ws + strf("%d", cpp)); bool alpha = false; const SS AL = ".#+@abcdefghXYZ0129*=-;>,')!~{]^/(_:<[}|";
	while ((int)key.size() < n) { SS k; for (int j = 0; j < cpp; j++) k += AL[r.range(0, (int)AL.size() - 1)]; if (std::find(key.begin(), key.end(), k) == key.end()) key.push_back(k); }
	for (int j = 0; j < n; j++) {
		int q[3] = { r.range(0, 255), r.range(0, 255), r.range(0, 255) }; if (r.chance(.15)) { q[0] = q[2] = 255; q[1] = 0; } bool none = q[0] == 255 && q[1] == 0 && q[2] == 255; alpha |= none;
		col.push_back({ none ? 0 : q[0], none ? 0 : q[1], none ? 0 : q[2], none ? 0 : 255 }); lines.push_back(key[j] + ws + "c" + ws + (r.chance(.3) ? " " : "") + strf(r.chance(.5) ? "#%02X%02X%02X" : "#%02x%02x%02x", q[0], q[1], q[2]));
	}
	M m = blank(w, h, alpha ? 5 : 4);
	for (int y = 0; y < h; y++) { SS l; for (int x = 0; x < w; x++) { int k = r.range(0, n - 1); l += key[k]; for (int j = 0; j < PS[m.f]; j++) m.at(x, y)[j] = col[k][j]; } lines.push_back(l); }
	std::vector<const char *> p; for (auto &l : lines) p.push_back(l.c_str());
	RI i; bool ctor = r.chance(.5); if (ctor) i = RI(memnew(Image(p.data()))); else { i.instance(); i->create(p.data()); }
	if (shape(c, i, w, h, m.f, false, "xpm")) same(c, "xpm", i, m, "xpm");
	i->crop(w, h + 1); c.check("usable", i->get_height() == h + 1, "the image behaves as if it were locked"); c.obs(hsh(n * 16 + cpp, w * 16 + h), true);
}
} // namespace r10
