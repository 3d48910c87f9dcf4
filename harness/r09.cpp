// R09: the memory pool, sub-processes, sockets and network addresses.
// Effects stay inside: sub-processes are `sh`, `cat` or `sleep` started in an empty scratch directory, signals go only to own
// children that still exist (guarded), connections use the loopback interface only.
#include "vh.h"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <map>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;

namespace r09 {
typedef std::string SS;
static SS S(const String &s) { CharString u = s.utf8(); return SS(u.get_data() ? u.get_data() : ""); }
static String G(const SS &s) { return String::utf8(s.c_str()); }
static SS shown(const SS &s) { SS o; for (unsigned char ch : s.substr(0, 80)) { if (ch >= 32 && ch < 127) o += ch; else o += strf("\\x%02x", ch); } return o + (s.size() > 80 ? strf("...(%d)", (int)s.size()) : ""); }
static std::vector<int> g_killed; // processes the platform sent signals to
static SS g_bad_kill;
static int open_fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (d) { while (readdir(d)) n++; closedir(d); } return n; }
} // namespace r09
using namespace r09;

extern "C" {
int __real_kill(pid_t, int);
int __wrap_kill(pid_t p, int s) {
	siginfo_t si; memset(&si, 0, sizeof si);
	if (p <= 0 || waitid(P_PID, p, &si, WEXITED | WNOHANG | WNOWAIT) != 0) { g_bad_kill = strf("signal %d to process %d, which is no child any more", s, (int)p); errno = ESRCH; return -1; }
	g_killed.push_back(p); return __real_kill(p, s);
}
}

namespace r09 {
// ---------------------------------------------------------------- memory pool
struct Blk { int id, len, lock; std::vector<uint8_t> d; void *at; };

UNIT("R09", "pool.history", 20000, 400000) {
	Rng &r = c.rng; int kind = r.range(0, 2), align = kind == 0 ? 1 : r.pick(std::vector<int>{ 1, 2, 4, 8, 16, 3, 32 });
	int size = r.chance(.2) ? r.range(1, 40) : r.range(40, 600), maxe = r.chance(.3) ? r.range(1, 6) : 64; bool needs = r.chance(.4);
	if (kind == 1 && size <= align) size += align;
	std::vector<uint8_t> mem; uint8_t *raw = nullptr; int psize = size; PoolAllocator *p; uint8_t *lo = nullptr;
	c.label(kind == 0 ? "own" : kind == 1 ? "external" : "aligned");
	if (kind == 0) p = memnew(PoolAllocator(size, needs, maxe));
	else if (kind == 1) { raw = (uint8_t *)malloc(size + 8); int off = r.range(0, 8); lo = raw + off; p = memnew(PoolAllocator(lo, size, align, needs, maxe)); int skip = align > 1 ? (align - (uintptr_t)lo % align) % align : 0; psize = size - skip; lo += skip; memset(raw, 0xAB, size + 8); }
	else p = memnew(PoolAllocator(align, size, needs, maxe));
	auto al = [&](int n) { return (n + align - 1) / align * align; };
	std::vector<Blk> bs; std::vector<int> dead; int ops = r.range(5, 60), peak = psize; SS log;
	auto used = [&] { int u = 0; for (auto &b : bs) u += al(b.len); return u; };
	auto check = [&](const char *when) {
		std::vector<std::pair<uint8_t *, int>> ext;
		if (!c.check("free", p->get_free_mem() == psize - used(), strf("%s free memory is %d instead of %d;%s", when, p->get_free_mem(), psize - used(), log.c_str()))) return false;
		if (!c.check("used", p->get_used_mem() == used(), strf("%s used memory is %d instead of %d;%s", when, p->get_used_mem(), used(), log.c_str()))) return false;
		peak = std::min(peak, psize - used());
		if (!c.check("peak", p->get_free_peak() == peak, strf("%s the least free memory so far is reported as %d instead of %d;%s", when, p->get_free_peak(), peak, log.c_str()))) return false;
		for (auto &b : bs) {
			if (!c.check("size", p->get_size(b.id) == b.len, strf("%s a block of %d bytes reports %d;%s", when, b.len, p->get_size(b.id), log.c_str()))) return false;
			if (needs && !b.lock) p->lock(b.id);
			uint8_t *q = (uint8_t *)p->get(b.id); const PoolAllocator *cp = p;
			if (!c.check("get", q && cp->get(b.id) == q, strf("%s a live block has no address;%s", when, log.c_str()))) return false;
			if (!c.check("aligned", (uintptr_t)q % align == 0, strf("%s a block is not aligned to %d;%s", when, align, log.c_str()))) return false;
			if (lo && !c.check("inside", q >= lo && q + b.len <= lo + psize, strf("%s a block lies outside the pool;%s", when, log.c_str()))) return false;
			if (!c.check("content", memcmp(q, b.d.data(), b.len) == 0, strf("%s the content of a block of %d bytes changed;%s", when, b.len, log.c_str()))) return false;
			if (b.lock && !c.check("moved", q == b.at, strf("%s a locked block moved;%s", when, log.c_str()))) return false;
			ext.push_back({ q, b.len });
			if (needs && !b.lock) p->unlock(b.id);
			if (!c.check("locked", p->is_locked(b.id) == (b.lock > 0), strf("%s lock state;%s", when, log.c_str()))) return false;
		}
		std::sort(ext.begin(), ext.end());
		for (size_t i = 1; i < ext.size(); i++) if (!c.check("overlap", ext[i - 1].first + ext[i - 1].second <= ext[i].first, strf("%s two blocks overlap;%s", when, log.c_str()))) return false;
		return true;
	};
	auto fill = [&](Blk &b, int from) { if (needs && !b.lock) p->lock(b.id); uint8_t *q = (uint8_t *)p->get(b.id); if (q) for (int i = from; i < b.len; i++) q[i] = b.d[i]; if (needs && !b.lock) p->unlock(b.id); };
	uint64_t h = 1;
	for (int o = 0; o < ops; o++) {
		int what = r.range(0, 9); bool anylock = false; for (auto &b : bs) anylock |= b.lock > 0;
		if (what <= 3 || bs.empty()) {
			c.label("alloc"); int n = r.chance(.1) ? r.range(-1, 0) : r.chance(.2) ? psize - used() + r.range(-1, 1) : r.range(1, std::max(1, psize / r.range(1, 8))); log += strf(" alloc(%d)", n); h = hsh(h, n);
			bool fits = n >= 1 && al(n) <= psize - used() && (int)bs.size() < maxe;
			int id = p->alloc(n);
			if (id == POOL_ALLOCATOR_INVALID_ID) { if (!c.check("alloc", !fits || anylock, strf("a block of %d bytes is refused although %d are free;%s", n, psize - used(), log.c_str()))) break; log += "=no"; }
			else {
				if (!c.check("alloc", fits, strf("a block of %d bytes is handed out although %d are free and %d of %d blocks are used;%s", n, psize - used(), (int)bs.size(), maxe, log.c_str()))) break;
				bool dup = false; for (auto &b : bs) dup |= b.id == id;
				if (!c.check("id", !dup, "an id in use is handed out again;" + log)) break;
				dead.erase(std::remove(dead.begin(), dead.end(), id), dead.end());
				Blk b; b.id = id; b.len = n; b.lock = 0; b.at = nullptr; b.d.resize(n); for (auto &x : b.d) x = r.range(0, 255); bs.push_back(b); fill(bs.back(), 0);
			}
		} else if (what <= 5) {
			c.label("free"); int i = r.range(0, bs.size() - 1); log += strf(" free(#%d)", i); p->free(bs[i].id);
			if (!bs[i].lock) { dead.push_back(bs[i].id); bs.erase(bs.begin() + i); }
		} else if (what <= 7) {
			c.label("resize"); int i = r.range(0, bs.size() - 1); Blk &b = bs[i]; int room = psize - used() + al(b.len), n = r.chance(.07) ? r.range(-1, 0) : r.chance(.3) ? room + r.range(-align, 1) : r.range(1, room + 5); log += strf(" resize(#%d of %d, %d)", i, b.len, n); h = hsh(h, n + 7);
			Error e = p->resize(b.id, n); bool fits = n >= 1 && al(n) <= room;
			if (e == OK) {
				if (!c.check("resize", fits && !b.lock, "a resize that must be refused succeeds;" + log)) break;
				int old = b.len; b.len = n; b.d.resize(n); for (int k = old; k < n; k++) b.d[k] = r.range(0, 255);
				fill(b, old);
			} else { if (!c.check("resize", !fits || b.lock || anylock, strf("a resize that fits in the free memory is refused (%d);%s", (int)e, log.c_str()))) break; log += "=no"; }
		} else if (what == 8) {
			c.label("lock"); int i = r.range(0, bs.size() - 1); Blk &b = bs[i];
			if (needs) { if (b.lock && r.chance(.6)) { p->unlock(b.id); b.lock--; log += strf(" unlock(#%d)", i); } else { if (!c.check("lock", p->lock(b.id) == OK, "lock")) break; if (!b.lock) b.at = p->get(b.id); b.lock++; log += strf(" lock(#%d)", i); } }
			else if (!c.check("lock", p->lock(b.id) == OK && !p->is_locked(b.id), "lock without locking")) break;
		} else {
			c.label("stale"); int id = dead.empty() || r.chance(.3) ? r.pick(std::vector<int>{ -1, -256, INT_MIN, maxe << 8, INT_MAX }) : r.pick(dead); log += " stale";
			bool live = false; for (auto &b : bs) live |= b.id == id;
			if (live) continue;
			if (!c.check("stale", p->get(id) == nullptr && p->get_size(id) == 0 && p->resize(id, 4) != OK && !p->is_locked(id) && (!needs || p->lock(id) != OK), "an id that is not in use is accepted;" + log)) break;
			p->free(id); p->unlock(id);
		}
		if (!check("after an operation:")) break;
	}
	c.obs(hsh(h, size * 64 + align), bs.size() > 1); c.count("pool operations", ops);
	memdelete(p);
	if (raw) { bool ok = true; for (uint8_t *q = raw; q < raw + size + 8; q++) if ((q < lo || q >= lo + psize) && *q != 0xAB) ok = false; c.check("outside", ok, "the pool wrote outside the memory it was given"); free(raw); }
}

// ---------------------------------------------------------------- addresses
static SS rnd_v4(Rng &r, uint32_t &a) {
	a = r.pick(std::vector<uint32_t>{ 0x7f000001u, 0, 0xffffffffu, 0x0A000000u, 0x0AFFFFFFu, 0x09FFFFFFu, 0x0B000000u, 0xAC0FFFFFu, 0xAC100000u, 0xAC1FFFFFu, 0xAC200000u, 0xC0A80000u, 0xC0A8FFFFu, 0xC0A7FFFFu, 0xC0A90000u, 0x08080808u });
	if (r.chance(.3)) a = (uint32_t)r.next();
	return strf("%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255);
}
static bool private_v4(uint32_t a) { return a >> 24 == 10 || a >> 20 == 0xAC1 || a >> 16 == 0xC0A8 || a == 0x7f000001u; }
static void rnd_v6(Rng &r, uint8_t *b) {
	memset(b, 0, 16); int k = r.range(0, 7);
	if (k == 0) b[15] = r.range(0, 2);
	else if (k <= 2) { b[10] = b[11] = 0xff; uint32_t a; rnd_v4(r, a); for (int i = 0; i < 4; i++) b[12 + i] = a >> (24 - 8 * i); if (k == 2 && r.chance(.5)) b[r.range(0, 11)] ^= 1; }
	else if (k == 3) { b[0] = 0xfe; b[1] = r.pick(std::vector<int>{ 0x80, 0xbf, 0xc0, 0xff, 0x7f, 0x40 }); for (int i = 2; i < 16; i++) b[i] = r.range(0, 255); }
	else if (k == 4) { b[r.range(0, 15)] = r.range(1, 255); }
	else for (int i = 0; i < 16; i++) b[i] = r.chance(.4) ? 0 : r.range(0, 255);
}
struct MA { bool v6; uint8_t b[16]; uint32_t a; uint16_t port; };
static SS ip_text(const MA &m) { char t[64]; if (m.v6) inet_ntop(AF_INET6, m.b, t, sizeof t); else { uint32_t n = htonl(m.a); inet_ntop(AF_INET, &n, t, sizeof t); } return t; }
static bool addr_is(Ctx &c, const InetAddress &i, const MA &m, const char *how) {
	SS t = ip_text(m), w = SS(how) + ": ";
	if (!c.check("family", i.family() == (m.v6 ? AF_INET6 : AF_INET) && i.is_ip_v6() == m.v6, w + "family of " + t)) return false;
	if (!c.check("ip", S(i.to_ip()) == t, w + "address " + S(i.to_ip()) + " instead of " + t)) return false;
	if (!c.check("port", i.to_port() == m.port && i.port_net_endian() == htons(m.port), w + strf("port %d instead of %d", i.to_port(), m.port))) return false;
	if (!c.check("ip_port", S(i.to_ip_port()) == t + strf(":%d", m.port), w + S(i.to_ip_port()))) return false;
	bool loop, priv;
	if (!m.v6) { loop = m.a == 0x7f000001u; priv = private_v4(m.a); if (!c.check("raw", i.ip_net_endian() == htonl(m.a), w + "raw address of " + t)) return false; }
	else {
		bool z12 = true; for (int k = 0; k < 10; k++) z12 &= !m.b[k];
		bool mapped = z12 && m.b[10] == 0xff && m.b[11] == 0xff, one = z12 && !m.b[10] && !m.b[11] && !m.b[12] && !m.b[13] && !m.b[14] && m.b[15] == 1;
		uint32_t a = (uint32_t)m.b[12] << 24 | m.b[13] << 16 | m.b[14] << 8 | m.b[15];
		loop = one || (mapped && a == 0x7f000001u); priv = one || (mapped && private_v4(a)) || (m.b[0] == 0xfe && ((m.b[1] & 0xc0) == 0x80 || (m.b[1] & 0xc0) == 0xc0));
		if (!c.check("raw", memcmp(i.ip6_net_endian(), m.b, 16) == 0, w + "raw address of " + t)) return false;
	}
	if (!c.check("loopback", i.is_loopback_ip() == loop, w + t + (loop ? " is" : " is not") + " a loopback address")) return false;
	if (!c.check("intranet", i.is_intranet_ip() == priv, w + t + (priv ? " is" : " is not") + " a private address")) return false;
	if (!c.check("unspecified", !i.is_unspecified(), w + t + " counts as unspecified")) return false;
	const sockaddr *sa = i.get_sock_addr();
	if (!c.check("sockaddr", sa->sa_family == i.family() && (m.v6 ? memcmp(&((const sockaddr_in6 *)sa)->sin6_addr, m.b, 16) == 0 && ((const sockaddr_in6 *)sa)->sin6_port == htons(m.port) : ((const sockaddr_in *)sa)->sin_addr.s_addr == htonl(m.a) && ((const sockaddr_in *)sa)->sin_port == htons(m.port)), w + "socket address of " + t)) return false;
	return true;
}
static MA rnd_addr(Rng &r) { MA m; memset(&m, 0, sizeof m); m.v6 = r.chance(.5); if (m.v6) rnd_v6(r, m.b); else rnd_v4(r, m.a); m.port = r.chance(.3) ? r.pick(std::vector<int>{ 0, 1, 255, 256, 80, 65535 }) : r.range(0, 65535); return m; }
static sockaddr_in sa4(const MA &m) { sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(m.port); s.sin_addr.s_addr = htonl(m.a); return s; }
static sockaddr_in6 sa6(const MA &m) { sockaddr_in6 s; memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; s.sin6_port = htons(m.port); memcpy(&s.sin6_addr, m.b, 16); return s; }

UNIT("R09", "address", 30000, 600000) {
	Rng &r = c.rng; MA m = rnd_addr(r), m2 = rnd_addr(r); SS t = ip_text(m);
	alignas(InetAddress) static uint8_t cell[sizeof(InetAddress)]; memset(cell, r.chance(.5) ? 0xFF : 0, sizeof cell); // stale memory
	InetAddress *i;
	if (r.chance(.1)) { // malformed text
		static const char *bad[] = { "", "x", "1.2.3", "256.1.1.1", "1.2.3.4.5", " 1.2.3.4", "1.2.3.4 ", ":::", "1::2::3", "g::1", "localhost", "1.2.3.-4", "12345::" };
		c.label("malformed"); SS b = bad[r.range(0, 12)]; i = new (cell) InetAddress(G(b), m.port, m.v6);
		c.check("malformed", i->is_unspecified(), "the text \"" + b + "\" is accepted as an address"); c.obs(hs(b), true); i->~InetAddress(); return;
	}
	int how = r.range(0, 3); const char *hn = "text";
	if (how == 0) { c.label("from_text"); i = new (cell) InetAddress(G(t), m.port, m.v6); }
	else if (how == 1) { c.label("from_sockaddr"); hn = "sockaddr"; i = m.v6 ? new (cell) InetAddress(sa6(m)) : new (cell) InetAddress(sa4(m)); }
	else if (how == 2) { c.label("from_port"); hn = "port"; bool lo = r.chance(.5); memset(m.b, 0, 16); m.a = 0; if (lo) { m.a = 0x7f000001u; m.b[15] = 1; } i = new (cell) InetAddress(m.port, lo, m.v6); }
	else { c.label("set"); hn = "set"; i = new (cell) InetAddress(); sockaddr_in6 s; memset(&s, 0, sizeof s); if (m.v6) s = sa6(m); else { sockaddr_in s4 = sa4(m); memcpy(&s, &s4, sizeof s4); } i->set_sock_addr_inet6(s); }
	bool ok = addr_is(c, *i, m, hn); c.obs(hsh(hs(t), m.port), true);
	if (ok && r.chance(.6)) { // copies are independent
		c.label("copy"); InetAddress a(*i), b(G(ip_text(m2)), m2.port, m2.v6);
		ok = addr_is(c, a, m, "copy"); b = a; ok = ok && addr_is(c, b, m, "assigned"); b = *&b; ok = ok && addr_is(c, b, m, "assigned to itself");
		MA m3 = m; m3.port ^= 0x101; a.set_port_net_endian(htons(m3.port)); ok = ok && addr_is(c, a, m3, "new port") && addr_is(c, b, m, "other") && addr_is(c, *i, m, "original");
	}
	i->~InetAddress();
}

// ---------------------------------------------------------------- sockets
static bool have_v6() { static int v = -1; if (v < 0) { int f = ::socket(AF_INET6, SOCK_STREAM, 0); sockaddr_in6 s; memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; s.sin6_addr = in6addr_loopback; v = f >= 0 && ::bind(f, (sockaddr *)&s, sizeof s) == 0; if (f >= 0) ::close(f); } return v; }
static bool wait_fd(int fd, short ev) { pollfd p = { fd, ev, 0 }; return ::poll(&p, 1, 4000) == 1; }
static uint16_t port_of(const sockaddr_in6 &s) { return ntohs(s.sin6_family == AF_INET ? ((const sockaddr_in *)&s)->sin_port : s.sin6_port); }
struct Fds { Ctx &c; int before; explicit Fds(Ctx &cc) : c(cc), before(open_fds()) {} ~Fds() { int n = open_fds(); if (n != before) c.fail("descriptors", strf("%d descriptors are open afterwards instead of %d", n - 3, before - 3)); } };
static int opt(int fd, int lvl, int name) { int v = -1; socklen_t l = sizeof v; getsockopt(fd, lvl, name, &v, &l); return v; }

UNIT("R09", "socket.stream", 2500, 20000) {
	Fds fds(c); Rng &r = c.rng; bool v6 = have_v6() && r.chance(.4); SS lo = v6 ? "::1" : "127.0.0.1"; signal(SIGPIPE, SIG_DFL);
	Socket srv, cl, peer; c.label("listen");
	auto mk = [&](Socket &s) { if (!v6 && r.chance(.5)) s.create_net_socket(); else s.create(v6 ? AF_INET6 : AF_INET); return s._socket > 0; };
	if (!c.check("create", mk(srv), "no socket")) return;
	if (r.chance(.5)) srv.set_reuse_addr(true);
	int b = r.chance(.5) ? srv.bind_address(InetAddress(0, true, v6)) : srv.bind_address(InetAddress(G(lo), 0, v6));
	if (!c.check("bind", b == 0 && srv.listen() == 0, strf("bind gives %d", b))) return;
	int err = 7; sockaddr_in6 la = srv.get_local_addr(&err); uint16_t port = port_of(la);
	if (!c.check("local", err == 0 && port != 0 && la.sin6_family == (v6 ? AF_INET6 : AF_INET), "local address")) return;
	{ InetAddress got; got.set_sock_addr_inet6(la); if (!c.check("loopback_only", S(got.to_ip()) == lo, "a socket bound to the loopback interface listens on " + S(got.to_ip()))) return; }
	if (r.chance(.3)) { c.label("accept_none"); Socket none; c.check("accept", srv.accept(&none) < 0 && none._socket == 0, "a connection is accepted although there is none"); }
	if (r.chance(.3)) { c.label("bind_taken"); Socket two; if (mk(two)) { int e = two.bind_address(InetAddress(G(lo), port, v6)); c.check("bind", e == EADDRINUSE, strf("binding to a taken port gives %d", e)); } }
	c.label("connect"); if (!c.check("create", mk(cl), "no socket")) return;
	if (!c.check("flags", (fcntl(cl._socket, F_GETFL) & O_NONBLOCK) && (fcntl(cl._socket, F_GETFD) & FD_CLOEXEC), "a new socket is not in non-blocking, close-on-exec mode")) return;
	int rc = r.chance(.5) ? cl.connect(InetAddress(G(lo), port, v6)) : v6 ? cl.connect(InetAddress(la)) : cl.connect(InetAddress(*(sockaddr_in *)&la));
	if (!c.check("connect", rc == 0 || (rc < 0 && errno == EINPROGRESS), strf("connect gives %d, %d", rc, errno))) return;
	if (!wait_fd(cl._socket, POLLOUT) || !wait_fd(srv._socket, POLLIN)) { c.fail("connect", "no connection within 4 s"); return; }
	if (!c.check("connect", cl.get_error() == 0, "error after connecting")) return;
	c.label("accept"); if (r.chance(.15)) mk(peer); // an open socket is replaced
	int fd = srv.accept(&peer); if (!c.check("accept", fd > 0 && fd == peer._socket, strf("accept gives %d", fd))) return;
	int e1 = 7, e2 = 7; sockaddr_in6 a = cl.get_local_addr(&e1), p = peer.get_peer_addr(&e2), q = cl.get_peer_addr(), pl = peer.get_local_addr();
	if (!c.check("addresses", e1 == 0 && e2 == 0 && port_of(a) == port_of(p) && port_of(q) == port && port_of(pl) == port && peer._address.to_port() == port_of(a) && S(peer._address.to_ip()) == lo && peer._address.is_ip_v6() == v6, "the two ends disagree about their addresses")) return;
	if (!c.check("flags", (fcntl(peer._socket, F_GETFL) & O_NONBLOCK) && (fcntl(peer._socket, F_GETFD) & FD_CLOEXEC), "an accepted socket is not in non-blocking, close-on-exec mode")) return;
	if (!c.check("self", !cl.is_self_connect() && !peer.is_self_connect(), "a connection between two sockets counts as a connection to itself")) return;
	if (r.chance(.4)) { c.label("options"); Socket &s = r.chance(.5) ? cl : peer; bool on = r.chance(.5); s.set_tcp_nodelay(on); s.set_keep_alive(on); s.set_reuse_addr(on); int rp = s.set_reuse_port(on); if (!c.check("options", (opt(s._socket, IPPROTO_TCP, TCP_NODELAY) != 0) == on && (opt(s._socket, SOL_SOCKET, SO_KEEPALIVE) != 0) == on && (opt(s._socket, SOL_SOCKET, SO_REUSEADDR) != 0) == on && rp == 0 && (opt(s._socket, SOL_SOCKET, SO_REUSEPORT) != 0) == on, "an option is not what was set")) return;
		int fl = fcntl(s._socket, F_GETFL), fdl = fcntl(s._socket, F_GETFD); fcntl(s._socket, F_SETFL, fl & ~O_NONBLOCK); fcntl(s._socket, F_SETFD, fdl & ~FD_CLOEXEC); if (!c.check("flags", s.set_non_block() == 0 && s.set_close_on_exit() == 0 && fcntl(s._socket, F_GETFL) == fl && fcntl(s._socket, F_GETFD) == fdl, "flags are not set")) return; }
	// both directions are byte streams
	Socket *S2[2] = { &cl, &peer }; SS sent[2], rec[2]; bool shut[2] = { false, false }; int n = r.range(3, 25);
	auto drain = [&](int w) { // what direction w still holds
		int o = 1 - w; char buf[5000]; int tries = 0;
		for (;;) { int want = r.range(1, 5000); memset(buf, 0x55, sizeof buf); int k = S2[o]->read(buf, want); if (k > 0) { if (k > want) { c.fail("read", "more was read than asked for"); return false; } rec[w].append(buf, k); tries = 0; } else if (k == 0) { return c.check("eof", shut[w] && rec[w] == sent[w], strf("the stream ends after %d of %d bytes", (int)rec[w].size(), (int)sent[w].size())); } else { if (errno != EAGAIN) { c.fail("read", strf("reading fails with %d", errno)); return false; } if (rec[w].size() == sent[w].size() && !shut[w]) return true; if (++tries > 3 || !wait_fd(S2[o]->_socket, POLLIN)) { c.fail("read", "data does not arrive"); return false; } } }
	};
	for (int k = 0; k < n; k++) {
		int w = r.range(0, 1), what = r.range(0, 9);
		if (what <= 5 && !shut[w]) { c.label("send"); SS d; int len = r.chance(.1) ? r.range(1000, 60000) : r.range(0, 300); for (int i = 0; i < len; i++) d += (char)r.range(0, 255); int m = S2[w]->send(d.data(), d.size()); if (m < 0) { if (!c.check("send", errno == EAGAIN, strf("sending fails with %d", errno))) return; } else { if (!c.check("send", m <= (int)d.size(), "more was sent than given")) return; sent[w] += d.substr(0, m); } }
		else if (what <= 7) { c.label("read"); if (!drain(w)) return; if (!c.check("stream", rec[w] == sent[w], "what arrives is not what was sent")) return; }
		else if (what == 8 && !shut[w] && r.chance(.4)) { c.label("close_write"); if (!c.check("close_write", S2[w]->close_write() == 0, "close_write")) return; shut[w] = true; char ch = 1; int m = S2[w]->send(&ch, 1); if (!c.check("send", m < 0, "sending after close_write succeeds")) return; }
	}
	c.label("end"); for (int w = 0; w < 2; w++) if (!drain(w) || !c.check("stream", rec[w] == sent[w], "what arrives is not what was sent")) return;
	c.obs(hsh(hs(sent[0]), (uint32_t)hs(sent[1])), sent[0].size() + sent[1].size() > 0); c.count("bytes", sent[0].size() + sent[1].size()); c.count("connections");
	if (r.chance(.3)) { // the peer is gone
		c.label("peer_gone"); struct linger lg = { 1, 0 }; setsockopt(peer._socket, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); peer.close_socket(); if (!c.check("close", peer._socket == 0, "close")) return;
		int m = 0; char ch = 1; for (int k = 0; k < 3 && m >= 0; k++) { wait_fd(cl._socket, POLLIN); m = cl.send(&ch, 1); }
		c.check("send", m < 0, "sending to a peer that is gone succeeds");
	}
	struct linger lg = { 1, 0 }; setsockopt(cl._socket, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); // no waiting state left behind
	if (r.chance(.3)) { c.label("close"); cl.close_socket(); cl.close_socket(); c.check("close", cl._socket == 0, "close"); }
}

UNIT("R09", "socket.refusals", 2500, 20000) {
	Fds fds(c); Rng &r = c.rng; bool v6 = have_v6() && r.chance(.4); SS lo = v6 ? "::1" : "127.0.0.1"; int k = r.range(0, 4); c.obs(hsh(k, r.range(0, 1 << 20)), true); signal(SIGPIPE, SIG_DFL);
	if (k == 0) { // never opened or closed again: nothing may touch other descriptors
		c.label("not_open"); int save = dup(0), sp[2]; if (save < 0 || ::socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sp)) return; dup2(sp[0], 0); ::close(sp[0]); if (::write(sp[1], "secret", 6) != 6) return;
		Socket s, t; if (r.chance(.5)) { s.create(AF_INET); s.close_socket(); }
		char b[16]; c.check("read", s.read(b, 16) < 0, "reading from a socket that is not open succeeds"); c.check("send", s.send("x", 1) < 0, "sending to a socket that is not open succeeds");
		c.check("ops", s.listen() != 0 && s.connect(InetAddress(G(lo), 9, v6)) != 0 && s.bind_address(InetAddress(G(lo), 0, v6)) != 0 && s.close_write() != 0 && s.get_error() != 0 && s.set_non_block() != 0 && s.set_close_on_exit() != 0 && !s.is_self_connect() && s.accept(&t) < 0 && t._socket == 0 && s.accept(nullptr) < 0, "an operation on a socket that is not open succeeds");
		s.close_socket(); char x[16]; c.check("untouched", ::read(0, x, 16) == 6 && ::read(sp[1], x, 16) < 0, "another descriptor was used"); dup2(save, 0); ::close(save); ::close(sp[1]);
	} else if (k == 1) {
		c.label("refused"); Socket held; held.create(v6 ? AF_INET6 : AF_INET); if (held.bind_address(InetAddress(G(lo), 0, v6))) return; uint16_t port = port_of(held.get_local_addr()); // bound, so that nobody else listens there
		Socket s; s.create(v6 ? AF_INET6 : AF_INET); int rc = s.connect(InetAddress(G(lo), port, v6)); if (rc == 0) { if (!s.is_self_connect()) c.fail("refused", "a connection to a closed port succeeds"); return; }
		if (errno == EINPROGRESS) { wait_fd(s._socket, POLLOUT); int e = s.get_error(); c.check("refused", e == ECONNREFUSED || s.is_self_connect(), strf("the error after a refused connection is %d", e)); } else c.check("refused", errno == ECONNREFUSED, strf("errno %d", errno));
		int e = 0; s.get_peer_addr(&e); c.check("peer", e != 0 || s.is_self_connect(), "a socket without a peer reports one");
	} else if (k == 2) {
		c.label("self_connect"); Socket s; s.create(v6 ? AF_INET6 : AF_INET); if (s.bind_address(InetAddress(G(lo), 0, v6))) return; uint16_t port = port_of(s.get_local_addr());
		int rc = s.connect(InetAddress(G(lo), port, v6)); if (rc && errno == EINPROGRESS) wait_fd(s._socket, POLLOUT); if (s.get_error() == 0) { c.check("self", s.is_self_connect(), "a connection to itself is not recognised"); c.count("self connections"); }
		struct linger lg = { 1, 0 }; setsockopt(s._socket, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
	} else if (k == 3) {
		c.label("no_descriptors"); struct rlimit old, lim; getrlimit(RLIMIT_NOFILE, &old); lim = old; lim.rlim_cur = 3; setrlimit(RLIMIT_NOFILE, &lim); Socket s; s.create(AF_INET); setrlimit(RLIMIT_NOFILE, &old);
		char b[4]; c.check("create", s._socket < 0 || s._socket == 0, "a socket without a descriptor counts as open"); c.check("ops", s.read(b, 4) < 0 && s.send("x", 1) < 0 && s.listen() != 0 && s.bind_address(InetAddress(G(lo), 0, v6)) != 0, "an operation on a socket that could not be made succeeds");
		if (r.chance(.5)) { s.close_socket(); s.create(AF_INET); c.check("create", s._socket > 0, "no socket afterwards"); }
	} else {
		c.label("create_again"); Socket s; int n = r.range(2, 4); for (int i = 0; i < n; i++) s.create(AF_INET); c.check("create", s._socket > 0, "create"); c.check("init", Socket::global_init() == 0, "global_init");
		Socket t(s._socket, InetAddress(G(lo), 77, v6)); c.check("adopt", t._socket == s._socket && t._address.to_port() == 77 && t._address.is_ip_v6() == v6 && S(t._address.to_ip()) == lo, "a socket made from a descriptor"); s._socket = 0;
	}
}

// ---------------------------------------------------------------- sub-processes
struct Sandbox { // an empty directory to run in
	Ctx &c; SS dir; int cwd; int fds; uint64_t mem;
	explicit Sandbox(Ctx &cc) : c(cc) { fds = open_fds(); mem = Memory::get_mem_usage(); char t[] = "/tmp/vh_r09_XXXXXX"; if (!mkdtemp(t)) _exit(3); dir = t; cwd = ::open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC); if (cwd < 0 || chdir(t)) _exit(3); g_killed.clear(); g_bad_kill.clear(); signal(SIGPIPE, SIG_DFL); }
	~Sandbox() {
		int st; pid_t left = waitpid(-1, &st, WNOHANG);
		if (left > 0) { c.fail("zombie", "an ended process was not collected"); } else if (left == 0) { c.fail("left_running", "a process is still running after its handle was released"); }
		uint64_t m = Memory::get_mem_usage(); if (m != mem) c.fail("memory", strf("%lld bytes are still allocated afterwards", (long long)(m - mem)));
		if (!g_bad_kill.empty()) c.fail("signal", g_bad_kill);
		if (fchdir(cwd)) _exit(3);
		::close(cwd); int n = open_fds(); if (n != fds) c.fail("descriptors", strf("%d descriptors are open afterwards instead of %d", n - 3, fds - 3));
		DIR *d = opendir(dir.c_str()); if (d) { while (dirent *e = readdir(d)) unlinkat(dirfd(d), e->d_name, 0); closedir(d); } rmdir(dir.c_str());
	}
};
static Vector<String> argv_of(const std::vector<SS> &a) { Vector<String> v; for (auto &x : a) v.push_back(G(x)); return v; }
static SS rnd_arg(Rng &r) {
	static const char *tok[] = { "$", "\"", "'", "`", "\\", ";", "&", "|", "<", ">", "*", "?", "~", "!", "#", "[", "]", " ", "  ", "\n", "\t", "$HOME", "$X", "${X}", "$(X)", "`X`", "X", "Y", "ZZ", "=", "%", "-", "--", "\xC3\xA9", "\xE6\x97\xA5", "\\n", "$$", "$1", "\\\\", "''", "\"\"" };
	SS o; int n = r.chance(.1) ? 0 : r.chance(.05) ? r.range(50, 600) : r.range(1, 7); bool plain = r.chance(.4);
	for (int i = 0; i < n; i++) { if (plain || r.chance(.4)) o += (char)r.range('a', 'z'); else o += tok[r.range(0, 40)]; }
	return o;
}
static SS lines_text(Rng &r, bool big) {
	SS o; int n = r.chance(.1) ? 0 : r.range(1, big ? 4 : 12);
	static const char *u[] = { "\xC3\xA9", "\xCE\xB1", "\xE2\x82\xAC", "\xE6\x97\xA5", "\xF0\x9F\x98\x80" };
	for (int i = 0; i < n; i++) { int len = big && r.chance(.5) ? 65534 * r.range(1, 2) + r.range(-6, 6) : r.range(0, 60); SS l; bool ascii = r.chance(.3); while ((int)l.size() < len) { if (!ascii && r.chance(big ? .5 : .2)) l += u[r.range(0, 4)]; else l += (char)r.range(32, 126); } o += l; if (i + 1 < n || r.chance(.6)) o += "\n"; }
	return o;
}
static void put(const SS &p, const SS &d) { int f = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); size_t k = 0; while (k < d.size()) { ssize_t n = ::write(f, d.data() + k, d.size() - k); if (n <= 0) break; k += n; } ::close(f); }
static SS get(const SS &p) { SS o; int f = ::open(p.c_str(), O_RDONLY | O_CLOEXEC); if (f < 0) return o; char b[8192]; ssize_t n; while ((n = ::read(f, b, sizeof b)) > 0) o.append(b, n); ::close(f); return o; }
static const char *DUMP = "printf '%s\\001' \"$@\"";

UNIT("R09", "process.arguments", 3000, 40000) { // the program receives exactly the arguments given
	Sandbox sb(c); Rng &r = c.rng; std::vector<SS> a; int n = r.range(1, 5); SS want; bool out = r.chance(.6);
	for (int i = 0; i < n; i++) { a.push_back(rnd_arg(r)); want += a.back() + "\001"; }
	std::vector<SS> full = { "-c", SS(DUMP) + (out ? "" : " > out"), "sh" }; full.insert(full.end(), a.begin(), a.end());
	const char *path0 = getenv("PATH"); SS path = path0 ? path0 : "/usr/bin:/bin"; setenv("PATH", "/nonexistent", 1); // a broken quotation finds no program to run
	SS got; { SubProcessRef p(SubProcess::create()); 
		if (out && r.chance(.4)) { c.label("polled"); p->set_executable_path("/bin/sh"); p->set_arguments(argv_of(full)); if (!c.check("start", p->start() == OK, "start")) return; for (int k = 0; k < 5000; k++) { Error e = p->poll(); if (e != OK) break; got += S(p->get_data()); } }
		else if (out) { c.label("read"); if (!c.check("start", p->run("/bin/sh", argv_of(full), true, true) == OK, "run")) return; got = S(p->get_data()); }
		else { c.label("not_read"); if (!c.check("start", p->run("/bin/sh", argv_of(full), false, true) == OK, "run")) return; got = get(sb.dir + "/out"); }
		c.check("exit", p->get_exitcode() == 0, strf("exit code %d", p->get_exitcode())); }
	setenv("PATH", path.c_str(), 1);
	c.check("arguments", got == want, "the program received [" + shown(got) + "] instead of [" + shown(want) + "]"); c.obs(hs(want), true); c.sample(shown(want)); c.count("processes");
}

UNIT("R09", "process.output", 2000, 25000) { // everything the program prints arrives, once, in order
	Sandbox sb(c); Rng &r = c.rng; SS d = lines_text(r, r.chance(.3)), e = r.chance(.5) ? lines_text(r, false) : SS(); int code = r.chance(.4) ? 0 : r.range(0, 255); bool block = r.chance(.5), err = r.chance(.4), mtx = r.chance(.3); c.label(block ? "blocking" : "polled");
	put(sb.dir + "/o", d); put(sb.dir + "/e", e);
	Vector<String> a = argv_of({ "-c", strf("cat o; cat e >&2; exit %d", code) }); SS got, want = d + (err ? e : SS()); 
	{ SubProcess *p = SubProcess::create(); Error s;
		if (r.chance(.5)) s = p->run("sh", a, true, block, err, mtx);
		else { p->set_executable_path("sh"); p->set_arguments(a); p->set_blocking(block); p->set_read_output(true); p->set_read_std_err(err); p->set_use_pipe_mutex(mtx); c.check("settings", S(p->get_executable_path()) == "sh" && p->get_arguments().size() == 2 && p->get_arguments()[0] == "-c" && p->get_blocking() == block && p->get_read_output() && p->get_read_std_err() == err && p->get_use_pipe_mutex() == mtx && !p->get_open_console(), "a setting is not kept"); s = p->start(); }
		c.check("start", s == OK, strf("start gives %d", (int)s));
		if (block) { c.check("ended", !p->is_process_running(), "a process counts as running after it was waited for"); got = S(p->get_data()); }
		else { int k = 0; bool late = false; for (; k < 20000; k++) { bool run = p->is_process_running(); Error er = p->poll(); if (er == ERR_FILE_EOF) break; if (er != OK) { c.fail("poll", strf("poll gives %d", (int)er)); break; } if (!run) late = true; got += S(p->get_data()); } c.check("poll", k < 20000, "the end of the output is never reported"); c.check("running", !late || got.size() == want.size(), "a process counted as ended before its output had arrived"); c.check("ended", !p->is_process_running(), "a process counts as running after its end was reported"); }
		c.check("output", got == want, strf("%d bytes arrive instead of %d: [%s] instead of [%s]", (int)got.size(), (int)want.size(), shown(got).c_str(), shown(want).c_str()));
		c.check("exit", p->get_exitcode() == code, strf("exit code %d instead of %d", p->get_exitcode(), code)); memdelete(p); }
	c.obs(hsh(hs(d), code), !d.empty()); c.count("processes"); c.count("bytes", want.size());
}

UNIT("R09", "process.lifecycle", 2000, 25000) { // starting, stopping, failing
	Sandbox sb(c); Rng &r = c.rng; int k = r.range(0, 9); c.obs(hsh(k, r.range(0, 1 << 20)), true); c.count("processes");
	SubProcess *p = SubProcess::create(); 
	if (k == 0) { c.label("no_path"); c.check("start", p->start() != OK && !p->is_process_running() && p->stop() == OK, "a process without a program starts"); }
	else if (k == 1 || k == 2) { // a program that runs until it is stopped
		c.label("stop"); Error s = p->run("sleep", argv_of({ "30" }), false, false); pid_t id = p->get_process_id(); c.check("start", s == OK && id > 0 && p->is_process_running(), "start");
		c.check("busy", p->start() == ERR_BUSY && p->run("true") != OK && p->get_process_id() == id, "a second start while the process runs is accepted"); p->set_executable_path("zzz"); p->set_arguments(Vector<String>()); p->set_blocking(true); p->set_read_output(true); c.check("settings", p->get_executable_path() == "sleep" && p->get_arguments().size() == 1 && !p->get_blocking() && !p->get_read_output(), "settings change while the process runs");
		if (k == 1) { c.check("stop", p->stop() == OK && !p->is_process_running(), "stop"); c.check("killed", g_killed.size() == 1 && g_killed[0] == id, "stop does not end the process"); c.check("stop", p->stop() == OK, "second stop"); } // else the destructor ends it
	} else if (k == 3) { // a program that ends by itself, noticed or not, is not signalled afterwards
		c.label("ends"); int code = r.range(0, 255); Error s = p->run("sh", argv_of({ "-c", strf("exit %d", code) }), false, false); pid_t id = p->get_process_id(); c.check("start", s == OK, "start"); siginfo_t si; waitid(P_PID, id, &si, WEXITED | WNOWAIT);
		if (r.chance(.8)) { c.check("running", !p->is_process_running() && !p->is_process_running(), "an ended process counts as running"); c.check("exit", p->get_exitcode() == code, strf("exit code %d instead of %d", p->get_exitcode(), code)); }
		if (r.chance(.7)) { Error e = p->stop(); c.check("stop", e == OK && !p->is_process_running(), "stop after the end"); }
		if (r.chance(.4)) { c.check("again", p->run("sh", argv_of({ "-c", "exit 3" }), false, true) == OK && p->get_exitcode() == 3, "a second run"); }
	} else if (k == 4) { // signals are no success
		c.label("signalled"); bool out = r.chance(.5); Error s = p->run("sh", argv_of({ "-c", r.chance(.5) ? "kill -9 $$" : "kill -15 $$" }), out, true); c.check("signalled", s != OK || p->get_exitcode() != 0, "a process that was killed counts as successful");
	} else if (k == 5) { c.label("missing"); bool out = r.chance(.7); int save = dup(2), nul = ::open("/dev/null", O_WRONLY); dup2(nul, 2); ::close(nul); Error s = p->run("./not here", argv_of({ "x" }), out, true); dup2(save, 2); ::close(save); c.check("missing", (s != OK || p->get_exitcode() != 0) && p->get_data().length() == 0, "a program that does not exist counts as successful"); }
	else if (k == 6) { c.label("no_descriptors"); struct rlimit old, lim; getrlimit(RLIMIT_NOFILE, &old); lim = old; lim.rlim_cur = 3; bool block = r.chance(.5); setrlimit(RLIMIT_NOFILE, &lim); Error s = p->run("true", Vector<String>(), true, block); setrlimit(RLIMIT_NOFILE, &old); c.check("fault", s != OK && !p->is_process_running(), "a start without descriptors succeeds"); c.check("after", p->run("sh", argv_of({ "-c", "exit 4" }), true, true) == OK && p->get_exitcode() == 4, "a run after a failed start"); }
	else if (k == 7) { // released while the output is only partly read
		c.label("dropped"); p->run("sh", argv_of({ "-c", "echo a; echo b; echo c" }), true, false); int n = r.range(0, 2); SS got; for (int i = 0; i < n; i++) { p->poll(); got += S(p->get_data()); } c.check("output", got == SS("a\nb\nc\n").substr(0, 2 * n), "output " + shown(got)); if (r.chance(.5)) c.check("stop", p->stop() == OK && !p->is_process_running(), "stop"); }
	else if (k == 8) { // started again when all output was read, before the end was asked for
		c.label("restart"); p->run("sh", argv_of({ "-c", "printf ab" }), true, false); for (int i = 0; i < 50 && p->is_process_running(); i++) p->poll(); c.check("output", p->get_data() == "ab", "output"); c.check("restart", !p->is_process_running() && p->run("sh", argv_of({ "-c", "printf cd; exit 7" }), true, false) == OK, "a second run"); SS got; for (int i = 0; i < 50 && p->poll() == OK; i++) got += S(p->get_data()); c.check("restart", got == "cd" && p->get_exitcode() == 7, "the output of a second run is " + shown(got)); }
	else { // several at once
		c.label("several"); SubProcess *q = SubProcess::create(); c.check("start", p->run("sh", argv_of({ "-c", "echo p1; echo p2; exit 5" }), true, false) == OK && q->run("sh", argv_of({ "-c", "echo q1; echo q2; exit 6" }), true, false) == OK, "start"); SS a, b; bool ea = false, eb = false; for (int i = 0; i < 1000 && !(ea && eb); i++) { if (!ea && r.chance(.5)) { if (p->poll() != OK) ea = true; else a += S(p->get_data()); } if (!eb && r.chance(.5)) { if (q->poll() != OK) eb = true; else b += S(q->get_data()); } } c.check("output", ea && eb && a == "p1\np2\n" && b == "q1\nq2\n" && p->get_exitcode() == 5 && q->get_exitcode() == 6, "two processes at once"); memdelete(q); }
	memdelete(p);
}

UNIT("R09", "process.settings", 4000, 60000) { // every setting is kept and changes no other one
	Sandbox sb(c); Rng &r = c.rng; SubProcess *p = SubProcess::create(); bool v[6] = { false, true, true, false, false, false }; static const char *N[] = { "blocking", "read_output", "read_std", "read_std_err", "use_pipe_mutex", "open_console" }; uint64_t h = 0;
	auto cmp = [&](const char *when) { bool g[6] = { p->get_blocking(), p->get_read_output(), p->get_read_std(), p->get_read_std_err(), p->get_use_pipe_mutex(), p->get_open_console() }; for (int k = 0; k < 6; k++) if (!c.check("setting", g[k] == v[k], strf("%s: %s is %d, expected %d", when, N[k], g[k], v[k]))) return false; return true; };
	c.label("settings"); c.check("fresh", p->get_process_id() == 0 && p->get_exitcode() == 0 && !p->is_process_running() && p->get_data().length() == 0 && p->get_arguments().size() == 0 && p->get_executable_path().length() == 0, "a new process object is not empty"); bool ok = cmp("new");
	for (int k = r.range(1, 12); k > 0 && ok; k--) { int q = r.range(0, 5); bool b = r.chance(.5); v[q] = b; if (q == 0) p->set_blocking(b); else if (q == 1) p->set_read_output(b); else if (q == 2) p->set_read_std(b); else if (q == 3) p->set_read_std_err(b); else if (q == 4) p->set_use_pipe_mutex(b); else p->set_open_console(b); ok = cmp(N[q]); h = hsh(h, q * 2 + b); }
	c.check("unsupported", p->send_signal(15) != OK && p->send_data("x") != OK && g_killed.empty(), "what is not implemented reports success"); cmp("after refusals"); memdelete(p); c.obs(h, true);
}
} // namespace r09
