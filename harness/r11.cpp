// R11: what the logger writes, observed byte by byte on the real standard output (a file or a slow, small pipe), from one
// thread and from many at once under ThreadSanitizer, and in child processes that end in one of the library's traps.
// R12: the platform's clock against the system's, and sleeps that are hit by signals.
#include "vh.h"
#include "platform/sfw.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>
using namespace vh;

namespace {
// Everything printed between start() and stop().
struct Capture {
	int saved = -1, fd = -1, rd = -1;
	bool pipe_mode = false;
	std::thread reader;
	std::string got;
	void start(bool p_pipe, uint64_t seed) {
		fflush(stdout);
		saved = dup(1);
		pipe_mode = p_pipe;
		if (pipe_mode) {
			int p[2];
			if (pipe(p)) abort();
			fcntl(p[1], F_SETPIPE_SZ, 4096);
			rd = p[0];
			dup2(p[1], 1);
			close(p[1]);
			reader = std::thread([this, seed] {
				uint64_t s = seed;
				char b[1500];
				while (true) {
					s = s * 6364136223846793005ULL + 1442695040888963407ULL;
					if ((s >> 60) == 0) usleep(20);
					ssize_t n = read(rd, b, 1 + (s >> 33) % (sizeof b - 1));
					if (n <= 0) break;
					got.append(b, n);
				}
			});
		} else {
			fd = memfd_create("captured", 0);
			if (fd < 0) abort();
			dup2(fd, 1);
		}
	}
	void stop() {
		fflush(stdout);
		dup2(saved, 1);
		close(saved);
		if (pipe_mode) {
			reader.join();
			close(rd);
		} else {
			off_t n = lseek(fd, 0, SEEK_END);
			got.resize(n);
			if (n && pread(fd, &got[0], n, 0) != n) abort();
			close(fd);
		}
	}
};

std::string enc(uint32_t ch) {
	std::string s;
	if (ch < 0x80) s += (char)ch;
	else if (ch < 0x800) { s += (char)(0xC0 | ch >> 6); s += (char)(0x80 | (ch & 63)); }
	else if (ch < 0x10000) { s += (char)(0xE0 | ch >> 12); s += (char)(0x80 | ((ch >> 6) & 63)); s += (char)(0x80 | (ch & 63)); }
	else { s += (char)(0xF0 | ch >> 18); s += (char)(0x80 | ((ch >> 12) & 63)); s += (char)(0x80 | ((ch >> 6) & 63)); s += (char)(0x80 | (ch & 63)); }
	return s;
}

// texts a logger may be handed: format directives, its own separators, long ones, any character
struct Text { std::string b; String s; bool ascii = true; };
Text text(Rng &r, bool newlines) {
	static const char *hostile[] = { "", " ", "%s", "%n", "%d%d%d%s%s%s", "100%", "%%", "%5$s", "T ", " | ", "a::b:7 | c", "\"quoted\" \\ back", "\ttab", "E | x::y:1 | z", "%.3f", "%c", "%ls", "\x1b[31m" };
	Text t;
	int parts = r.range(0, 4);
	for (int i = 0; i < parts; i++) {
		switch (r.range(0, 5)) {
			case 0: t.b += r.pick(std::vector<const char *>(hostile, hostile + sizeof hostile / sizeof *hostile)); break;
			case 1: for (int k = r.range(1, 12); k > 0; k--) t.b += (char)r.range(32, 126); break;
			case 2: t.b += std::to_string(r.range(-100000, 100000)); break;
			case 3:
				if (r.chance(0.3)) for (int k = r.range(500, 9000); k > 0; k--) t.b += (char)r.range(33, 126);
				break;
			case 4:
				for (int k = r.range(1, 6); k > 0; k--) {
					uint32_t ch = r.pick(std::vector<uint32_t>{ 0xE9, 0x7FF, 0x800, 0x20AC, 0xFFFD, 0x1F600, 0x10FFFF, (uint32_t)r.range(0xA0, 0xD7FF), (uint32_t)r.range(0x10000, 0x10FFFF) });
					t.b += enc(ch);
					t.ascii = false;
				}
				break;
			case 5: if (newlines) t.b += "\n"; break;
		}
	}
	t.s = String::utf8(t.b.c_str());
	return t;
}

const char *const kFiles[] = { "core/logger.cpp", "a.h", "", "/very/long/path/with spaces/and::colons:3/file.cpp", "%s.cpp", "file|bar.cpp" };
const char *const kFuncs[] = { "f", "operator()", "", "~X", "operator%", "a_rather_long_function_name_that_goes_on_and_on" };

// One logger call and the line it owes. Forms that take a place accept file and function in either order when the
// message is assembled in a string first.
struct Call {
	int form;
	std::string fn, file, want, alt;
	int line, index, size;
	Text t;
	void run() const {
		const char *F = fn.c_str(), *P = file.c_str(), *B = t.b.c_str();
		switch (form) {
#define FOUR(n, what) \
	case n: RLogger::print_##what(t.s); break; \
	case n + 1: RLogger::print_##what(B); break; \
	case n + 2: RLogger::print_##what(F, P, line, t.s); break; \
	case n + 3: RLogger::print_##what(F, P, line, B); break; \
	case n + 4: RLogger::log_##what(t.s); break; \
	case n + 5: RLogger::log_##what(B); break; \
	case n + 6: RLogger::log_##what(F, P, line, t.s); break; \
	case n + 7: RLogger::log_##what(F, P, line, B); break; \
	case n + 8: { String *p = RLogger::get_##what##_string_ptr(); *p += t.s; RLogger::log_ret_ptr(p); } break; \
	case n + 9: { String *p = RLogger::get_##what##_string_ptr(F, P, line); *p += t.s; RLogger::log_ptr(p); RLogger::return_string_ptr(p); } break;
			FOUR(0, trace)
			FOUR(10, message)
			FOUR(20, warning)
			FOUR(30, error)
#undef FOUR
			case 40: RLogger::print_msg_error(F, P, line, B, "cond"); break;
			case 41: RLogger::log_msg_error(F, P, line, B, "cond"); break;
			case 42: RLogger::print_index_error(F, P, line, index, size, B); break;
			case 43: RLogger::log_index_error(F, P, line, index, size, B); break;
			case 44: RLogger::log_index_error(F, P, line, index, size, t.s); break;
			case 45: { String *p = RLogger::get_string_ptr(); *p += t.s; RLogger::log_ret_ptr(p); } break;
			case 46: { String *p = RLogger::get_string_ptr(F, P, line); *p += t.s; RLogger::log_ret_ptr(p); } break;
			case 47: { String *p = RLogger::get_string_ptr("X%d", F, P, line); *p += t.s; RLogger::log_ret_ptr(p); } break;
		}
	}
};
Call call(Rng &r, bool newlines, const std::string &tag) {
	Call k;
	k.form = r.range(0, 47);
	k.fn = r.pick(std::vector<const char *>(kFuncs, kFuncs + 6));
	k.file = r.pick(std::vector<const char *>(kFiles, kFiles + 6));
	k.line = r.pick(std::vector<int>{ 0, 1, 9, 10, 999, r.range(1, 20000), 123456, 2147483647 });
	k.index = r.pick(std::vector<int>{ -1, 0, 5, 2147483647, -2147483647 - 1, r.range(-1000, 1000) });
	k.size = r.pick(std::vector<int>{ 0, 1, 5, r.range(0, 1000), 2147483647 });
	k.t = text(r, newlines);
	k.t.b = tag + k.t.b;
	k.t.s = String::utf8(k.t.b.c_str());
	std::string at = k.file + "::" + k.fn + ":" + std::to_string(k.line), at2 = k.fn + "::" + k.file + ":" + std::to_string(k.line);
	if (k.form < 40) {
		std::string sev(1, "TMWE"[k.form / 10]);
		int f = k.form % 10;
		bool place = f == 2 || f == 3 || f == 6 || f == 7 || f == 9;
		k.want = place ? sev + " | " + at + " | " + k.t.b : sev + " " + k.t.b;
		if (f == 9) k.alt = sev + " | " + at2 + " | " + k.t.b;
	} else if (k.form < 42) {
		k.want = "E | " + at + " | :: cond. " + k.t.b;
	} else if (k.form < 45) {
		k.want = "E (INDEX) | " + at + " | :: index: " + std::to_string(k.index) + "/" + std::to_string(k.size) + ". " + k.t.b;
	} else if (k.form == 45) {
		k.want = k.t.b;
	} else {
		std::string pre = k.form == 47 ? "X%d | " : "";
		k.want = pre + at + " | " + k.t.b;
		k.alt = pre + at2 + " | " + k.t.b;
	}
	return k;
}
} // namespace

// ---- one thread: the exact bytes ----
UNIT("R11", "log.bytes", 3000, 60000) {
	Rng &r = c.rng;
	int n = r.range(1, 12);
	std::vector<Call> calls;
	for (int i = 0; i < n; i++) calls.push_back(call(r, true, ""));
	Capture cap;
	cap.start(r.chance(0.3), r.next());
	for (auto &k : calls) k.run();
	cap.stop();
	size_t at = 0;
	for (auto &k : calls) {
		c.label(strf("form%d", k.form));
		std::string w = k.want + "\n", a = k.alt.empty() ? w : k.alt + "\n";
		if (cap.got.compare(at, w.size(), w) == 0) at += w.size();
		else if (cap.got.compare(at, a.size(), a) == 0) at += a.size();
		else {
			c.fail("text", strf("got <%.200s> want <%.200s>", cap.got.substr(at, 200).c_str(), w.c_str()));
			return;
		}
		c.count(strf("form_%d", k.form).c_str());
		c.obs(hs(w), !k.t.b.empty());
	}
	c.label("");
	c.check("extra", at == cap.got.size(), strf("%zu bytes more than were logged", cap.got.size() - at));
}

// ---- many threads: every message whole, once, and in its thread's order ----
namespace {
struct Worker {
	std::vector<Call> calls;
	uint64_t seed;
	std::atomic<int> *gate;
	static void main(void *p) {
		Worker *w = (Worker *)p;
		w->gate->fetch_sub(1);
		while (w->gate->load() > 0) {}
		uint64_t s = w->seed;
		for (auto &k : w->calls) {
			k.run();
			s = s * 6364136223846793005ULL + 1442695040888963407ULL;
			if ((s >> 61) == 0) usleep((s >> 40) % 40);
			else if ((s >> 61) < 3) std::this_thread::yield();
		}
	}
};
} // namespace
UNIT("R11", "log.threads", 250, 6000) {
	Rng &r = c.rng;
	int n = r.range(2, 6), m = r.range(10, 80);
	std::vector<Worker> w(n);
	std::atomic<int> gate(n);
	std::map<std::string, std::pair<int, int>> owed; // line -> thread, position
	for (int i = 0; i < n; i++) {
		w[i].seed = r.next();
		w[i].gate = &gate;
		for (int k = 0; k < m; k++) {
			w[i].calls.push_back(call(r, false, strf("<%d.%d>", i, k)));
			Call &cl = w[i].calls.back();
			owed[cl.want] = std::make_pair(i, k);
			if (!cl.alt.empty()) owed[cl.alt] = std::make_pair(i, k);
		}
	}
	Capture cap;
	bool with_class = r.chance(0.5);
	cap.start(r.chance(0.5), r.next());
	if (with_class) {
		Thread th[6];
		for (int i = 0; i < n; i++) th[i].start(Worker::main, &w[i]);
		for (int i = 0; i < n; i++) th[i].wait_to_finish();
	} else {
		std::vector<std::thread> th;
		for (int i = 0; i < n; i++) th.emplace_back(Worker::main, &w[i]);
		for (auto &t : th) t.join();
	}
	cap.stop();
	std::vector<int> next(n, 0);
	uint64_t h = 1469598103934665603ULL;
	int last = -1, switches = 0, lines = 0;
	size_t at = 0;
	while (at < cap.got.size()) {
		size_t e = cap.got.find('\n', at);
		if (e == std::string::npos) { c.fail("unfinished", "the last line has no end"); return; }
		std::string line = cap.got.substr(at, e - at);
		at = e + 1;
		auto it = owed.find(line);
		if (it == owed.end()) { c.fail("broken_line", strf("<%.300s> is none of the messages", line.c_str())); return; }
		int t = it->second.first, k = it->second.second;
		if (next[t] != k) { c.fail(k < next[t] ? "repeated" : "order", strf("thread %d: message %d where %d was due", t, k, next[t])); return; }
		next[t]++;
		lines++;
		if (t != last) { switches++; h = hsh(hsh(h, t), k); }
		last = t;
	}
	for (int i = 0; i < n; i++) c.check("lost", next[i] == m, strf("thread %d: %d of %d messages", i, next[i], m));
	c.count("lines", lines);
	c.count("thread_switches_seen", switches);
	c.obs(h, switches > n);
}

// ---- what a process says before it traps ----
namespace {
bool trap(int how, int i, int n, const char *msg) {
	switch (how) {
		case 0: CRASH_INDEX(i, n); break;
		case 1: CRASH_BAD_INDEX(i, n); break;
		case 2: CRASH_BAD_UNSIGNED_INDEX(i, n); break;
		case 3: CRASH_COND(i < 0 || i >= n); break;
		case 4: CRASH_COND_MSG(i < 0 || i >= n, msg); break;
		case 5: { Vector<int> v; v.resize(n); volatile int x = v[i]; (void)x; } break;
		case 6: { LocalVector<int> v; v.resize(n); volatile int x = v[i]; (void)x; } break;
		case 7: { List<int> v; for (int k = 0; k < n; k++) v.push_back(k); volatile int x = v[i]; (void)x; } break;
	}
	return true;
}
} // namespace
UNIT("R11", "log.traps", 160, 2400) {
	Rng &r = c.rng;
	int how = r.range(0, 7), n = r.range(0, 6);
	int i = r.pick(std::vector<int>{ -1, 0, n - 1, n, n + 1, r.range(-50, 50), -2147483647 - 1, 2147483647 });
	bool bad = i < 0 || i >= n;
	if (!bad && r.chance(0.6)) { i = n; bad = true; }
	std::vector<Call> calls;
	for (int k = r.range(0, 5); k > 0; k--) calls.push_back(call(r, true, ""));
	Text msg = text(r, false);
	c.label(strf("trap%d", how));
	int p[2];
	if (pipe(p)) abort();
	fflush(stdout);
	fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		close(p[0]);
		dup2(p[1], 1);
		int null = open("/dev/null", O_WRONLY);
		if (null >= 0) dup2(null, 2);
		for (int s : { SIGILL, SIGTRAP, SIGABRT, SIGSEGV, SIGALRM }) signal(s, SIG_DFL);
		alarm(60);
		for (auto &k : calls) k.run();
		trap(how, i, n, msg.b.c_str());
		fflush(stdout);
		_exit(7);
	}
	close(p[1]);
	std::string got;
	char b[4096];
	ssize_t k;
	while ((k = read(p[0], b, sizeof b)) > 0) got.append(b, k);
	close(p[0]);
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	size_t at = 0;
	for (auto &cl : calls) {
		std::string w = cl.want + "\n", a = cl.alt.empty() ? w : cl.alt + "\n";
		if (got.compare(at, w.size(), w) == 0) at += w.size();
		else if (got.compare(at, a.size(), a) == 0) at += a.size();
		else { c.fail("lost_before_trap", strf("got <%.200s> want <%.200s>", got.substr(at, 200).c_str(), w.c_str())); return; }
	}
	std::string rest = got.substr(at);
	if (bad) {
		c.check("traps", WIFSIGNALED(st) && WTERMSIG(st) != SIGALRM, strf("%d of %d went on (status %d)", i, n, st));
		c.check("says_why", rest.size() > 3 && rest[0] == 'E' && rest.back() == '\n' && std::count(rest.begin(), rest.end(), '\n') == 1, strf("before the trap: <%.200s>", rest.c_str()));
		if (how <= 2) c.check("index", rest.find(strf("index: %d/%d", i, n)) != std::string::npos, rest);
		if (how == 4) c.check("message", rest.size() > msg.b.size() + 1 && rest.compare(rest.size() - 1 - msg.b.size(), msg.b.size(), msg.b) == 0, rest);
	} else {
		c.check("goes_on", WIFEXITED(st) && WEXITSTATUS(st) == 7, strf("%d of %d: status %d", i, n, st));
		c.check("silent", rest.empty(), rest);
	}
	c.count(bad ? "processes_trapped" : "processes_that_went_on");
	c.obs(hsh(hsh(hs(got), how), bad), bad || !calls.empty());
}

// ---- the guards: leave when they must, say so once, evaluate what they are given ----
namespace {
int g_after, g_acted;
void gv(int how, int i, int n, const char *m) {
	switch (how) {
		case 0: ERR_FAIL_INDEX(i, n); break;
		case 1: ERR_FAIL_UNSIGNED_INDEX((unsigned)i, (unsigned)n); break;
		case 2: ERR_FAIL_INDEX_MSG(i, n, m); break;
		case 3: ERR_FAIL_COND(i < 0 || i >= n); break;
		case 4: ERR_FAIL_COND_MSG(i < 0 || i >= n, m); break;
		case 5: if (i < 0 || i >= n) { ERR_FAIL_MSG(m); } break;
	}
	g_after++;
}
int gr(int how, int i, int n, const char *m) {
	switch (how) {
		case 6: ERR_FAIL_INDEX_V(i, n, -77); break;
		case 7: ERR_FAIL_INDEX_V_MSG(i, n, -77, m); break;
		case 8: ERR_FAIL_COND_V(i < 0 || i >= n, -77); break;
		case 9: ERR_FAIL_COND_V_MSG(i < 0 || i >= n, -77, m); break;
		case 10: if (i < 0 || i >= n) { ERR_FAIL_V(-77); } break;
		case 11: if (i < 0 || i >= n) { ERR_FAIL_V_MSG(-77, m); } break;
	}
	g_after++;
	return 5;
}
void gl(int how, const std::vector<int> &is, int n, const char *m) {
	for (int i : is) {
		switch (how) {
			default: break;
		}
		if (how == 12) ERR_CONTINUE(i < 0 || i >= n);
		else if (how == 13) ERR_CONTINUE_MSG(i < 0 || i >= n, m);
		else if (how == 14) ERR_CONTINUE_ACTION(i < 0 || i >= n, g_acted++);
		else if (how == 15) ERR_CONTINUE_ACTION_MSG(i < 0 || i >= n, g_acted++, m);
		g_after++;
	}
}
} // namespace
UNIT("R11", "log.guards", 6000, 120000) {
	Rng &r = c.rng;
	int how = r.range(0, 15), n = r.range(0, 6);
	std::vector<int> is;
	int cnt = how >= 12 ? r.range(0, 6) : 1, bad = 0;
	for (int k = 0; k < cnt; k++) {
		is.push_back(r.pick(std::vector<int>{ -1, 0, n - 1, n, r.range(-10, 10), r.range(0, 6), -2147483647 - 1, 2147483647 }));
		if (is.back() < 0 || is.back() >= n) bad++;
	}
	Text msg = text(r, false);
	c.label(strf("guard%d", how));
	g_after = g_acted = 0;
	int ret = 0;
	Capture cap;
	cap.start(false, 0);
	if (how < 6) gv(how, is[0], n, msg.b.c_str());
	else if (how < 12) ret = gr(how, is[0], n, msg.b.c_str());
	else gl(how, is, n, msg.b.c_str());
	cap.stop();
	c.check("leaves", g_after == cnt - bad, strf("went on %d times of %d with %d failures", g_after, cnt, bad));
	c.check("lines", std::count(cap.got.begin(), cap.got.end(), '\n') == bad, strf("%d failures: <%.300s>", bad, cap.got.c_str()));
	if (how >= 6 && how < 12) c.check("value", ret == (bad ? -77 : 5), strf("%d", ret));
	if (how == 14 || how == 15) c.check("acts", g_acted == bad, strf("%d of %d", g_acted, bad));
	bool with_msg = how == 2 || how == 4 || how == 5 || how == 7 || how == 9 || how == 11 || how == 13 || how == 15;
	size_t at = 0;
	for (int k = 0; k < bad; k++) {
		size_t e = cap.got.find('\n', at);
		std::string l = cap.got.substr(at, e - at);
		at = e + 1;
		c.check("severity", l[0] == 'E' && l.find("r11.cpp") != std::string::npos, l);
		if (with_msg) c.check("message", l.size() >= msg.b.size() && l.compare(l.size() - msg.b.size(), std::string::npos, msg.b) == 0, l);
		if (how == 0 || how == 2 || how == 6 || how == 7) c.check("index", l.find(strf("index: %d/%d", is[0], n)) != std::string::npos, l);
	}
	c.obs(hsh(hsh(hs(cap.got), how), bad), bad > 0);
}

// ---- the macros the rest of the code logs with ----
UNIT("R11", "log.macros", 2000, 40000) {
	Rng &r = c.rng;
	Text a = text(r, false), b = text(r, false);
	int how = r.range(0, 8), num = r.range(-100000, 100000), line = 0;
	c.label(strf("macro%d", how));
	Capture cap;
	cap.start(false, 0);
	switch (how) {
		case 0: line = __LINE__; PRINT_TRACE(a.s); break;
		case 1: line = __LINE__; PRINT_MSG(a.s); break;
		case 2: line = __LINE__; PRINT_WARN(a.s); break;
		case 3: line = __LINE__; PRINT_ERR(a.s); break;
		case 4: line = __LINE__; ERR_PRINT(a.s); break;
		case 5: line = __LINE__; LOG_TRACE(a.s, b.s); break;
		case 6: line = __LINE__; LOG_MSG(a.s, b.s, String::num(num)); break;
		case 7: line = __LINE__; LOG_WARN(a.s); break;
		case 8: line = __LINE__; LOG_ERR(a.s, b.s, a.s, b.s, String::num(num)); break;
	}
	cap.stop();
	std::string want = a.b;
	if (how == 5) want += " " + b.b;
	if (how == 6) want += " " + b.b + " " + std::to_string(num);
	if (how == 8) want += " " + b.b + " " + a.b + " " + b.b + " " + std::to_string(num);
	static const char sev[] = "TMWEETMWE";
	const std::string &g = cap.got;
	c.check("line", std::count(g.begin(), g.end(), '\n') == 1 && g.back() == '\n', g);
	c.check("severity", g[0] == sev[how] && g.compare(1, 3, " | ") == 0, g);
	size_t sep = g.find(" | ", 4);
	std::string place = sep == std::string::npos ? "" : g.substr(4, sep - 4), num_s = ":" + std::to_string(line);
	c.check("place", place.find(__FILE__) != std::string::npos && place.find(__FUNCTION__) != std::string::npos && place.size() > num_s.size() && place.compare(place.size() - num_s.size(), std::string::npos, num_s) == 0, g);
	c.check("text", sep != std::string::npos && g.substr(sep + 3) == want + "\n", strf("got <%.200s> want <%.200s>", g.c_str(), want.c_str()));
	c.obs(hsh(hs(g), how), !a.b.empty());
}

// ================================================================ R12
namespace {
uint64_t raw_ns(clockid_t id) {
	struct timespec t;
	clock_gettime(id, &t);
	return (uint64_t)t.tv_sec * 1000000000ULL + t.tv_nsec;
}
// Readings of one thread: there must be one starting point for which every reading lies between the system's clock
// before and after it.
struct Clock {
	std::string wrong;
	long reads = 0;
	uint64_t sig = 1469598103934665603ULL;
	void go(uint64_t seed, int n, bool nap) {
		Rng r(seed);
		double lo = -1e300, hi = 1e300; // bounds on the starting point, in ns
		uint64_t prev = 0;
		uint64_t first = raw_ns(CLOCK_MONOTONIC_RAW);
		for (int i = 0; i < n; i++) {
			int unit = r.range(0, 5);
			double got = 0, grain = 1;
			uint64_t before = raw_ns(CLOCK_MONOTONIC_RAW) - first;
			switch (unit) {
				case 0: { uint64_t x = SFWTime::time_ns(); if (x < prev) { wrong = strf("%llu after %llu", (unsigned long long)x, (unsigned long long)prev); return; } prev = x; got = x; } break;
				case 1: got = SFWTime::time_us() * 1e3; grain = 1e3; break;
				case 2: got = SFWTime::time_ms() * 1e6; grain = 1e6; break;
				case 3: got = SFWTime::time_ss() * 1e9; grain = 10; break;
				case 4: got = SFWTime::time_mm() * 60e9; grain = 10; break;
				case 5: got = SFWTime::time_hh() * 3600e9; grain = 10; break;
			}
			uint64_t after = raw_ns(CLOCK_MONOTONIC_RAW) - first;
			// start + got <= after, start + got + grain >= before
			hi = std::min(hi, (double)after - got + 1);
			lo = std::max(lo, (double)before - got - grain);
			if (lo > hi) { wrong = strf("unit %d reading %d: %.0f ns between %llu and %llu fits no start (%.0f > %.0f)", unit, i, got, (unsigned long long)before, (unsigned long long)after, lo, hi); return; }
			reads++;
			sig = hsh(sig, unit);
			if (nap && r.chance(0.05)) { struct timespec t = { 0, r.range(1, 300000) }; nanosleep(&t, nullptr); }
		}
	}
};
} // namespace
UNIT("R12", "clock.readings", 400, 8000) {
	Rng &r = c.rng;
	int n = r.range(1, 4), m = r.range(2, 120);
	std::vector<Clock> k(n);
	std::vector<std::thread> th;
	uint64_t seed = r.next();
	for (int i = 0; i < n; i++) th.emplace_back([&, i] { k[i].go(seed + i, m, i % 2); });
	for (auto &t : th) t.join();
	Clock here;
	here.go(seed ^ 5, m, true);
	k.push_back(here);
	for (auto &x : k) {
		c.check("reading", x.wrong.empty(), x.wrong);
		c.count("readings", x.reads);
		c.obs(x.sig, x.reads > 1);
	}
	uint64_t a = time(nullptr), e = SFWTime::date_epoch(), b = time(nullptr);
	c.check("epoch", e >= a && e <= b, strf("%llu not in %llu..%llu", (unsigned long long)e, (unsigned long long)a, (unsigned long long)b));
}

namespace {
std::atomic<long> g_signals;
void on_signal(int) { g_signals++; }
} // namespace
// Sleeps, most of them hit by signals; none may end early.
UNIT("R12", "sleep.signals", 90, 1500) {
	Rng &r = c.rng;
	double ns = r.pick(std::vector<double>{ 0, -1, -1e9, 0.4, 1, 999, 1e3, 1e6, 3.5e6, 9.99999e6, r.uni(0, 2e7), r.uni(0, 2e7), r.uni(1e6, 1.2e7) });
	if (r.chance(0.02)) ns = 1.0005e9;
	int unit = r.range(0, 3), every = r.chance(0.7) ? r.range(200, 4000) : 0;
	struct sigaction sa, old;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_signal;
	sa.sa_flags = r.chance(0.5) ? SA_RESTART : 0;
	sigaction(SIGUSR1, &sa, &old);
	long sig0 = g_signals;
	pthread_t me = pthread_self();
	std::atomic<bool> done(false);
	std::thread noise([&] {
		if (every) while (!done) { usleep(every); pthread_kill(me, SIGUSR1); }
	});
	c.label(strf("unit%d", unit));
	uint64_t a = raw_ns(CLOCK_MONOTONIC), x = raw_ns(CLOCK_MONOTONIC_RAW);
	switch (unit) {
		case 0: SFWTime::sleep_ns(ns); break;
		case 1: SFWTime::sleep_us(ns / 1e3); break;
		case 2: SFWTime::sleep_ms(ns / 1e6); break;
		case 3: SFWTime::sleep_ss(ns / 1e9); break;
	}
	uint64_t b = raw_ns(CLOCK_MONOTONIC), y = raw_ns(CLOCK_MONOTONIC_RAW);
	done = true;
	noise.join();
	sigaction(SIGUSR1, &old, nullptr);
	double slept = std::max((double)(b - a), (double)(y - x)), need = ns * 0.998 - 2000;
	c.check("too_short", slept >= need, strf("%.0f ns of %.0f ns after %ld signals", slept, ns, (long)g_signals - sig0));
	// far longer than asked for, even for a loaded machine: a unit is mistaken
	c.check("too_long", slept < std::max(ns, 0.0) * 4 + 6e9, strf("%.0f ns for %.0f ns", slept, ns));
	c.count("signals", g_signals - sig0);
	c.count(g_signals > sig0 ? "sleeps_hit_by_signals" : "undisturbed_sleeps");
	c.obs(hsh(hsh(hs(strf("%.0f", ns)), unit), every), ns > 0);
}
