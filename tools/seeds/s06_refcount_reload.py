PROPERTY = 'R03'
NEEDS = 'two threads dropping handles of the same buffer at the same moment'
BREAKS = 'the counter is decremented atomically, but the result is read back in a second step: two threads that drop the last two handles can both see zero and free the buffer twice'
EDITS = [('platform/sfw.h', '\t\treturn value.fetch_sub(1, std::memory_order_acq_rel) - 1;', '''		value.fetch_sub(1, std::memory_order_acq_rel);
		return value.load(std::memory_order_acquire);''')]
DEMO = r'''
#include "platform/sfw.h"
#include <atomic>
#include <thread>
#include <chrono>
static std::atomic<int> live(0);
struct T { T() { live++; } T(const T &) { live++; } ~T() { live--; } T &operator=(const T &) { return *this; } };
int main() {
	SFWCore::setup();
	auto end = std::chrono::steady_clock::now() + std::chrono::seconds(30);
	// a shared counter decremented to zero by two threads: exactly one of them may see zero
	SafeNumeric<uint32_t> n;
	std::atomic<int> round(0), done(0), zeros(0);
	bool stop = false;
	auto body = [&](int k) {
		for (int r = 1;; ++r) {
			while (round.load() < r) { if (round.load() < 0) return; }
			if (n.decrement() == 0) zeros++;
			done++;
		}
	};
	std::thread a(body, 0), b(body, 1);
	int bad = 0, rounds = 0;
	while (!bad && rounds < 3000000 && std::chrono::steady_clock::now() < end) {
		n.set(2); zeros = 0; done = 0; ++rounds;
		round = rounds;
		while (done.load() < 2) {}
		if (zeros != 1) bad = zeros ? zeros.load() : -1;
	}
	round = -1;
	a.join(); b.join();
	EXPECT(bad == 0);
	return 0;
}
'''
