PROPERTY = 'R12'
NEEDS = 'a second thread that reads the clock for the first time between two readings of the first thread'
BREAKS = "the first reading in any thread moves the start of every thread's clock, so time jumps back"
EDITS = [('platform/sfw.cpp', '\tstatic thread_local uint64_t epoch = 0;', '\tstatic uint64_t epoch = 0;')]
DEMO = r'''#include <thread>
int main() {
	SFWCore::setup();
	uint64_t last = SFWTime::time_ns();
	for (int i = 0; i < 20; i++) {
		SFWTime::sleep_ms(2);
		uint64_t other = 0;
		std::thread t([&] { other = SFWTime::time_us(); SFWTime::sleep_ms(1); other = SFWTime::time_us() - other; });
		t.join();
		EXPECT(other >= 1000);
		uint64_t now = SFWTime::time_ns();
		EXPECT(now >= last + 3000000);
		last = now;
	}
	return 0;
}
'''
