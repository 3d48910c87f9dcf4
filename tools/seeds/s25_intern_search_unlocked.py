PROPERTY = 'R03'
NEEDS = 'two threads interning the same new name at the same moment'
BREAKS = 'the table is searched before the lock is taken, so both threads miss the name and both insert it: equal texts get different names, and a name being freed can be walked over'
EDITS = [('platform/sfw.cpp', '''	lock.lock();

	uint32_t hash = p_name.hash();

	uint32_t idx = hash & STRING_TABLE_MASK;

	_data = _table[idx];

	while (_data) {
		if (_data->hash == hash && _data->get_name() == p_name) {
			break;
		}

		_data = _data->next;
	}

	if (_data) {''', '''	uint32_t hash = p_name.hash();

	uint32_t idx = hash & STRING_TABLE_MASK;

	_data = _table[idx];

	while (_data) {
		if (_data->hash == hash && _data->get_name() == p_name) {
			break;
		}

		_data = _data->next;
	}

	lock.lock();

	if (_data) {''', 1)]
DEMO = r'''
#include "platform/sfw.h"
#include <atomic>
#include <chrono>
#include <unistd.h>
#include <thread>
int main() {
	SFWCore::setup();
	auto end = std::chrono::steady_clock::now() + std::chrono::seconds(60);
	std::atomic<int> round(0), done(0);
	StringName *got[4];
	std::thread th[4];
	for (int k = 0; k < 4; ++k) th[k] = std::thread([&, k]() {
		for (int r = 1;; ++r) {
			int x;
			while ((x = round.load()) < r && x >= 0) {}
			if (x < 0) return;
			String s = "name_" + itos(r);
			got[k] = new StringName(s);
			done++;
			while (done.load() < 4 * r) {}
		}
	});
	int bad = 0, r = 0;
	// names are kept, so the walk itself stays within live entries
	while (!bad && r < 200000 && std::chrono::steady_clock::now() < end) {
		round = ++r;
		while (done.load() < 4 * r) {}
		for (int k = 1; k < 4; ++k) if (got[k]->data_unique_pointer() != got[0]->data_unique_pointer()) bad++;
	}
	if (bad) { printf("FAILED: equal texts, different names (round %d)\n", r); fflush(stdout); _exit(1); }
	fflush(stdout);
	_exit(0);
}
'''
