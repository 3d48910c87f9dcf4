PROPERTY = 'R11'
NEEDS = 'two or more threads that log at the same time, one of which is interrupted between the text and the end of its line'
BREAKS = 'messages of different threads run into each other on one line'
EDITS = [('platform/sfw.cpp', '''void RLogger::log_ptr(String *str) {
	printf("%s\\n", str->utf8().get_data());
''', '''void RLogger::log_ptr(String *str) {
	printf("%s", str->utf8().get_data());
	printf("\\n");
''')]
DEMO = r'''#include <fcntl.h>
#include <unistd.h>
#include <fstream>
#include <string>
#include <thread>
#include <vector>
static void work(int id) {
	for (int i = 0; i < 20000; i++) {
		LOG_MSG(String("<thread " + String::num(id) + " message " + String::num(i) + ">"));
	}
}
int main() {
	SFWCore::setup();
	fflush(stdout);
	int saved = dup(1);
	int fd = open("log.txt", O_CREAT | O_TRUNC | O_WRONLY, 0600);
	dup2(fd, 1);
	std::vector<std::thread> th;
	for (int i = 0; i < 6; i++) th.emplace_back(work, i);
	for (auto &t : th) t.join();
	fflush(stdout);
	dup2(saved, 1);
	std::ifstream in("log.txt");
	std::string l;
	int lines = 0;
	bool whole = true;
	while (std::getline(in, l)) {
		lines++;
		if (l.empty() || l[0] != 'M' || l.back() != '>' || l.find('<') != l.rfind('<')) whole = false;
	}
	EXPECT(whole);
	EXPECT(lines == 120000);
	return 0;
}
'''
