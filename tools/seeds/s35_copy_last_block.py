PROPERTY = 'R07'
NEEDS = 'copying a file that is larger than the 64 KB buffer and whose size is no multiple of it'
BREAKS = 'the last block of a copy is written with the full buffer size, so the copy is longer than the source and ends with stale bytes'
EDITS = [('platform/sfw.cpp', '''		fdst->store_buffer(buffer.ptr(), bytes_read);
''', '''		fdst->store_buffer(buffer.ptr(), buffer_size);
''')]
DEMO = r'''int main() {
	SFWCore::setup();
	DirAccess *da = DirAccess::create();
	String dir = da->get_current_dir();
	const int sizes[] = { 0, 1, 1000, 65536, 131072, 65537, 100000 };
	for (int k = 0; k < 7; k++) {
		Vector<uint8_t> v;
		v.resize(sizes[k]);
		for (int i = 0; i < sizes[k]; i++) v.ptrw()[i] = i * 7 + k;
		Error e = FAILED;
		FileAccess::write_file_buffer(dir + "/a", v, &e);
		EXPECT(e == OK);
		EXPECT(da->copy(dir + "/a", dir + "/b") == OK);
		Vector<uint8_t> g = FileAccess::get_file_as_array(dir + "/b", &e);
		EXPECT(e == OK && g.size() == sizes[k]);
		for (int i = 0; i < sizes[k]; i++) EXPECT(g[i] == v[i]);
	}
	memdelete(da);
	return 0;
}
'''
