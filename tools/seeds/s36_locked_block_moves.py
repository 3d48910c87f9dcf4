PROPERTY = 'R09'
NEEDS = 'a pool with locking, and growing a block in front of a locked block that has free room behind it, when the blocks before it cannot give enough room'
BREAKS = 'making room behind a growing block also moves blocks that are locked, so an address handed out under the lock no longer holds the content'
EDITS = [('platform/sfw.cpp', '''		if (hole_size > 0 && !entry.lock) {
			COMPACT_CHUNK(entry, (next_entry_end_pos - aligned(entry.len)));''', '''		if (hole_size > 0 && (i == p_from || !entry.lock)) {
			COMPACT_CHUNK(entry, (next_entry_end_pos - aligned(entry.len)));''')]
DEMO = r'''int main() {
	SFWCore::setup();
	PoolAllocator *p = memnew(PoolAllocator(100, true, 16));
	int a = p->alloc(20), b = p->alloc(20), d = p->alloc(20);
	EXPECT(a != -1 && b != -1 && d != -1);
	EXPECT(p->lock(b) == OK);
	void *at = p->get(b);
	memset(at, 7, 20);
	p->resize(a, 50);
	EXPECT(p->get(b) == at);
	for (int i = 0; i < 20; i++) EXPECT(((uint8_t *)p->get(b))[i] == 7);
	p->unlock(b);
	EXPECT(p->resize(a, 50) == OK);
	memdelete(p);
	return 0;
}
'''
