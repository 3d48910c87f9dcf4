PROPERTY = 'C01'
NEEDS = 'appending a vector to itself, with the allocator moving the buffer on growth'
BREAKS = 'append_mlpp_vector takes the source pointer before the reallocation, so appending a vector to itself copies from freed memory'
EDITS = [('core/mlpp_vector.cpp', '''	int start_offset = _size;

	_size += other_size;

	_data = (real_t *)memrealloc(_data, _size * sizeof(real_t));
	CRASH_COND_MSG(!_data, "Out of memory");

	const real_t *other_ptr = p_other->ptr();
''', '''	int start_offset = _size;
	const real_t *other_ptr = p_other->ptr();

	_size += other_size;

	_data = (real_t *)memrealloc(_data, _size * sizeof(real_t));
	CRASH_COND_MSG(!_data, "Out of memory");
''')]
DEMO = '''
#include "core/mlpp_vector.h"
#include <malloc.h>
// a realloc that always moves the block and scrubs the old one, as any realloc may
extern "C" void *realloc(void *p, size_t n) {
	void *q = malloc(n);
	if (!p || !q) return q;
	size_t o = malloc_usable_size(p);
	memcpy(q, p, o < n ? o : n);
	memset(p, 0x41, o);
	free(p);
	return q;
}
int main() {
	SFWCore::setup();
	Ref<MLPPVector> v = Ref<MLPPVector>(memnew(MLPPVector));
	v->resize(1000);
	for (int i = 0; i < 1000; ++i) v->element_set(i, i + 1);
	v->append_mlpp_vector(v);
	EXPECT(v->size() == 2000);
	for (int i = 0; i < 2000; ++i) EXPECT(v->element_get(i) == (real_t)(i % 1000 + 1));
	return 0;
}
'''
