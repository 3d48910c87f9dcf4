PROPERTY = 'Z01'
NEEDS = 'assigning an array to itself or to another handle of the same storage'
BREAKS = 'the reference is taken before the two handles are compared, so such an assignment keeps the storage alive for ever'
EDITS = [('platform/sfw.cpp', '''	if (_fp == _p) {
		return; // whatever it is, nothing to do here move along
	}

	bool success = _fp->refcount.ref();

	ERR_FAIL_COND(!success); // should really not happen either
''', '''	bool success = _fp->refcount.ref();

	ERR_FAIL_COND(!success); // should really not happen either

	if (_fp == _p) {
		return; // whatever it is, nothing to do here move along
	}
''')]
DEMO = r'''
#include "platform/sfw.h"
int main() {
	SFWCore::setup();
	Ref<Reference> r; r.instance();
	{
		Array a;
		a.push_back(r.get_ref_ptr());
		Array b = a;
		b = a;
		a = b;
		EXPECT(r->reference_get_count() == 2);
	}
	EXPECT(r->reference_get_count() == 1);
	return 0;
}
'''
