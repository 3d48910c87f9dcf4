PROPERTY = 'R08'
NEEDS = 'pointing a reference at the object it already holds, when no other handle holds it'
BREAKS = 'the check for the same object is gone, so the last handle is dropped and the object destroyed before it is taken again'
EDITS = [('platform/sfw.h', '''		if (reference == p_ptr) {
			return;
		}
		unref();

		T *r = Object::cast_to<T>(p_ptr);''', '''		unref();

		T *r = Object::cast_to<T>(p_ptr);''')]
DEMO = r'''#include "platform/sfw.h"
static int destroyed = 0;
class Node : public Reference {
	SFW_OBJECT(Node, Reference);

public:
	~Node() { destroyed++; }
};
int main() {
	SFWCore::setup();
	Ref<Node> other;
	other.instance();
	Ref<Node> r;
	r.reference_ptr(other.ptr());
	EXPECT(destroyed == 0 && other->reference_get_count() == 2);
	r.reference_ptr(other.ptr());
	EXPECT(destroyed == 0 && other->reference_get_count() == 2);
	Node *n = other.ptr();
	other.unref();
	EXPECT(destroyed == 0);
	Variant keep;
	r.reference_ptr(n);
	EXPECT(destroyed == 0);
	r.unref();
	EXPECT(destroyed == 1);
	return 0;
}
'''
