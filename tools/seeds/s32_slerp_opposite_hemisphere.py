PROPERTY = 'R05'
NEEDS = 'interpolating between two quaternions of opposite hemispheres (negative dot product), strictly between the ends'
BREAKS = 'the target is negated to take the short way but the angle is still that of the long way, so both ends are right and the rotations in between are not on the arc'
EDITS = [('platform/sfw.cpp', '''	if (cosom < 0) {
		cosom = -cosom;
		to1.x = -p_to.x;''', '''	if (cosom < 0) {
		to1.x = -p_to.x;''')]
DEMO = r'''#include "platform/sfw.h"
int main() {
	SFWCore::setup();
	Quaternion a(Vector3(0, 0, 1), 0.2);
	Quaternion b(Vector3(0, 0, 1), 1.4);
	Quaternion nb(-b.x, -b.y, -b.z, -b.w);
	Vector3 v(1, 0, 0);
	for (int i = 0; i <= 4; i++) {
		real_t w = i / 4.0;
		real_t t = 0.2 + 1.2 * w;
		Vector3 want(cos(t), sin(t), 0);
		EXPECT((a.slerp(b, w).xform(v) - want).length() < 1e-3);
		EXPECT((a.slerp(nb, w).xform(v) - want).length() < 1e-3);
	}
	return 0;
}
'''
