PROPERTY = 'R05'
NEEDS = 'a segment entering a box through a side of an axis other than the last, with the direction along the last axis opposite in sign to the one along the entry axis'
BREAKS = 'the sign of the entry side is taken from the last axis instead of the axis through which the segment enters, so the reported normal can point into the box'
EDITS = [('platform/sfw.cpp', '''		if (cmin > min) {
			min = cmin;
			axis = i;
			sign = csign;
		}
		if (cmax < max) {
			max = cmax;
		}
		if (max < min) {
			return false;
		}
	}

	Vector3 rel = p_to - p_from;
''', '''		sign = csign;
		if (cmin > min) {
			min = cmin;
			axis = i;
		}
		if (cmax < max) {
			max = cmax;
		}
		if (max < min) {
			return false;
		}
	}

	Vector3 rel = p_to - p_from;
''')]
DEMO = r'''#include "platform/sfw.h"
int main() {
	SFWCore::setup();
	AABB b(Vector3(0, 0, 0), Vector3(4, 4, 4));
	Vector3 clip, n;
	EXPECT(b.intersects_segment(Vector3(-2, 2, 2), Vector3(6, 2.5, 2.5), &clip, &n));
	EXPECT(clip.x > -0.001 && clip.x < 0.001);
	EXPECT(n == Vector3(-1, 0, 0));
	EXPECT(b.intersects_segment(Vector3(-2, 2, 2.5), Vector3(6, 2.5, 2), &clip, &n));
	EXPECT(n == Vector3(-1, 0, 0));
	EXPECT(b.intersects_segment(Vector3(2, 6, 1), Vector3(2.5, -2, 2), &clip, &n));
	EXPECT(n == Vector3(0, 1, 0));
	return 0;
}
'''
