PROPERTY = 'M02'
NEEDS = 'three or more clusters, and a centroid that is closer than the first but not the closest'
BREAKS = 'the assignment compares each centroid with the distance to the first one only, so the last centroid closer than the first wins'
EDITS = [('modules/kmeans/kmeans.cpp', '''				_mu->row_get_into_mlpp_vector(j, closest_centroid);
				closest_centroid_current_dist = input_set_i_tempv->euclidean_distance(closest_centroid);
				closest_centroid_index = j;
			}
		}

		_r->element_set''', '''				_mu->row_get_into_mlpp_vector(j, closest_centroid);
				closest_centroid_index = j;
			}
		}

		_r->element_set''')]
DEMO = r'''
#include "modules/kmeans/kmeans.h"
int main() {
	SFWCore::setup();
	// once trained, every centroid is the mean of the samples nearest to it
	real_t v[12] = { 0, 1, 2, 100, 101, 102, 1000, 1001, 1002, 5000, 5001, 5002 };
	for (int t = 0; t < 30; ++t) {
		Ref<MLPPMatrix> X; X.instance(); X->resize(Size2i(1, 12));
		for (int i = 0; i < 12; ++i) X->element_set_index(i, v[(i * 5 + t) % 12]);
		Ref<MLPPKMeans> k = Ref<MLPPKMeans>(memnew(MLPPKMeans));
		k->set_input_set(X);
		k->set_k(4);
		k->set_mean_type(MLPPKMeans::MEAN_TYPE_KMEANSPP);
		k->initialize();
		k->train(100, false);
		Ref<MLPPMatrix> c = k->model_set_test(X);
		for (int i = 0; i < 12; ++i) {
			double sum = 0, n = 0, ci = c->element_get(i, 0);
			for (int j = 0; j < 12; ++j) if (c->element_get(j, 0) == ci) { sum += X->element_get(j, 0); n += 1; }
			EXPECT(n > 0 && Math::abs(sum / n - ci) < 0.5);
		}
	}
	return 0;
}
'''
