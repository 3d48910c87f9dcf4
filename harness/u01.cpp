// U01: mini-batches: partition, order, pairing, sizes, engine and standard-vector interfaces.
#include "vh.h"
typedef std::vector<real_t> FV; typedef std::vector<FV> FM;
static FM fm(const DM &m) { FM o; for (int i = 0; i < m.r; i++) { FV v; for (int j = 0; j < m.co; j++) v.push_back(m.at(i, j)); o.push_back(v); } return o; }
static FV fv(const DV &v) { return FV(v.begin(), v.end()); }
// rows expected in batch i
static std::vector<int> rows_of(int n, int nb, int i) { std::vector<int> o; int q = n / nb; for (int j = 0; j < q; j++) o.push_back(q * i + j); if (i == nb - 1) for (int j = q * nb; j < n; j++) o.push_back(j); return o; }

UNIT("U01", "batches", 3000, 80000) {
	Rng &r = c.rng;
	int n = r.chance(0.1) ? r.range(20, 120) : r.range(1, 20), nb = r.chance(0.1) ? n : r.range(1, n), k = r.range(1, 4), ko = r.range(1, 4);
	DM X(n, k), O(n, ko); DV y(n);
	// every row is identifiable
	for (int i = 0; i < n; i++) { y[i] = 1000 + i; for (int j = 0; j < k; j++) X.at(i, j) = i * 10 + j; for (int j = 0; j < ko; j++) O.at(i, j) = 5000 + i * 10 + j; }
	if (r.chance(0.3)) { X = gm(r, n, k, K_MIX); O = gm(r, n, ko, K_MIX); y = gv(r, n, K_MIX); }
	RM M = mkm(X), Om = mkm(O); RV Y = mkv(y);
	MLPPUtilities ut;
	long e0 = errors();
	auto sub = [&](const DM &m, int i) { std::vector<int> w = rows_of(n, nb, i); DM o((int)w.size(), m.co); for (size_t a = 0; a < w.size(); a++) for (int j = 0; j < m.co; j++) o.at(a, j) = m.at(w[a], j); return o; };
	auto subv = [&](int i) { DV o; for (int w : rows_of(n, nb, i)) o.push_back(y[w]); return o; };
	std::string cs = strf("rows=%d batches=%d", n, nb);
	c.label("create_mini_batchesm");
	Vector<RM> b = MLPPUtilities::create_mini_batchesm(M, nb);
	if (c.check("count", b.size() == nb, cs)) for (int i = 0; i < nb; i++) { samem(c, "batch", b[i], sub(X, i)); c.check("own_storage", b[i] != M); }
	c.label("create_mini_batchesmv");
	auto mv = MLPPUtilities::create_mini_batchesmv(M, Y, nb);
	if (c.check("count", mv.input_sets.size() == nb && mv.output_sets.size() == nb, cs)) for (int i = 0; i < nb; i++) { samem(c, "inputs", mv.input_sets[i], sub(X, i)); samev(c, "labels", mv.output_sets[i], subv(i)); }
	c.label("create_mini_batchesmm");
	auto mm = MLPPUtilities::create_mini_batchesmm(M, Om, nb);
	if (c.check("count", mm.input_sets.size() == nb && mm.output_sets.size() == nb, cs)) for (int i = 0; i < nb; i++) { samem(c, "inputs", mm.input_sets[i], sub(X, i)); samem(c, "labels", mm.output_sets[i], sub(O, i)); }
	c.label("create_mini_batchesm_bind");
	Array ab = ut.create_mini_batchesm_bind(M, nb);
	if (c.check("count", ab.size() == nb)) for (int i = 0; i < nb; i++) { RM q = ab[i]; samem(c, "batch", q, sub(X, i)); }
	c.label("create_mini_batchesmv_bind");
	Array av = ut.create_mini_batchesmv_bind(M, Y, nb);
	if (c.check("pair", av.size() == 2)) { Array ai = av[0], ao = av[1]; if (c.check("count", ai.size() == nb && ao.size() == nb)) for (int i = 0; i < nb; i++) { RM q = ai[i]; RV z = ao[i]; samem(c, "inputs", q, sub(X, i)); samev(c, "labels", z, subv(i)); } }
	c.label("create_mini_batchesmm_bind");
	Array am = ut.create_mini_batchesmm_bind(M, Om, nb);
	if (c.check("pair", am.size() == 2)) { Array ai = am[0], ao = am[1]; if (c.check("count", ai.size() == nb && ao.size() == nb)) for (int i = 0; i < nb; i++) { RM q = ai[i]; RM z = ao[i]; samem(c, "inputs", q, sub(X, i)); samem(c, "labels", z, sub(O, i)); } }
	// standard-vector interface
	FM fx = fm(X), fo = fm(O); FV fy = fv(y);
	c.label("createMiniBatches"); auto s1 = MLPPUtilities::createMiniBatches(fx, nb);
	if (c.check("count", (int)s1.size() == nb, cs)) for (int i = 0; i < nb; i++) c.check("batch", s1[i] == fm(sub(X, i)), cs);
	c.label("createMiniBatches_v"); auto s2 = MLPPUtilities::createMiniBatches(fx, fy, nb);
	if (c.check("count", (int)std::get<0>(s2).size() == nb && (int)std::get<1>(s2).size() == nb, cs)) for (int i = 0; i < nb; i++) { c.check("inputs", std::get<0>(s2)[i] == fm(sub(X, i)), cs); c.check("labels", std::get<1>(s2)[i] == fv(subv(i)), cs); }
	c.label("createMiniBatches_m"); auto s3 = MLPPUtilities::createMiniBatches(fx, fo, nb);
	if (c.check("count", (int)std::get<0>(s3).size() == nb && (int)std::get<1>(s3).size() == nb, cs)) for (int i = 0; i < nb; i++) { c.check("inputs", std::get<0>(s3)[i] == fm(sub(X, i)), cs); c.check("labels", std::get<1>(s3)[i] == fm(sub(O, i)), cs); }
	c.label("source"); samem(c, "source_unchanged", M, X); samem(c, "source_unchanged", Om, O); samev(c, "source_unchanged", Y, y);
	// writing into a batch must not reach the source
	if (b.size() && b[0]->data_size()) { RM q = b[0]; q->fill(-77); samem(c, "independent_of_batch", M, X); }
	c.check("no_error", errors() == e0, "a valid request was refused");
	c.count(n % nb ? "with_remainder" : "even_split"); if (nb == 1) c.count("single_batch"); if (nb == n) c.count("one_row_each");
	c.obs(hsh(hsh(hsh(hs("mb"), n), nb), X.d), nb > 1); if (r.chance(0.02)) c.sample(cs);
}
