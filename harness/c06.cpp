// C06: every request with a missing operand, incompatible sizes or a bad index must report an error, return an
// empty/neutral value and leave every object as it was (ASan watches the memory outside the objects).
#include "vh.h"
#ifdef USING_SFW
#include "image.h"
#endif
#include <algorithm>
#include <climits>

namespace {
struct W {
	Ctx &c;
	DV v, v2; DM m, m2, mm; DT t, t2;
	RV V, V2; RM M, M2, MM; RT T, T2;
	RV NV; RM NM; RT NT; // missing operands
	int n;
	explicit W(Ctx &cc) : c(cc) {}
	int bad(int size) { // an index outside [0,size)
		int k = c.rng.range(0, 5);
		return k == 0 ? -1 : k == 1 ? size : k == 2 ? size + c.rng.range(1, 9) : k == 3 ? INT_MAX : k == 4 ? INT_MIN : -size - c.rng.range(1, 5);
	}
	int good(int size) { return c.rng.range(0, size - 1); }
	// return values
	void ret(const RV &r) { c.check("returned", !r.is_valid() || r->size() == 0 || dv(r) == v, "returned a non-empty vector"); }
	void ret(const RM &r) { c.check("returned", !r.is_valid() || r->data_size() == 0, "returned a non-empty matrix"); }
	void ret(const RT &r) { c.check("returned", !r.is_valid() || r->data_size() == 0, "returned a non-empty tensor"); }
	void ret(const Vector<real_t> &r) { c.check("returned", r.size() == 0, "returned elements"); }
	void ret(const PoolRealArray &r) { c.check("returned", r.size() == 0, "returned elements"); }
	void ret(const Ref<Image> &r) { c.check("returned", !r.is_valid() || r->empty(), "returned an image"); }
	void ret(double r) { c.check("returned", r == 0, strf("returned %g", r)); }
	void ret(bool r) { c.check("returned", !r, "returned true"); }
	void ret(int r) { c.check("returned", r == 0 || r == -1, strf("returned %d", r)); }
	bool same() {
		bool ok = samev(c, "changed.vector", V, v);
		ok = samev(c, "changed.vector_operand", V2, v2) && ok;
		ok = samem(c, "changed.matrix", M, m) && ok;
		ok = samem(c, "changed.matrix_operand", M2, m2) && ok;
		ok = samem(c, "changed.matrix_target", MM, mm) && ok;
		ok = samet(c, "changed.tensor", T, t) && ok;
		return samet(c, "changed.tensor_operand", T2, t2) && ok;
	}
};
struct Req { const char *name; void (*fn)(W &); };
#define R(name, ...) { name, [](W &w) { __VA_ARGS__; } }
// w.V2 / w.M2 / w.T2 are incompatible with w.V / w.M / w.T in the way an entry needs (see world())

const Req VREQ[] = {
	R("vector.remove", w.V->remove(w.bad(w.n))), R("vector.remove_unordered", w.V->remove_unordered(w.bad(w.n))),
	R("vector.insert", int b = w.bad(w.n); w.V->insert(b == w.n ? w.n + 1 : b, 3)),
	R("vector.element_get", w.ret((double)w.V->element_get(w.bad(w.n)))), R("vector.element_set", w.V->element_set(w.bad(w.n), 5)),
	R("vector.append.null", w.V->append_mlpp_vector(w.NV)),
	R("vector.set_from.null", w.V->set_from_mlpp_vector(w.NV)),
	R("vector.is_equal.null", w.ret(w.V->is_equal_approx(w.NV))),
#define VBIN(op) R("vector." #op ".size", w.V->op(w.V2)), R("vector." #op "n.size", w.ret(w.V->op##n(w.V2))), R("vector." #op "b.size", RV x = w.V; x->op##b(w.V, w.V2)), R("vector." #op "b2.size", w.V2->op##b(w.V, w.V2)), \
	R("vector." #op ".null", w.V->op(w.NV)), R("vector." #op "n.null", w.ret(w.V->op##n(w.NV))), R("vector." #op "b.null", w.V->op##b(w.NV, w.V2)), R("vector." #op "b.null2", w.V->op##b(w.V, w.NV))
#define VDIV R("vector.division_element_wise.size", w.V->division_element_wise(w.V2)), R("vector.division_element_wisen.size", w.ret(w.V->division_element_wisen(w.V2))), R("vector.division_element_wiseb.size", w.V->division_element_wiseb(w.V, w.V2)), \
	R("vector.division_element_wise.null", w.V->division_element_wise(w.NV)), R("vector.division_element_wisen.null", w.ret(w.V->division_element_wisen(w.NV))), R("vector.division_element_wiseb.null", w.V->division_element_wiseb(w.NV, w.V2)), R("vector.division_element_wiseb.null2", w.V->division_element_wiseb(w.V, w.NV))
	VBIN(add), VBIN(sub), VBIN(hadamard_product), VBIN(max), VBIN(min), VDIV,
#define VUN(op) R("vector." #op "b.null", w.V->op##b(w.NV))
	VUN(log), VUN(log10), VUN(exp), VUN(erf), VUN(sqrt), VUN(cbrt), VUN(abs), VUN(sin), VUN(cos),
	R("vector.exponentiateb.null", w.V->exponentiateb(w.NV, 2)), R("vector.scalar_multiplyb.null", w.V->scalar_multiplyb(2, w.NV)), R("vector.scalar_addb.null", w.V->scalar_addb(2, w.NV)),
	R("vector.dot.size", w.ret((double)w.V->dot(w.V2))), R("vector.dot.null", w.ret((double)w.V->dot(w.NV))),
	R("vector.distance.size", w.ret((double)w.V->euclidean_distance(w.V2))), R("vector.distance.null", w.ret((double)w.V->euclidean_distance(w.NV))),
	R("vector.distance_sq.size", w.ret((double)w.V->euclidean_distance_squared(w.V2))), R("vector.distance_sq.null", w.ret((double)w.V->euclidean_distance_squared(w.NV))),
	R("vector.cross.null", w.ret(w.V->cross(w.NV))),
	R("vector.cross.size", RV three = mkv({ 1, 2, 3 }), other = newv(w.c.rng.range(0, 2)); other->fill(1); w.ret(w.c.rng.chance(0.5) ? three->cross(other) : other->cross(three))),
	R("vector.subtract_matrix_rows.null", w.V->subtract_matrix_rows(w.NM)), R("vector.subtract_matrix_rowsn.null", w.ret(w.V->subtract_matrix_rowsn(w.NM))),
	R("vector.subtract_matrix_rowsb.null", w.V->subtract_matrix_rowsb(w.V, w.NM)), R("vector.subtract_matrix_rowsb.null2", w.V->subtract_matrix_rowsb(w.NV, w.M)),
	R("vector.subtract_matrix_rows.size", RM x = newm(2, w.n + 1); w.V->subtract_matrix_rows(x)), R("vector.subtract_matrix_rowsn.size", RM x = newm(2, w.n + 1); w.ret(w.V->subtract_matrix_rowsn(x))),
	R("vector.subtract_matrix_rowsb.size", RM x = newm(2, w.n + 1); w.V2->subtract_matrix_rowsb(w.V, x)),
	R("vector.outer_product.null", w.ret(w.V->outer_product(w.NV))),
	R("vector.find.from", w.ret(w.V->find((real_t)w.v[0], -w.c.rng.range(2, 9)))),
	R("vector.resize.negative", w.V->resize(-w.c.rng.range(1, 5))),
	R("vector.flatten_vectors.null", Vector<Ref<MLPPVector>> l; l.push_back(w.V2); l.push_back(RV()); w.V->flatten_vectors(l)),
	R("vector.flatten_vectorsn.null", Vector<Ref<MLPPVector>> l; l.push_back(w.V2); l.push_back(RV()); w.ret(w.V->flatten_vectorsn(l))),
};

const Req MREQ[] = {
	R("matrix.element_get", w.ret((double)(w.c.rng.chance(0.5) ? w.M->element_get(w.bad(w.m.r), w.good(w.m.co)) : w.M->element_get(w.good(w.m.r), w.bad(w.m.co))))),
	R("matrix.element_set", if (w.c.rng.chance(0.5)) w.M->element_set(w.bad(w.m.r), w.good(w.m.co), 9); else w.M->element_set(w.good(w.m.r), w.bad(w.m.co), 9)),
	R("matrix.element_get_index", w.ret((double)w.M->element_get_index(w.bad(w.m.r * w.m.co)))), R("matrix.element_set_index", w.M->element_set_index(w.bad(w.m.r * w.m.co), 9)),
	R("matrix.row_remove", w.M->row_remove(w.bad(w.m.r))), R("matrix.row_remove_unordered", w.M->row_remove_unordered(w.bad(w.m.r))),
	R("matrix.row_swap", if (w.c.rng.chance(0.5)) w.M->row_swap(w.bad(w.m.r), w.good(w.m.r)); else w.M->row_swap(w.good(w.m.r), w.bad(w.m.r))),
	R("matrix.row_get_vector", w.ret(w.M->row_get_vector(w.bad(w.m.r)))), R("matrix.row_get_pool_vector", w.ret(w.M->row_get_pool_vector(w.bad(w.m.r)))), R("matrix.row_get_mlpp_vector", w.ret(w.M->row_get_mlpp_vector(w.bad(w.m.r)))),
	R("matrix.row_get_into", w.M->row_get_into_mlpp_vector(w.bad(w.m.r), w.V)), R("matrix.row_get_into.null", w.M->row_get_into_mlpp_vector(0, w.NV)),
	R("matrix.row_set_vector", Vector<real_t> x; x.resize(w.m.co); w.M->row_set_vector(w.bad(w.m.r), x)), R("matrix.row_set_vector.size", Vector<real_t> x; x.resize(w.m.co + 1); w.M->row_set_vector(0, x)),
	R("matrix.row_set_pool_vector", PoolRealArray x; x.resize(w.m.co); w.M->row_set_pool_vector(w.bad(w.m.r), x)), R("matrix.row_set_pool_vector.size", PoolRealArray x; x.resize(w.m.co - 1); w.M->row_set_pool_vector(0, x)),
	R("matrix.row_set_mlpp_vector", RV x = newv(w.m.co); w.M->row_set_mlpp_vector(w.bad(w.m.r), x)), R("matrix.row_set_mlpp_vector.size", RV x = newv(w.m.co + (w.c.rng.chance(0.5) ? 1 : -1)); w.M->row_set_mlpp_vector(0, x)), R("matrix.row_set_mlpp_vector.null", w.M->row_set_mlpp_vector(0, w.NV)),
	R("matrix.row_set_std.size", w.M->set_row_std_vector(0, std::vector<real_t>(w.m.co + 1, 1))), R("matrix.row_set_std", w.M->set_row_std_vector(w.bad(w.m.r), std::vector<real_t>(w.m.co, 1))),
	R("matrix.row_add.size", Vector<real_t> x; x.resize(w.m.co + 1); w.M->row_add(x)), R("matrix.row_add_pool.size", PoolRealArray x; x.resize(w.m.co + 2); w.M->row_add_pool_vector(x)),
	R("matrix.row_add_mlpp.size", RV x = newv(w.m.co + 1); w.M->row_add_mlpp_vector(x)), R("matrix.row_add_mlpp.null", w.M->row_add_mlpp_vector(w.NV)),
	R("matrix.rows_add.size", RM x = newm(2, w.m.co + 1); w.M->rows_add_mlpp_matrix(x)), R("matrix.rows_add.null", w.M->rows_add_mlpp_matrix(w.NM)),
	R("matrix.set_from.null", w.M->set_from_mlpp_matrix(w.NM)),
	R("matrix.is_equal.null", w.ret(w.M->is_equal_approx(w.NM))),
#define MBIN(op, opn, opb) R("matrix." #op ".size", w.M->op(w.M2)), R("matrix." #opn ".size", w.ret(w.M->opn(w.M2))), R("matrix." #opb ".size", w.MM->opb(w.M, w.M2)), \
	R("matrix." #op ".null", w.M->op(w.NM)), R("matrix." #opn ".null", w.ret(w.M->opn(w.NM))), R("matrix." #opb ".null", w.MM->opb(w.NM, w.M2)), R("matrix." #opb ".null2", w.MM->opb(w.M, w.NM))
	MBIN(add, addn, addb), MBIN(sub, subn, subb), MBIN(hadamard_product, hadamard_productn, hadamard_productb), MBIN(division_element_wise, division_element_wisen, division_element_wiseb), MBIN(max, maxn, maxb), MBIN(min, minn, minb),
	R("matrix.mult.size", RM x = newm(w.m.co + 1, 2); x->fill(1); w.M->mult(x)), R("matrix.multn.size", RM x = newm(w.m.co + 1, 2); x->fill(1); w.ret(w.M->multn(x))), R("matrix.multb.size", RM x = newm(w.m.co + 1, 2); x->fill(1); w.MM->multb(w.M, x)),
	R("matrix.mult.null", w.M->mult(w.NM)), R("matrix.multn.null", w.ret(w.M->multn(w.NM))), R("matrix.multb.null", w.MM->multb(w.NM, w.M)), R("matrix.multb.null2", w.MM->multb(w.M, w.NM)),
	R("matrix.kronecker.null", w.M->kronecker_product(w.NM)), R("matrix.kroneckern.null", w.ret(w.M->kronecker_productn(w.NM))), R("matrix.kroneckerb.null", w.MM->kronecker_productb(w.NM, w.M)), R("matrix.kroneckerb.null2", w.MM->kronecker_productb(w.M, w.NM)),
#define MUN(op) R("matrix." #op "b.null", w.M->op##b(w.NM))
	MUN(log), MUN(log10), MUN(exp), MUN(erf), MUN(sqrt), MUN(cbrt), MUN(abs), MUN(sin), MUN(cos), MUN(transpose),
	R("matrix.exponentiateb.null", w.M->exponentiateb(w.NM, 2)), R("matrix.scalar_multiplyb.null", w.M->scalar_multiplyb(2, w.NM)), R("matrix.scalar_addb.null", w.M->scalar_addb(2, w.NM)),
	R("matrix.mult_vec.size", RV x = newv(w.m.co + 1); x->fill(1); w.ret(w.M->mult_vec(x))), R("matrix.mult_vec.null", w.ret(w.M->mult_vec(w.NV))),
	R("matrix.mult_veco.size", RV x = newv(w.m.co + 1); x->fill(1); w.M->mult_veco(x, w.V)), R("matrix.mult_veco.null", w.M->mult_veco(w.NV, w.V)), R("matrix.mult_veco.null_target", RV x = newv(w.m.co); w.M->mult_veco(x, w.NV)),
	R("matrix.add_vec.size", RV x = newv(w.m.co + 1); w.M->add_vec(x)), R("matrix.add_vecn.size", RV x = newv(w.m.co + 1); w.ret(w.M->add_vecn(x))), R("matrix.add_vecb.size", RV x = newv(w.m.co + 1); w.MM->add_vecb(w.M, x)),
	R("matrix.add_vec.null", w.M->add_vec(w.NV)), R("matrix.add_vecn.null", w.ret(w.M->add_vecn(w.NV))), R("matrix.add_vecb.null", w.MM->add_vecb(w.NM, w.V)), R("matrix.add_vecb.null2", w.MM->add_vecb(w.M, w.NV)),
	R("matrix.outer_product.null", w.M->outer_product(w.NV, w.V)), R("matrix.outer_product.null2", w.M->outer_product(w.V, w.NV)), R("matrix.outer_productn.null", w.ret(w.M->outer_productn(w.V, w.NV))),
	R("matrix.diagonal_set.null", w.M->diagonal_set(w.NV)), R("matrix.diagonal_setn.null", w.ret(w.M->diagonal_setn(w.NV))), R("matrix.diagonal_zeroed.null", w.M->diagonal_zeroed(w.NV)), R("matrix.diagonal_zeroedn.null", w.ret(w.M->diagonal_zeroedn(w.NV))),
	R("matrix.flatteno.null", w.M->flatteno(w.NV)), R("matrix.covo.null", w.M->covo(w.NM)), R("matrix.cofactoro.null", w.M->cofactoro(1, 0, 0, w.NM)),
	R("matrix.adjointo.null", w.M->adjointo(w.NM)), R("matrix.inverseo.null", w.M->inverseo(w.NM)), R("matrix.pinverseo.null", w.M->pinverseo(w.NM)),
	R("matrix.detb.null", w.ret((double)w.M->detb(w.NM, 2))),
	R("matrix.det.nonsquare", RM x = newm(3, 4); x->fill(1); w.ret((double)x->det())),
	R("matrix.inverse.nonsquare", RM x = newm(w.c.rng.chance(0.5) ? 4 : 2, 3); x->fill(1); w.ret(x->inverse())),
	R("matrix.solve.nonsquare", RM x = newm(2, 3); x->fill(1); RV y = newv(2); y->fill(1); w.ret(x->solve(y))),
	R("matrix.solve.size", RM x = newm(2, 2); x->fill(1); x->element_set(0, 0, 3); RV y = newv(3); y->fill(1); w.ret(x->solve(y))),
	R("matrix.solve.null", RM x = newm(2, 2); x->fill(1); x->element_set(0, 0, 3); w.ret(x->solve(w.NV))),
	R("matrix.get_into_image.null", w.M->get_into_image(Ref<Image>())), R("matrix.set_from_image.null", w.M->set_from_image(Ref<Image>(), 0)),
	R("matrix.set_from_image.channel", Ref<Image> i; i.instance(); i->create(3, 2, false, Image::FORMAT_RGBA8); w.M->set_from_image(i, w.bad(4))),
	R("matrix.resize.negative", w.M->resize(w.c.rng.chance(0.5) ? Size2i(-1, 2) : Size2i(2, -3))),
	R("matrix.set_from_vectors.ragged", Vector<Vector<real_t>> x; x.resize(2); Vector<real_t> a; a.resize(2); Vector<real_t> b; b.resize(3); x.set(0, a); x.set(1, b); w.M->set_from_vectors(x)),
	R("matrix.set_from_mlpp_vectors.ragged", Vector<Ref<MLPPVector>> x; x.push_back(newv(2)); x.push_back(newv(3)); w.M->set_from_mlpp_vectors(x)),
	R("matrix.set_from_mlpp_vectors.null", Vector<Ref<MLPPVector>> x; x.push_back(newv(2)); x.push_back(RV()); w.M->set_from_mlpp_vectors(x)),
	R("matrix.set_from_mlpp_vectors_array.null", Array x; x.push_back(newv(2).get_ref_ptr()); x.push_back(Variant()); w.M->set_from_mlpp_vectors_array(x)),
	R("matrix.set_from_arrays.ragged", Array x; PoolRealArray a; a.resize(2); PoolRealArray b; b.resize(3); x.push_back(a); x.push_back(b); w.M->set_from_arrays(x)),
	R("matrix.set_from_ptr.null", w.M->set_from_ptr(NULL, 2, 2)),
	R("matrix.set_from_std_vectors.ragged", w.M->set_from_std_vectors({ { 1, 2 }, { 1, 2, 3 } })),
};

const Req TREQ[] = {
	R("tensor.element_get", int k = w.c.rng.range(0, 2); w.ret((double)w.T->element_get(k == 0 ? w.bad(w.t.z) : 0, k == 1 ? w.bad(w.t.r) : 0, k == 2 ? w.bad(w.t.co) : 0))),
	R("tensor.element_set", int k = w.c.rng.range(0, 2); w.T->element_set(k == 0 ? w.bad(w.t.z) : 0, k == 1 ? w.bad(w.t.r) : 0, k == 2 ? w.bad(w.t.co) : 0, 9)),
	R("tensor.element_get_index", w.ret((double)w.T->element_get_index(w.bad((int)w.t.d.size())))), R("tensor.element_set_index", w.T->element_set_index(w.bad((int)w.t.d.size()), 9)),
	R("tensor.z_slice_remove", w.T->z_slice_remove(w.bad(w.t.z))), R("tensor.z_slice_remove_unordered", w.T->z_slice_remove_unordered(w.bad(w.t.z))),
	R("tensor.z_slice_swap", if (w.c.rng.chance(0.5)) w.T->z_slice_swap(w.bad(w.t.z), 0); else w.T->z_slice_swap(0, w.bad(w.t.z))),
#define TIDX(call) if (w.c.rng.chance(0.5)) { int z = w.bad(w.t.z), y = 0; call; } else { int z = 0, y = w.bad(w.t.r); call; }
	R("tensor.row_get_vector", TIDX(w.ret(w.T->row_get_vector(z, y)))), R("tensor.row_get_pool_vector", TIDX(w.ret(w.T->row_get_pool_vector(z, y)))), R("tensor.row_get_mlpp_vector", TIDX(w.ret(w.T->row_get_mlpp_vector(z, y)))),
	R("tensor.row_get_into", TIDX(w.T->row_get_into_mlpp_vector(z, y, w.V))), R("tensor.row_get_into.null", w.T->row_get_into_mlpp_vector(0, 0, w.NV)),
	R("tensor.row_set_vector", Vector<real_t> x; x.resize(w.t.co); TIDX(w.T->row_set_vector(z, y, x))), R("tensor.row_set_vector.size", Vector<real_t> x; x.resize(w.t.co + 1); w.T->row_set_vector(0, 0, x)),
	R("tensor.row_set_pool_vector", PoolRealArray x; x.resize(w.t.co); TIDX(w.T->row_set_pool_vector(z, y, x))), R("tensor.row_set_pool_vector.size", PoolRealArray x; x.resize(w.t.co + 1); w.T->row_set_pool_vector(0, 0, x)),
	R("tensor.row_set_mlpp_vector", RV x = newv(w.t.co); TIDX(w.T->row_set_mlpp_vector(z, y, x))), R("tensor.row_set_mlpp_vector.size", RV x = newv(w.t.co + 1); w.T->row_set_mlpp_vector(0, 0, x)), R("tensor.row_set_mlpp_vector.null", w.T->row_set_mlpp_vector(0, 0, w.NV)),
	R("tensor.z_slice_get_vector", w.ret(w.T->z_slice_get_vector(w.bad(w.t.z)))), R("tensor.z_slice_get_pool_vector", w.ret(w.T->z_slice_get_pool_vector(w.bad(w.t.z)))), R("tensor.z_slice_get_mlpp_vector", w.ret(w.T->z_slice_get_mlpp_vector(w.bad(w.t.z)))), R("tensor.z_slice_get_mlpp_matrix", w.ret(w.T->z_slice_get_mlpp_matrix(w.bad(w.t.z)))),
	R("tensor.z_slice_get_into_vector", w.T->z_slice_get_into_mlpp_vector(w.bad(w.t.z), w.V)), R("tensor.z_slice_get_into_matrix", w.T->z_slice_get_into_mlpp_matrix(w.bad(w.t.z), w.M)),
	R("tensor.z_slice_get_into_vector.null", w.T->z_slice_get_into_mlpp_vector(0, w.NV)), R("tensor.z_slice_get_into_matrix.null", w.T->z_slice_get_into_mlpp_matrix(0, w.NM)),
	R("tensor.z_slice_set_vector", Vector<real_t> x; x.resize(w.t.co * w.t.r); w.T->z_slice_set_vector(w.bad(w.t.z), x)), R("tensor.z_slice_set_vector.size", Vector<real_t> x; x.resize(w.t.co * w.t.r + 1); w.T->z_slice_set_vector(0, x)),
	R("tensor.z_slice_set_pool_vector", PoolRealArray x; x.resize(w.t.co * w.t.r); w.T->z_slice_set_pool_vector(w.bad(w.t.z), x)), R("tensor.z_slice_set_pool_vector.size", PoolRealArray x; x.resize(w.t.co * w.t.r + 1); w.T->z_slice_set_pool_vector(0, x)),
	R("tensor.z_slice_set_mlpp_vector", RV x = newv(w.t.co * w.t.r); w.T->z_slice_set_mlpp_vector(w.bad(w.t.z), x)), R("tensor.z_slice_set_mlpp_vector.size", RV x = newv(w.t.co * w.t.r + 1); w.T->z_slice_set_mlpp_vector(0, x)), R("tensor.z_slice_set_mlpp_vector.null", w.T->z_slice_set_mlpp_vector(0, w.NV)),
	R("tensor.z_slice_set_mlpp_matrix", RM x = newm(w.t.r, w.t.co); w.T->z_slice_set_mlpp_matrix(w.bad(w.t.z), x)), R("tensor.z_slice_set_mlpp_matrix.size", RM x = newm(w.t.r + 1, w.t.co); w.T->z_slice_set_mlpp_matrix(0, x)), R("tensor.z_slice_set_mlpp_matrix.null", w.T->z_slice_set_mlpp_matrix(0, w.NM)),
	R("tensor.x_slice_get", w.ret(w.T->x_slice_get(w.bad(w.t.co)))), R("tensor.x_slice_get_into", w.T->x_slice_get_into(w.bad(w.t.co), w.M)), R("tensor.x_slice_get_into.null", w.T->x_slice_get_into(0, w.NM)),
	R("tensor.x_slice_set", RM x = newm(w.t.z, w.t.r); w.T->x_slice_set(w.bad(w.t.co), x)), R("tensor.x_slice_set.size", RM x = newm(w.t.z + 1, w.t.r + 2); w.T->x_slice_set(0, x)), R("tensor.x_slice_set.null", w.T->x_slice_set(0, w.NM)),
	R("tensor.y_slice_get", w.ret(w.T->y_slice_get(w.bad(w.t.r)))), R("tensor.y_slice_get_into", w.T->y_slice_get_into(w.bad(w.t.r), w.M)), R("tensor.y_slice_get_into.null", w.T->y_slice_get_into(0, w.NM)),
	R("tensor.y_slice_set", RM x = newm(w.t.z, w.t.co); w.T->y_slice_set(w.bad(w.t.r), x)), R("tensor.y_slice_set.size", RM x = newm(w.t.z + 1, w.t.co + 2); w.T->y_slice_set(0, x)), R("tensor.y_slice_set.null", w.T->y_slice_set(0, w.NM)),
	R("tensor.z_slice_add.size", Vector<real_t> x; x.resize(w.t.r * w.t.co + 1); w.T->z_slice_add(x)), R("tensor.z_slice_add_pool.size", PoolRealArray x; x.resize(w.t.r * w.t.co + 1); w.T->z_slice_add_pool_vector(x)),
	R("tensor.z_slice_add_vector.size", RV x = newv(w.t.r * w.t.co + 1); w.T->z_slice_add_mlpp_vector(x)), R("tensor.z_slice_add_vector.null", w.T->z_slice_add_mlpp_vector(w.NV)),
	R("tensor.z_slice_add_matrix.size", RM x = newm(w.t.r + 1, w.t.co); w.T->z_slice_add_mlpp_matrix(x)), R("tensor.z_slice_add_matrix.null", w.T->z_slice_add_mlpp_matrix(w.NM)),
	R("tensor.set_from.null", w.T->set_from_mlpp_tensor3(w.NT)), R("tensor.set_from_matrix.null", w.T->set_from_mlpp_matrix(w.NM)), R("tensor.is_equal.null", w.ret(w.T->is_equal_approx(w.NT))),
	R("tensor.shape_set.size", w.T->shape_set(Size3i(w.t.co + 1, w.t.r, w.t.z))),
#define TBIN(op, opn, opb) R("tensor." #op ".size", w.T->op(w.T2)), R("tensor." #opn ".size", w.ret(w.T->opn(w.T2))), R("tensor." #opb ".size", w.T2->opb(w.T, w.T2)), \
	R("tensor." #op ".null", w.T->op(w.NT)), R("tensor." #opn ".null", w.ret(w.T->opn(w.NT))), R("tensor." #opb ".null", w.T->opb(w.NT, w.T2)), R("tensor." #opb ".null2", w.T->opb(w.T, w.NT))
	TBIN(add, addn, addb), TBIN(sub, subn, subb), TBIN(hadamard_product, hadamard_productn, hadamard_productb), TBIN(division_element_wise, division_element_wisen, division_element_wiseb), TBIN(max, maxn, maxb),
	R("tensor.sqrtb.null", w.T->sqrtb(w.NT)), R("tensor.absb.null", w.T->absb(w.NT)), R("tensor.exponentiateb.null", w.T->exponentiateb(w.NT, 2)), R("tensor.scalar_multiplyb.null", w.T->scalar_multiplyb(2, w.NT)), R("tensor.scalar_addb.null", w.T->scalar_addb(2, w.NT)),
	R("tensor.flatteno.null", w.T->flatteno(w.NV)),
	R("tensor.vec_mult.null", w.ret(w.T->tensor_vec_mult(w.NV))), R("tensor.vec_mult.size", RV x = newv(w.t.co + 1); x->fill(1); w.ret(w.T->tensor_vec_mult(x))),
	R("tensor.z_slices_add_image.null", w.T->z_slices_add_image(Ref<Image>())), R("tensor.z_slice_get_image", w.ret(w.T->z_slice_get_image(w.bad(w.t.z)))),
	R("tensor.z_slices_get_image", int b = w.bad(w.t.z); w.ret(w.T->z_slices_get_image(b < 0 ? w.t.z : b, 0, 0, 0))),
	R("tensor.z_slice_get_into_image.null", w.T->z_slice_get_into_image(Ref<Image>(), 0)), R("tensor.z_slices_get_into_image.null", w.T->z_slices_get_into_image(Ref<Image>(), 0)),
	R("tensor.z_slice_set_image.null", w.T->z_slice_set_image(Ref<Image>(), 0)), R("tensor.z_slices_set_image.null", w.T->z_slices_set_image(Ref<Image>(), 0)),
	R("tensor.set_from_image.null", w.T->set_from_image(Ref<Image>())),
	R("tensor.z_slice_set_image.size", Ref<Image> i; i.instance(); i->create(w.t.co + 1, w.t.r, false, Image::FORMAT_RGBA8); w.T->z_slice_set_image(i, 0)),
	R("tensor.z_slice_set_image", Ref<Image> i; i.instance(); i->create(w.t.co, w.t.r, false, Image::FORMAT_RGBA8); w.T->z_slice_set_image(i, w.bad(w.t.z))),
	R("tensor.x_slice_get_image", w.ret(w.T->x_slice_get_image(w.bad(w.t.co)))), R("tensor.y_slice_get_image", w.ret(w.T->y_slice_get_image(w.bad(w.t.r)))),
	R("tensor.x_slice_get_into_image.null", w.T->x_slice_get_into_image(Ref<Image>(), 0)), R("tensor.y_slice_get_into_image.null", w.T->y_slice_get_into_image(Ref<Image>(), 0)),
	R("tensor.x_slice_set_image.null", w.T->x_slice_set_image(Ref<Image>(), 0)), R("tensor.y_slice_set_image.null", w.T->y_slice_set_image(Ref<Image>(), 0)),
	R("tensor.set_from_vectors.null", Vector<Ref<MLPPVector>> x; x.push_back(newv(2)); x.push_back(RV()); w.T->set_from_mlpp_vectors(x)),
	R("tensor.set_from_matrices.null", Vector<Ref<MLPPMatrix>> x; x.push_back(newm(2, 2)); x.push_back(RM()); w.T->set_from_mlpp_matricess(x)),
	R("tensor.set_from_vectors.ragged", Vector<Ref<MLPPVector>> x; x.push_back(newv(2)); x.push_back(newv(3)); w.T->set_from_mlpp_vectors(x)),
	R("tensor.set_from_matrices.ragged", Vector<Ref<MLPPMatrix>> x; x.push_back(newm(2, 2)); x.push_back(newm(2, 3)); w.T->set_from_mlpp_matricess(x)),
};

void world(W &w) {
	Rng &r = w.c.rng;
	w.n = r.range(1, 9);
	w.v = gv(r, w.n, K_POS);
	int d = r.range(0, 9); if (d == w.n) d++;
	w.v2 = gv(r, d, K_POS);
	int a = r.range(1, 5), b = r.range(1, 5);
	w.m = gm(r, a, b, K_POS);
	int k = r.range(0, 3), ra = a, cb = b;
	if (k == 0) ra = a + r.range(1, 2); else if (k == 1) cb = b + r.range(1, 2); else if (k == 2 && a != b) std::swap(ra, cb); else { ra = a + 1; cb = b + 1; }
	w.m2 = gm(r, ra, cb, K_POS);
	w.mm = gm(r, r.range(1, 5), r.range(1, 5), K_POS);
	w.t = gt(r, r.range(1, 3), r.range(1, 4), r.range(1, 4), K_POS);
	int z2 = w.t.z, y2 = w.t.r, x2 = w.t.co;
	k = r.range(0, 4);
	if (k == 0) z2++; else if (k == 1) y2++; else if (k == 2) x2++; else if (k == 3 && x2 != y2) std::swap(x2, y2); else { z2++; x2++; }
	w.t2 = gt(r, z2, y2, x2, K_POS);
	w.V = mkv(w.v); w.V2 = mkv(w.v2); w.M = mkm(w.m); w.M2 = mkm(w.m2); w.MM = mkm(w.mm); w.T = mkt(w.t); w.T2 = mkt(w.t2);
}

void drive(Ctx &c, const Req *q, size_t cnt) {
	// every case takes the whole list once, starting at a different entry, in a fresh world per request
	size_t i = (size_t)c.case_no % cnt;
	const Req &x = q[i];
	for (int rep = 0; rep < 4; rep++) {
		W w(c);
		world(w);
		c.label(x.name);
		long e0 = errors();
		x.fn(w);
		c.check("reported", errors() > e0, "the invalid request reported no error");
		if (!w.same()) return;
		// the objects keep working
		c.label(strf("%s", x.name));
		w.V->push_back(7); w.v.push_back(7); w.M->scalar_add(1); for (double &e : w.m.d) e = (float)((float)e + 1.0f);
		w.T->scalar_multiply(2); for (double &e : w.t.d) e *= 2;
		w.same();
		c.count(x.name);
		c.obs(hsh(hsh(hs(x.name), w.v), w.m.r * 64 + w.m.co * 8 + rep + (uint64_t)c.case_no * 1024));
	}
	c.sample(x.name);
}
} // namespace

UNIT("C06", "vector", sizeof(VREQ) / sizeof(Req) * 12, sizeof(VREQ) / sizeof(Req) * 120) { drive(c, VREQ, sizeof(VREQ) / sizeof(Req)); }
UNIT("C06", "matrix", sizeof(MREQ) / sizeof(Req) * 12, sizeof(MREQ) / sizeof(Req) * 120) { drive(c, MREQ, sizeof(MREQ) / sizeof(Req)); }
UNIT("C06", "tensor", sizeof(TREQ) / sizeof(Req) * 12, sizeof(TREQ) / sizeof(Req) * 120) { drive(c, TREQ, sizeof(TREQ) / sizeof(Req)); }
