#include "meshes.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/bases/bases_new.hpp"
#define CELL(m) *m.cells_begin()
#define FACE(m) *std::next(m.faces_begin(), 0)
#define BASE(NAME, MK, PT, EL, MB) \
size_t NAME##_size(const std::vector<PT>& p, size_t d) { auto m = MK(p); auto e = EL(m); auto b = MB; return b.size(); } \
size_t NAME##_degree(const std::vector<PT>& p, size_t d) { auto m = MK(p); auto e = EL(m); auto b = MB; return b.degree(); } \
auto NAME##_fun(const std::vector<PT>& p, size_t d, const PT& x) { auto m = MK(p); auto e = EL(m); auto b = MB; return b.eval_functions(x); }
#define EVAL(NAME, WHAT, MK, PT, EL, MB) \
auto NAME##_##WHAT(const std::vector<PT>& p, size_t d, const PT& x) { auto m = MK(p); auto e = EL(m); auto b = MB; return b.eval_##WHAT(x); }
#define NEWB(NAME, MK, PT, EL, MB) \
size_t NAME##_size(const std::vector<PT>& p, size_t d) { auto m = MK(p); auto e = EL(m); auto b = MB; return b.size(); } \
size_t NAME##_degree(const std::vector<PT>& p, size_t d) { auto m = MK(p); auto e = EL(m); auto b = MB; return b.degree(); } \
size_t NAME##_sizeof(const std::vector<PT>& p, size_t d) { auto m = MK(p); auto e = EL(m); auto b = MB; return b.size_of_degree(d); } \
size_t NAME##_ideg(const std::vector<PT>& p, size_t d) { auto m = MK(p); auto e = EL(m); auto b = MB; return b.integration_degree(); } \
auto NAME##_fun(const std::vector<PT>& p, size_t d, const PT& x) { auto m = MK(p); auto e = EL(m); auto b = MB; return b(x); }
#define NEWG(NAME, MK, PT, EL, MB) \
auto NAME##_gradients(const std::vector<PT>& p, size_t d, const PT& x) { auto m = MK(p); auto e = EL(m); auto b = MB; return b.grad(x); }
static G3 mk_tet(const std::vector<P3>& p) { return mk_g3(p, {{0,2,1},{0,1,3},{1,2,3},{0,3,2}}); }
#define SC make_scalar_monomial_basis(m, e, d)
#define SI make_scalar_monomial_basis(m, e, d, true)
#define VE make_vector_monomial_basis(m, e, d)
#define MA make_matrix_monomial_basis(m, e, d)
#define SY make_sym_matrix_monomial_basis(m, e, d)
#define LE make_scalar_legendre_basis(m, e, d)
#define VR make_vector_monomial_basis_RT(m, e, d)
#define MR make_matrix_monomial_basis_RT(m, e, d)
#define SR make_sym_matrix_monomial_basis_RT(m, e, d)
#define TA make_vector_monomial_tangential_basis<G3, G3::face>(m, e, d)
#define NE make_vector_monomial_nedelec_tangential_basis<G3, G3::face>(m, e, d)
#define HA(k) ([&](){ auto b = make_scalar_harmonic_top_basis(m, e, d); b.maximum_polynomial_degree(k); return b; }())
#define NB disk::basis::scaled_monomial_basis(m, e, d)
#define NBN disk::basis::scaled_monomial_basis(m, e, d, disk::basis::rescaling_strategy::none)
#define NBG disk::basis::scaled_monomial_basis(m, e, d, disk::basis::rescaling_strategy::gram_schmidt)
#define CE(NAME, MK, PT, MB) BASE(NAME, MK, PT, CELL, MB) EVAL(NAME, gradients, MK, PT, CELL, MB)
CE(sc1, mk_g1, P1, SC) BASE(sf1, mk_g1, P1, FACE, SC)
CE(sc2, mk_g2, P2, SC) CE(sc2i, mk_g2, P2, SI) BASE(sf2, mk_g2, P2, FACE, SC) EVAL(sc2, curls2, mk_g2, P2, CELL, SC)
CE(sc3, mk_tet, P3, SC) CE(sc3i, mk_tet, P3, SI) BASE(sf3, mk_tet, P3, FACE, SC)
CE(ss2, mk_s2, P2, SC) CE(ss3, mk_s3, P3, SC)
CE(le2, mk_c2, P2, LE) CE(le3, mk_c3, P3, LE) BASE(lf2, mk_c2, P2, FACE, LE) BASE(lf3, mk_c3, P3, FACE, LE)
CE(ve2, mk_g2, P2, VE) EVAL(ve2, sgradients, mk_g2, P2, CELL, VE) EVAL(ve2, curls, mk_g2, P2, CELL, VE) EVAL(ve2, divergences, mk_g2, P2, CELL, VE)
CE(ve3, mk_tet, P3, VE) EVAL(ve3, sgradients, mk_tet, P3, CELL, VE) EVAL(ve3, curls2, mk_tet, P3, CELL, VE) EVAL(ve3, divergences, mk_tet, P3, CELL, VE)
BASE(vf2, mk_g2, P2, FACE, VE) BASE(vf3, mk_tet, P3, FACE, VE)
BASE(ma2, mk_g2, P2, CELL, MA) BASE(ma3, mk_tet, P3, CELL, MA)
BASE(sy2, mk_g2, P2, CELL, SY) BASE(sy3, mk_tet, P3, CELL, SY)
BASE(vr2, mk_g2, P2, CELL, VR) BASE(vr3, mk_tet, P3, CELL, VR) EVAL(vr2, divergences, mk_g2, P2, CELL, VR) EVAL(vr3, divergences, mk_tet, P3, CELL, VR)
BASE(mr2, mk_g2, P2, CELL, MR) BASE(mr3, mk_tet, P3, CELL, MR)
BASE(sr2, mk_g2, P2, CELL, SR) BASE(sr3, mk_tet, P3, CELL, SR)
BASE(ta3, mk_tet, P3, FACE, TA) BASE(ne3, mk_tet, P3, FACE, NE)
CE(h20, mk_g2, P2, HA(0)) CE(h21, mk_g2, P2, HA(1)) CE(h22, mk_g2, P2, HA(2)) CE(h23, mk_g2, P2, HA(3))
CE(h30, mk_tet, P3, HA(0)) CE(h31, mk_tet, P3, HA(1)) CE(h32, mk_tet, P3, HA(2)) CE(h33, mk_tet, P3, HA(3))
NEWB(nc1, mk_g1, P1, CELL, NB) NEWG(nc1, mk_g1, P1, CELL, NB) NEWB(nf1, mk_g1, P1, FACE, NB)
NEWB(nc2, mk_g2, P2, CELL, NB) NEWG(nc2, mk_g2, P2, CELL, NB) NEWB(nc2n, mk_g2, P2, CELL, NBN) NEWG(nc2n, mk_g2, P2, CELL, NBN)
NEWB(nf2, mk_g2, P2, FACE, NB)
NEWB(nc3, mk_tet, P3, CELL, NB) NEWG(nc3, mk_tet, P3, CELL, NB) NEWB(nf3, mk_tet, P3, FACE, NB) NEWG(nf3, mk_tet, P3, FACE, NB)
auto leg_fun(size_t d, const T& x) { return legendre_1D<T>(d).eval_functions(x); }
auto leg_gradients(size_t d, const T& x) { return legendre_1D<T>(d).eval_gradients(x); }
size_t f_ssize(size_t k, size_t d) { return scalar_basis_size(k, d); }
size_t f_vsize(size_t k, size_t d, size_t v) { return vector_basis_size(k, d, v); }
size_t f_msize(size_t k, size_t d, size_t v) { return matrix_basis_size(k, d, v); }
size_t f_symsize(size_t k, size_t d, size_t v) { return sym_matrix_basis_size(k, d, v); }
size_t f_hsize(size_t k, size_t d) { return harmonic_basis_size(k, d); }

#define FP(K, MK, PT) auto fpts_##K(const std::vector<PT>& p) { auto m = MK(p); return points(m, FACE(m)); }
FP(sf1, mk_g1, P1) FP(sf2, mk_g2, P2) FP(sf3, mk_tet, P3) FP(lf2, mk_c2, P2) FP(lf3, mk_c3, P3) FP(nf1, mk_g1, P1) FP(nf2, mk_g2, P2) FP(nf3, mk_tet, P3)
FP(vf2, mk_g2, P2) FP(vf3, mk_tet, P3) FP(ta3, mk_tet, P3) FP(ne3, mk_tet, P3)
#define NBS ([&](){ auto b = disk::basis::scaled_monomial_basis(m, e, d); b.scalefactor(3.0); return b; }())
NEWB(nc1s, mk_g1, P1, CELL, NBS) NEWG(nc1s, mk_g1, P1, CELL, NBS)
static G3 mk_face(const std::vector<P3>& p) { std::vector<size_t> f; for (size_t i = 0; i < p.size(); i++) f.push_back(i); return mk_g3(p, {f}); }
BASE(pt3, mk_face, P3, FACE, TA) NEWB(pn3, mk_face, P3, FACE, NB)
