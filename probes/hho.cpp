#include "meshes.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/bases/bases_new.hpp"
#include "diskpp/methods/hho"
#include "diskpp/methods/hho_slapl.hpp"
namespace sl = disk::hho::slapl;
#define CELL(m) *m.cells_begin()
using DM = dynamic_matrix<T>; using DV = dynamic_vector<T>;
static G3 mk_tet(const std::vector<P3>& p) { return mk_g3(p, {{0,2,1},{0,1,3},{1,2,3},{0,3,2}}); }
auto mkqp1(const P1& p, const T& w) { return make_qp(p, w); }
auto mkqp2(const P2& p, const T& w) { return make_qp(p, w); }
auto mkqp3(const P3& p, const T& w) { return make_qp(p, w); }
static hho_degree_info HDI(size_t cd, size_t fd) { hho_degree_info h(cd, fd); return h; }
static hho_degree_info HDG(size_t cd, size_t fd, size_t gd) { hho_degree_info h(cd, fd, gd); return h; }
static hho_degree_info HDR(size_t cd, size_t fd, size_t rd) { hho_degree_info h(cd, fd); h.reconstruction_degree(rd); return h; }
// degrees cd, fd, gd everywhere except face i0, which gets degree d0
template<typename M> MeshDegreeInfo<M> MDI(const M& m, size_t cd, size_t fd, size_t gd, size_t i0, size_t d0)
{ MeshDegreeInfo<M> md(m, cd, fd, gd); auto cl = *m.cells_begin(); auto f = faces(m, cl); md.degree(m, f[i0], d0); return md; }
template<typename M, typename E> auto nbs(const M& m, const E& e, size_t d)
{ return disk::basis::scaled_monomial_basis(m, e, d); }
static T pw(const T& x, size_t k) { T r = 1; for (size_t i = 0; i < k; i++) r = r * x; return r; }
static T mon(const P2& x, const std::vector<size_t>& e) { return pw(x.x(), e[0]) * pw(x.y(), e[1]); }
static T mon(const P3& x, const std::vector<size_t>& e) { return pw(x.x(), e[0]) * pw(x.y(), e[1]) * pw(x.z(), e[2]); }
#define M_ auto m = MK_(p); auto cl = CELL(m);
#define PROBES(K, PT, DIM) \
auto cb_##K(const std::vector<PT>& p, size_t d, const PT& x) { M_ return make_scalar_monomial_basis(m, cl, d).eval_functions(x); } \
auto hb_##K(const std::vector<PT>& p, size_t d, size_t t, const PT& x) { M_ auto b = make_scalar_harmonic_top_basis(m, cl, d); b.maximum_polynomial_degree(t); return b.eval_functions(x); } \
auto fb_##K(const std::vector<PT>& p, size_t i, size_t d, const PT& x) { M_ auto f = faces(m, cl); return make_scalar_monomial_basis(m, f[i], d).eval_functions(x); } \
auto vcb_##K(const std::vector<PT>& p, size_t d, const PT& x) { M_ return make_vector_monomial_basis(m, cl, d).eval_functions(x); } \
auto vfb_##K(const std::vector<PT>& p, size_t i, size_t d, const PT& x) { M_ auto f = faces(m, cl); return make_vector_monomial_basis(m, f[i], d).eval_functions(x); } \
auto rtb_##K(const std::vector<PT>& p, size_t d, const PT& x) { M_ return make_vector_monomial_basis_RT(m, cl, d).eval_functions(x); } \
auto mb_##K(const std::vector<PT>& p, size_t d, const PT& x) { M_ return make_matrix_monomial_basis(m, cl, d).eval_functions(x); } \
auto smb_##K(const std::vector<PT>& p, size_t d, const PT& x) { M_ return make_sym_matrix_monomial_basis(m, cl, d).eval_functions(x); } \
auto smrtb_##K(const std::vector<PT>& p, size_t d, const PT& x) { M_ return make_sym_matrix_monomial_basis_RT(m, cl, d).eval_functions(x); } \
auto fpts_##K(const std::vector<PT>& p, size_t i) { M_ auto f = faces(m, cl); return points(m, f[i]); } \
size_t nf_##K(const std::vector<PT>& p) { M_ return faces(m, cl).size(); } \
/* reconstructions */ \
auto lap_##K(const std::vector<PT>& p, size_t cd, size_t fd) { M_ return make_scalar_hho_laplacian(m, cl, HDI(cd, fd)); } \
auto lapk_##K(const std::vector<PT>& p, size_t cd, size_t fd, const static_matrix<T,DIM,DIM>& k) { M_ return make_scalar_hho_laplacian(m, cl, HDI(cd, fd), k); } \
auto lapf_##K(const std::vector<PT>& p, size_t cd, size_t fd) { M_ return make_shl_face_proj(m, cl, HDI(cd, fd)); } \
auto lapfk_##K(const std::vector<PT>& p, size_t cd, size_t fd, const static_matrix<T,DIM,DIM>& k) { M_ return make_shl_face_proj(m, cl, HDI(cd, fd), k); } \
auto lapc_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t i0, size_t d0) { M_ return make_scalar_hho_laplacian(m, cl, MDI(m, cd, fd, fd, i0, d0)); } \
auto lapr_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t rd) { M_ return make_scalar_hho_laplacian(m, cl, HDR(cd, fd, rd)); } \
auto laph_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t rd) { M_ return make_shl_harmonic(m, cl, HDR(cd, fd, rd)); } \
auto lapfh_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t rd) { M_ return make_shl_face_proj_harmonic(m, cl, HDR(cd, fd, rd)); } \
auto sfl_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t rd, const static_matrix<T,DIM,DIM>& k) { M_ return make_sfl(m, cl, HDR(cd, fd, rd), k); } \
auto vg_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t gd) { M_ return make_vector_hho_gradrec(m, cl, HDG(cd, fd, gd)); } \
auto vgc_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t gd, size_t i0, size_t d0) { M_ return make_vector_hho_gradrec(m, cl, MDI(m, cd, fd, gd, i0, d0)); } \
auto vgk_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t gd, const static_matrix<T,DIM,DIM>& k) { M_ auto kf = [&](const PT&) { return k; }; return make_vector_hho_gradrec(m, cl, HDG(cd, fd, gd), kf); } \
auto vgkc_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t gd, size_t i0, size_t d0, const static_matrix<T,DIM,DIM>& k) { M_ auto kf = [&](const PT&) { return k; }; return make_vector_hho_gradrec(m, cl, MDI(m, cd, fd, gd, i0, d0), kf); } \
auto vgrt_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t gd) { M_ return priv::make_vector_hho_gradrec_impl(m, cl, CellDegreeInfo<decltype(m)>(m, cl, cd, fd, gd), make_vector_monomial_basis_RT(m, cl, gd)); } \
auto vl_##K(const std::vector<PT>& p, size_t cd, size_t fd) { M_ return make_vector_hho_laplacian(m, cl, HDI(cd, fd)); } \
auto vlc_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t i0, size_t d0) { M_ return make_vector_hho_laplacian(m, cl, MDI(m, cd, fd, fd, i0, d0)); } \
auto vsl_##K(const std::vector<PT>& p, size_t cd, size_t fd) { M_ return make_vector_hho_symmetric_laplacian(m, cl, HDI(cd, fd)); } \
auto vslc_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t i0, size_t d0) { M_ return make_vector_hho_symmetric_laplacian(m, cl, MDI(m, cd, fd, fd, i0, d0)); } \
auto mg_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t gd) { M_ return make_matrix_hho_gradrec(m, cl, HDG(cd, fd, gd)); } \
auto mgc_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t gd, size_t i0, size_t d0) { M_ return make_matrix_hho_gradrec(m, cl, MDI(m, cd, fd, gd, i0, d0)); } \
auto msg_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t gd) { M_ return make_matrix_hho_symmetric_gradrec(m, cl, HDG(cd, fd, gd)); } \
auto msgc_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t gd, size_t i0, size_t d0) { M_ return make_matrix_hho_symmetric_gradrec(m, cl, MDI(m, cd, fd, gd, i0, d0)); } \
auto msgrt_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t gd) { M_ return make_matrix_hho_symmetric_gradrec_RT(m, cl, HDG(cd, fd, gd)); } \
auto div_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t gd) { M_ return make_hho_divergence_reconstruction(m, cl, HDG(cd, fd, gd)); } \
auto divc_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t gd, size_t i0, size_t d0) { M_ return make_hho_divergence_reconstruction(m, cl, MDI(m, cd, fd, gd, i0, d0)); } \
auto divrhs_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t gd) { M_ return make_hho_divergence_reconstruction_rhs(m, cl, HDG(cd, fd, gd)); } \
/* stabilisations */ \
auto stab_##K(const std::vector<PT>& p, size_t cd, size_t fd) { M_ auto h = HDI(cd, fd); auto r = make_scalar_hho_laplacian(m, cl, h); return make_scalar_hho_stabilization(m, cl, r.first, h); } \
auto stabf_##K(const std::vector<PT>& p, size_t cd, size_t fd, bool hF) { M_ auto h = HDI(cd, fd); auto r = make_scalar_hho_laplacian(m, cl, h); return make_scalar_hho_stabilization(m, cl, r.first, h, hF); } \
auto stabm_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t i0, size_t d0, bool hF) { M_ auto h = MDI(m, cd, fd, fd, i0, d0); auto r = make_scalar_hho_laplacian(m, cl, h); return make_scalar_hho_stabilization(m, cl, r.first, h, hF); } \
auto stabc_##K(const std::vector<PT>& p, size_t cd, size_t fd, bool hF) { M_ CellDegreeInfo<decltype(m)> h(m, cl, cd, fd, fd); auto r = make_scalar_hho_laplacian(m, cl, h); return make_scalar_hho_stabilization(m, cl, r.first, h, hF); } \
auto stabk_##K(const std::vector<PT>& p, size_t cd, size_t fd, const static_matrix<T,DIM,DIM>& k) { M_ auto h = HDI(cd, fd); auto r = make_scalar_hho_laplacian(m, cl, h, k); return make_scalar_hho_stabilization2(m, cl, r.first, h, k); } \
auto hdg_##K(const std::vector<PT>& p, size_t cd, size_t fd, bool hF) { M_ return make_scalar_hdg_stabilization(m, cl, HDI(cd, fd), hF); } \
auto hdgm_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t i0, size_t d0, bool hF) { M_ return make_scalar_hdg_stabilization(m, cl, MDI(m, cd, fd, fd, i0, d0), hF); } \
auto hdgk_##K(const std::vector<PT>& p, size_t cd, size_t fd, const static_matrix<T,DIM,DIM>& k) { M_ return make_scalar_hdg_stabilization2(m, cl, HDI(cd, fd), k); } \
auto dg_##K(const std::vector<PT>& p, size_t cd, size_t fd, bool hF) { M_ return make_scalar_dg_stabilization(m, cl, HDI(cd, fd), hF); } \
auto dgm_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t i0, size_t d0, bool hF) { M_ return make_scalar_dg_stabilization(m, cl, MDI(m, cd, fd, fd, i0, d0), hF); } \
auto vstab_##K(const std::vector<PT>& p, size_t cd, size_t fd, bool hF) { M_ auto h = HDI(cd, fd); auto r = make_vector_hho_laplacian(m, cl, h); return make_vector_hho_stabilization(m, cl, r.first, h, hF); } \
auto vsstab_##K(const std::vector<PT>& p, size_t cd, size_t fd, bool hF) { M_ auto h = HDI(cd, fd); auto r = make_vector_hho_symmetric_laplacian(m, cl, h); return make_vector_hho_stabilization(m, cl, r.first, h, hF); } \
auto vstabm_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t i0, size_t d0, bool hF) { M_ auto h = MDI(m, cd, fd, fd, i0, d0); auto r = make_vector_hho_laplacian(m, cl, h); return make_vector_hho_stabilization(m, cl, r.first, h, hF); } \
auto vstabo_##K(const std::vector<PT>& p, size_t cd, size_t fd, bool hF) { M_ auto h = HDI(cd, fd); auto r = make_scalar_hho_laplacian(m, cl, h); return make_vector_hho_stabilization_optim(m, cl, r.first, h, hF); } \
auto vhdg_##K(const std::vector<PT>& p, size_t cd, size_t fd, bool hF) { M_ return make_vector_hdg_stabilization(m, cl, HDI(cd, fd), hF); } \
auto vdg_##K(const std::vector<PT>& p, size_t cd, size_t fd, bool hF) { M_ return make_vector_dg_stabilization(m, cl, HDI(cd, fd), hF); } \
/* masses, right-hand sides, projections */ \
auto mass_##K(const std::vector<PT>& p, size_t d) { M_ return make_mass_matrix(m, cl, make_scalar_monomial_basis(m, cl, d)); } \
auto massf_##K(const std::vector<PT>& p, size_t i, size_t d) { M_ auto f = faces(m, cl); return make_mass_matrix(m, f[i], make_scalar_monomial_basis(m, f[i], d)); } \
auto vmass_##K(const std::vector<PT>& p, size_t d) { M_ return make_mass_matrix(m, cl, make_vector_monomial_basis(m, cl, d)); } \
auto vmassf_##K(const std::vector<PT>& p, size_t i, size_t d) { M_ auto f = faces(m, cl); return make_mass_matrix(m, f[i], make_vector_monomial_basis(m, f[i], d)); } \
auto mmass_##K(const std::vector<PT>& p, size_t d) { M_ return make_mass_matrix(m, cl, make_matrix_monomial_basis(m, cl, d)); } \
auto smmass_##K(const std::vector<PT>& p, size_t d) { M_ return make_mass_matrix(m, cl, make_sym_matrix_monomial_basis(m, cl, d)); } \
auto rtmass_##K(const std::vector<PT>& p, size_t d) { M_ return make_mass_matrix(m, cl, make_vector_monomial_basis_RT(m, cl, d)); } \
/* right-hand sides and projections of the monomial x^a y^b z^c (component q of a vector) */ \
auto rhs_##K(const std::vector<PT>& p, size_t d, const std::vector<size_t>& e, size_t di) { M_ auto f = [&](const PT& x) -> T { return mon(x, e); }; return make_rhs(m, cl, make_scalar_monomial_basis(m, cl, d), f, di); } \
auto rhsf_##K(const std::vector<PT>& p, size_t i, size_t d, const std::vector<size_t>& e, size_t di) { M_ auto F = faces(m, cl); auto f = [&](const PT& x) -> T { return mon(x, e); }; return make_rhs(m, F[i], make_scalar_monomial_basis(m, F[i], d), f, di); } \
auto vrhs_##K(const std::vector<PT>& p, size_t d, const std::vector<size_t>& e, size_t q, size_t di) { M_ auto f = [&](const PT& x) { static_vector<T, DIM> r = static_vector<T, DIM>::Zero(); r(q) = mon(x, e); return r; }; return make_rhs(m, cl, make_vector_monomial_basis(m, cl, d), f, di); } \
auto vrhsf_##K(const std::vector<PT>& p, size_t i, size_t d, const std::vector<size_t>& e, size_t q, size_t di) { M_ auto F = faces(m, cl); auto f = [&](const PT& x) { static_vector<T, DIM> r = static_vector<T, DIM>::Zero(); r(q) = mon(x, e); return r; }; return make_rhs(m, F[i], make_vector_monomial_basis(m, F[i], d), f, di); } \
auto proj_##K(const std::vector<PT>& p, size_t d, const std::vector<size_t>& e, size_t di) { M_ scalar_rhs_function<decltype(m)> f = [&](const PT& x) -> T { return mon(x, e); }; return project_function(m, cl, d, f, di); } \
auto projb_##K(const std::vector<PT>& p, size_t d, const std::vector<size_t>& e, size_t di) { M_ scalar_rhs_function<decltype(m)> f = [&](const PT& x) -> T { return mon(x, e); }; auto b = make_scalar_monomial_basis(m, cl, d); return project_function(m, cl, b, f, di); } \
auto vproj_##K(const std::vector<PT>& p, size_t d, const std::vector<size_t>& e, size_t q, size_t di) { M_ vector_rhs_function<decltype(m)> f = [&](const PT& x) { static_vector<T, DIM> r = static_vector<T, DIM>::Zero(); r(q) = mon(x, e); return r; }; return project_function(m, cl, d, f, di); } \
auto vprojb_##K(const std::vector<PT>& p, size_t d, const std::vector<size_t>& e, size_t q, size_t di) { M_ vector_rhs_function<decltype(m)> f = [&](const PT& x) { static_vector<T, DIM> r = static_vector<T, DIM>::Zero(); r(q) = mon(x, e); return r; }; auto b = make_vector_monomial_basis(m, cl, d); return project_function(m, cl, b, f, di); } \
auto projh_##K(const std::vector<PT>& p, size_t cd, size_t fd, const std::vector<size_t>& e, size_t di) { M_ scalar_rhs_function<decltype(m)> f = [&](const PT& x) -> T { return mon(x, e); }; return project_function(m, cl, HDI(cd, fd), f, di); } \
auto projm_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t i0, size_t d0, const std::vector<size_t>& e, size_t di) { M_ scalar_rhs_function<decltype(m)> f = [&](const PT& x) -> T { return mon(x, e); }; return project_function(m, cl, MDI(m, cd, fd, fd, i0, d0), f, di); } \
auto vprojh_##K(const std::vector<PT>& p, size_t cd, size_t fd, const std::vector<size_t>& e, size_t q, size_t di) { M_ vector_rhs_function<decltype(m)> f = [&](const PT& x) { static_vector<T, DIM> r = static_vector<T, DIM>::Zero(); r(q) = mon(x, e); return r; }; return project_function(m, cl, HDI(cd, fd), f, di); } \
auto vprojm_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t i0, size_t d0, const std::vector<size_t>& e, size_t q, size_t di) { M_ vector_rhs_function<decltype(m)> f = [&](const PT& x) { static_vector<T, DIM> r = static_vector<T, DIM>::Zero(); r(q) = mon(x, e); return r; }; return project_function(m, cl, MDI(m, cd, fd, fd, i0, d0), f, di); } \
/* scalar HHO on the newer basis interface */ \
auto slc_##K(const std::vector<PT>& p, size_t d, const PT& x) { M_ typename sl::hho_space<decltype(m)>::cell_basis_type b(m, cl, d); return b(x); } \
auto slf_##K(const std::vector<PT>& p, size_t i, size_t d, const PT& x) { M_ auto F = faces(m, cl); typename sl::hho_space<decltype(m)>::face_basis_type b(m, F[i], d); return b(x); } \
auto slop_##K(const std::vector<PT>& p, size_t cd, size_t fd) { M_ return sl::local_operator(m, cl, sl::degree_info(cd, fd)); } \
auto slst_##K(const std::vector<PT>& p, size_t cd, size_t fd) { M_ sl::degree_info di(cd, fd); auto r = sl::local_operator(m, cl, di); return sl::local_stabilization(m, cl, di, r.first); } \
auto slhdg_##K(const std::vector<PT>& p, size_t cd, size_t fd) { M_ return sl::local_stabilization_hdg(m, cl, sl::degree_info(cd, fd)); } \
auto slred_##K(const std::vector<PT>& p, size_t cd, size_t fd, const std::vector<size_t>& e) { M_ auto f = [&](const PT& x) -> T { return mon(x, e); }; return sl::local_reduction(m, cl, sl::degree_info(cd, fd), f); } \
auto sldim_##K(const std::vector<PT>& p, size_t cd, size_t fd) { M_ auto [t, f, r] = sl::space_dimensions<sl::hho_space<decltype(m)>>(sl::degree_info(cd, fd)); sl::degree_info a, b(cd); return std::vector<size_t>{t, f, r, a.cell, a.face, a.reco, b.cell, b.face, b.reco}; } \
/* the newer basis:: interface */ \
auto nb_##K(const std::vector<PT>& p, size_t d, const PT& x) { M_ return nbs(m, cl, d)(x); } \
auto nfb_##K(const std::vector<PT>& p, size_t i, size_t d, const PT& x) { M_ auto F = faces(m, cl); return nbs(m, F[i], d)(x); } \
auto nlhs_##K(const std::vector<PT>& p, size_t d, size_t t) { M_ auto a = nbs(m, cl, d); auto b = nbs(m, cl, t); return disk::basis::integrate(m, cl, a, b); } \
auto nlhsf_##K(const std::vector<PT>& p, size_t i, size_t d, size_t t) { M_ auto F = faces(m, cl); auto a = nbs(m, cl, d); auto b = nbs(m, F[i], t); return disk::basis::integrate(m, F[i], a, b); } \
auto nrhs_##K(const std::vector<PT>& p, size_t d, const std::vector<size_t>& e) { M_ auto b = nbs(m, cl, d); disk::basis::fun<decltype(b)> f = [&](const PT& x) -> T { return mon(x, e); }; return disk::basis::integrate(m, cl, f, b); } \
auto nl2_##K(const std::vector<PT>& p, size_t d, const std::vector<size_t>& e) { M_ auto b = nbs(m, cl, d); disk::basis::L2_projector<decltype(b)> P(m, cl, b); return P([&](const PT& x) -> T { return mon(x, e); }); } \
auto nl2b_##K(const std::vector<PT>& p, size_t d, size_t t) { M_ auto b = nbs(m, cl, d); auto o = nbs(m, cl, t); disk::basis::L2_projector<decltype(b)> P(m, cl, b); return P.basis(o); } \
auto stiff_##K(const std::vector<PT>& p, size_t d) { M_ return make_stiffness_matrix(m, cl, make_scalar_monomial_basis(m, cl, d)); }
#define MK_ mk_s2
PROBES(t2, P2, 2)
#undef MK_
#define MK_ mk_g2
PROBES(p2, P2, 2)
#undef MK_
#define MK_ mk_tet
PROBES(t3, P3, 3)
