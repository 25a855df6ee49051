#include "meshes.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/methods/hho"
#include <complex>
#include "diskpp/methods/implementation_hho/curl.hpp"
#define CELL(m) *m.cells_begin()
using XM = dynamic_matrix<T>; using XV = dynamic_vector<T>;
static G3 mk_tet(const std::vector<P3>& p) { return mk_g3(p, {{0,2,1},{0,1,3},{1,2,3},{0,3,2}}); }
auto mkqp2(const P2& p, const T& w) { return make_qp(p, w); }
auto mkqp3(const P3& p, const T& w) { return make_qp(p, w); }
static hho_degree_info HDR(size_t cd, size_t fd, size_t rd) { hho_degree_info h(cd, fd); h.reconstruction_degree(rd); return h; }
static T pw(const T& x, size_t k) { T r = 1; for (size_t i = 0; i < k; i++) r = r * x; return r; }
static T mon(const P3& x, const std::vector<size_t>& e) { return pw(x.x(), e[0]) * pw(x.y(), e[1]) * pw(x.z(), e[2]); }
#define VF(e, q) [&](const P3& x) { static_vector<T, 3> r = static_vector<T, 3>::Zero(); r(q) = mon(x, e); return r; }
#define M_ auto m = MK_(p); auto cl = CELL(m);
#define COMMON(K, PT) \
auto cb_##K(const std::vector<PT>& p, size_t d, const PT& x) { M_ return make_scalar_monomial_basis(m, cl, d).eval_functions(x); } \
auto fb_##K(const std::vector<PT>& p, size_t i, size_t d, const PT& x) { M_ auto f = faces(m, cl); return make_scalar_monomial_basis(m, f[i], d).eval_functions(x); } \
auto fpts_##K(const std::vector<PT>& p, size_t i) { M_ auto f = faces(m, cl); return points(m, f[i]); } \
size_t nf_##K(const std::vector<PT>& p) { M_ return faces(m, cl).size(); } \
auto rec_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t rd) { M_ return curl_reconstruction(m, cl, HDR(cd, fd, rd)); } \
auto hdg_##K(const std::vector<PT>& p, size_t cd, size_t fd) { M_ return curl_hdg_stabilization(m, cl, HDR(cd, fd, fd + 1)); }
#define MK_ mk_s2
COMMON(t2, P2)
#undef MK_
#define MK_ mk_g2
COMMON(p2, P2)
#undef MK_
#define MK_ mk_tet
COMMON(t3, P3)
auto vcb_t3(const std::vector<P3>& p, size_t d, const P3& x) { M_ return make_vector_monomial_basis(m, cl, d).eval_functions(x); }
auto tfb_t3(const std::vector<P3>& p, size_t i, size_t d, const P3& x) { M_ auto f = faces(m, cl); return make_vector_monomial_tangential_basis(m, f[i], d).eval_functions(x); }
auto nfb_t3(const std::vector<P3>& p, size_t i, size_t d, const P3& x) { M_ auto f = faces(m, cl); return make_vector_monomial_nedelec_tangential_basis(m, f[i], d).eval_functions(x); }
auto pk_t3(const std::vector<P3>& p, size_t cd, size_t fd, size_t rd) { M_ return curl_reconstruction_pk(m, cl, HDR(cd, fd, rd)); }
auto ned_t3(const std::vector<P3>& p, size_t cd, size_t fd, size_t rd) { M_ return curl_reconstruction_nedelec(m, cl, HDR(cd, fd, rd)); }
auto hdgn_t3(const std::vector<P3>& p, size_t cd, size_t fd) { M_ return curl_hdg_stabilization_nedelec(m, cl, HDR(cd, fd, fd + 1)); }
auto zst_t3(const std::vector<P3>& p, size_t cd, size_t fd, T mur, T jw, T z) { M_ return curl_Z_stabilization(m, cl, HDR(cd, fd, fd + 1), mur, jw, z); }
auto hst_t3(const std::vector<P3>& p, size_t cd, size_t fd, const XM& R) { M_ return curl_hho_stabilization(m, cl, R, HDR(cd, fd, fd + 1)); }
auto mass_t3(const std::vector<P3>& p, size_t cd, size_t fd) { M_ return make_vector_mass_oper(m, cl, HDR(cd, fd, fd + 1)); }
auto cc_t3(const std::vector<P3>& p, size_t d) { M_ return make_curl_curl_matrix(m, cl, make_vector_monomial_basis(m, cl, d)); }
auto impf_t3(const std::vector<P3>& p, size_t i, size_t d) { M_ auto f = faces(m, cl); return make_impedance_term(m, f[i], d); }
auto pwf_t3(const std::vector<P3>& p, size_t i, size_t d, const std::vector<size_t>& e, size_t q) { M_ auto f = faces(m, cl); return make_plane_wave_term(m, f[i], d, VF(e, q)); }
auto imp_t3(const std::vector<P3>& p, size_t cd, size_t fd, size_t id, T z) { M_ auto s = m.backend_storage(); auto f = faces(m, cl);
    for (size_t i = 0; i < 4; i++) s->boundary_info.at(offset(m, f[i])) = boundary_descriptor(i / 2 + 5, i != 3);
    return make_impedance_term(m, cl, HDR(cd, fd, fd + 1), id, z); }
auto pt_t3(const std::vector<P3>& p, size_t cd, size_t fd, const std::vector<size_t>& e, size_t q, size_t di) { M_ vector_rhs_function<decltype(m)> f = VF(e, q); return project_tangent(m, cl, HDR(cd, fd, fd + 1), f, di); }
auto ptn_t3(const std::vector<P3>& p, size_t cd, size_t fd, const std::vector<size_t>& e, size_t q, size_t di) { M_ vector_rhs_function<decltype(m)> f = VF(e, q); return project_tangent_nedelec(m, cl, HDR(cd, fd, fd + 1), f, di); }
auto ptf_t3(const std::vector<P3>& p, size_t i, size_t d, const std::vector<size_t>& e, size_t q, size_t di) { M_ auto F = faces(m, cl); vector_rhs_function<decltype(m)> f = VF(e, q); return project_tangent(m, F[i], d, f, di); }
auto mprj_t3(const std::vector<P3>& p, size_t cd, size_t fd, const std::vector<size_t>& e, size_t q) { M_ return maxwell_prj(m, cl, HDR(cd, fd, fd + 1), [&](const P3& x) { Matrix<std::complex<double>, 3, 1> r = Matrix<std::complex<double>, 3, 1>::Zero(); r(q) = mon(x, e); return r; }); }
auto cond(const XM& A, const XV& b, size_t n) { return disk::static_condensation(A, b, n); }
auto condm(const XM& A, size_t n) { return disk::static_condensation(A, n); }
auto decond(const XM& A, const XV& b, const XV& u) { return disk::static_decondensation(A, b, u); }
auto decondm(const XM& A, const XM& u) { return disk::static_decondensation(A, u); }
auto nxv3(const static_vector<T,3>& n, const Matrix<T, Dynamic, 3>& f) { return disk::vcross(n, f); }
auto vxn3(const Matrix<T, Dynamic, 3>& f, const static_vector<T,3>& n) { return disk::vcross(f, n); }
auto nxv2(const static_vector<T,2>& n, const Matrix<T, Dynamic, 2>& f) { return disk::vcross(n, f); }
auto vxn2(const Matrix<T, Dynamic, 2>& f, const static_vector<T,2>& n) { return disk::vcross(f, n); }
