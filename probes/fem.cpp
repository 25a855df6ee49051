// conforming elements, discontinuous Galerkin assembly, discrete geometric approach, virtual elements
#include "meshes.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/methods/hho"
#include "diskpp/cfem/cfem.hpp"
#include "diskpp/methods/implementation_dg/assembler.hpp"
#include "diskpp/methods/implementation_dga/methods_dga.hpp"
#include "diskpp/methods/implementation_vem/methods_vem_2d.hpp"
#define CELL(m) *m.cells_begin()
using XM = dynamic_matrix<T>; using XV = dynamic_vector<T>;
using M22 = static_matrix<T,2,2>; using M33 = static_matrix<T,3,3>; using V3 = static_vector<T,3>;
static T pw(const T& x, size_t k) { T r = 1; for (size_t i = 0; i < k; i++) r = r * x; return r; }

// ---- conforming triangles
auto fe_phi(const std::vector<P2>& p, const P2& x) { auto m = mk_s2(p); return cfem::eval_basis(m, CELL(m), x); }
auto fe_dphi(const std::vector<P2>& p) { auto m = mk_s2(p); return cfem::eval_basis_grad(m, CELL(m)); }
auto fe_mass(const std::vector<P2>& p) { auto m = mk_s2(p); return cfem::mass_matrix(m, CELL(m)); }
auto fe_stiff(const std::vector<P2>& p) { auto m = mk_s2(p); return cfem::stiffness_matrix(m, CELL(m)); }
auto fe_stiffk(const std::vector<P2>& p, const M22& k) { auto m = mk_s2(p); return cfem::stiffness_matrix(m, CELL(m), k); }
auto fe_rhs(const std::vector<P2>& p, T a, T b, T c) { auto m = mk_s2(p); return cfem::make_rhs(m, CELL(m), [&](const P2& x) { return a + b * x.x() + c * x.y(); }); }
auto fe_meas(const std::vector<P2>& p) { auto m = mk_s2(p); return measure(m, CELL(m)); }

// ---- discontinuous Galerkin assembly
auto dg_asm(const std::vector<P2>& p, size_t n, const std::vector<std::vector<size_t>>& pairs, const std::vector<XM>& A, const std::vector<size_t>& cells, const std::vector<XM>& B, const std::vector<XV>& b)
{
    auto m = mk_star(p);
    auto as = make_discontinuous_galerkin_assembler(m, n);
    for (size_t i = 0; i < pairs.size(); i++)
        as.assemble(m, *std::next(m.cells_begin(), pairs[i][0]), *std::next(m.cells_begin(), pairs[i][1]), A[i]);
    for (size_t i = 0; i < cells.size(); i++)
        as.assemble(m, *std::next(m.cells_begin(), cells[i]), B[i], b[i]);
    as.finalize();
    return std::make_tuple(XM(as.LHS), XV(as.RHS), as.syssz);
}
auto dg_twice(const std::vector<P2>& p, size_t n, const XM& A, const XV& b)
{
    auto m = mk_star(p);
    auto as = make_discontinuous_galerkin_assembler(m, n);
    as.assemble(m, *m.cells_begin(), A, b);
    as.finalize();
    as.assemble(m, *std::next(m.cells_begin(), 1), A, b);
    as.finalize();
    return std::make_tuple(XM(as.LHS), XV(as.RHS), as.syssz);
}
auto dg_eig(const std::vector<P2>& p, size_t n, const std::vector<std::vector<size_t>>& pairs, const std::vector<XM>& A, const std::vector<size_t>& cells, const std::vector<XM>& B)
{
    auto m = mk_star(p);
    auto as = make_discontinuous_galerkin_eigenvalue_assembler(m, n);
    for (size_t i = 0; i < pairs.size(); i++)
        as.assemble(m, *std::next(m.cells_begin(), pairs[i][0]), *std::next(m.cells_begin(), pairs[i][1]), A[i]);
    for (size_t i = 0; i < cells.size(); i++)
        as.assemble(m, *std::next(m.cells_begin(), cells[i]), B[i]);
    as.finalize();
    return std::make_tuple(XM(as.gK), XM(as.gM), as.syssz);
}

auto dg_etwice(const std::vector<P2>& p, size_t n, const XM& A, const XM& B)
{
    auto m = mk_star(p);
    auto as = make_discontinuous_galerkin_eigenvalue_assembler(m, n);
    auto c1 = *std::next(m.cells_begin(), 1);
    as.assemble(m, *m.cells_begin(), c1, A); as.assemble(m, *m.cells_begin(), B);
    as.finalize();
    as.assemble(m, c1, *m.cells_begin(), A); as.assemble(m, c1, B);
    as.finalize();
    return std::make_tuple(XM(as.gK), XM(as.gM), as.syssz);
}

// ---- discrete geometric approach
#define TT auto m = mk_s3(p); auto cl = CELL(m);
auto dga_edges(const std::vector<P3>& p) { TT auto e = edges(m, cl); std::vector<std::vector<size_t>> r; for (auto& x : e) { auto i = x.point_ids(); r.push_back({size_t(i[0]), size_t(i[1])}); } return r; }
auto dga_fedges(const std::vector<P3>& p, size_t i) { TT auto f = faces(m, cl); auto e = edges(m, f[i]); std::vector<std::vector<size_t>> r; for (auto& x : e) { auto i = x.point_ids(); r.push_back({size_t(i[0]), size_t(i[1])}); } return r; }
auto dga_eids(const std::vector<P3>& p) { auto m = mk_two(p); return std::make_pair(edge_ids(m, *m.cells_begin()), edge_ids(m, *std::next(m.cells_begin()))); }
auto dga_feids(const std::vector<P3>& p, size_t i) { auto m = mk_two(p); return edge_ids(m, *std::next(m.faces_begin(), i)); }
auto dga_fpts(const std::vector<P3>& p, size_t i) { TT auto f = faces(m, cl); auto q = f[i].point_ids(); return std::vector<size_t>{q[0], q[1], q[2]}; }
auto dga_pev(const std::vector<P3>& p) { TT return primal_edge_vectors(m, cl); }
auto dga_pevf(const std::vector<P3>& p, size_t i) { TT auto f = faces(m, cl); return primal_edge_vectors(m, f[i]); }
auto dga_pav(const std::vector<P3>& p) { TT return primal_area_vectors(m, cl); }
auto dga_dev(const std::vector<P3>& p) { TT return dual_edge_vectors(m, cl); }
auto dga_devf(const std::vector<P3>& p, size_t i) { TT auto f = faces(m, cl); return dual_edge_vectors(m, f[i], cl); }
auto dga_dav(const std::vector<P3>& p) { TT return dual_area_vectors(m, cl); }
auto dga_ipe(const std::vector<P3>& p, const V3& u) { TT return integrate_on_primal_edges<T>(m, cl, u); }
auto dga_ipef(const std::vector<P3>& p, size_t i, const V3& u) { TT auto f = faces(m, cl); return integrate_on_primal_edges<T>(m, f[i], u); }
auto dga_ipf(const std::vector<P3>& p, const V3& u) { TT return integrate_on_primal_faces<T>(m, cl, u); }
auto dga_ide(const std::vector<P3>& p, const V3& u) { TT return integrate_on_dual_edges<T>(m, cl, u); }
auto dga_idf(const std::vector<P3>& p, const V3& u) { TT return integrate_on_dual_faces<T>(m, cl, u); }
auto dga_nrm(const std::vector<P3>& p) { TT return disk::priv::normals(m, cl); }
auto dga_nrmf(const std::vector<P3>& p, size_t i) { TT auto f = faces(m, cl); return disk::priv::normals(m, f[i]); }
auto dga_grad(const std::vector<P3>& p) { TT return grad_matrix(m, cl); }
auto dga_curl(const std::vector<P3>& p) { TT return curl_matrix(m, cl); }
auto dga_em(const std::vector<P3>& p, T k) { TT return edge_matrix(m, cl, k); }
auto dga_emt(const std::vector<P3>& p, const M33& k) { TT return edge_matrix(m, cl, k); }
auto dga_fm(const std::vector<P3>& p, T k) { TT return face_matrix(m, cl, k); }
auto dga_fmt(const std::vector<P3>& p, const M33& k) { TT return face_matrix(m, cl, k); }
T dga_vs(const std::vector<P3>& p) { TT return disk::priv::volume_signed(m, cl); }
T dga_vu(const std::vector<P3>& p) { TT return disk::priv::volume_unsigned(m, cl); }

// ---- virtual elements
#define VEM(K, MK) \
auto v_ccw_##K(const std::vector<P2>& p) { auto m = MK(p); std::vector<std::vector<size_t>> r; for (const auto& [fc, fl] : faces_ccw(m, CELL(m))) { auto q = fc.point_ids(); r.push_back({size_t(q[0]), size_t(q[1]), size_t(fl)}); } return r; } \
auto v_cb_##K(const std::vector<P2>& p, size_t d, const P2& x) { auto m = MK(p); return make_scalar_monomial_basis(m, CELL(m), d).eval_functions(x); } \
auto v_G_##K(const std::vector<P2>& p, size_t d) { auto m = MK(p); return vem_2d::matrix_G(m, CELL(m), d); } \
auto v_B_##K(const std::vector<P2>& p, size_t d) { auto m = MK(p); return vem_2d::matrix_B(m, CELL(m), d); } \
auto v_D_##K(const std::vector<P2>& p, size_t d) { auto m = MK(p); return vem_2d::matrix_D(m, CELL(m), d); } \
auto v_PN_##K(const std::vector<P2>& p, size_t d) { auto m = MK(p); return vem_2d::projector_nabla(m, CELL(m), d, vem_2d::matrix_G(m, CELL(m), d)); } \
auto v_P0_##K(const std::vector<P2>& p, size_t d) { auto m = MK(p); auto G = vem_2d::matrix_G(m, CELL(m), d); return vem_2d::projector_zero(m, CELL(m), d, d - 1, vem_2d::projector_nabla(m, CELL(m), d, G)); } \
auto v_loc_##K(const std::vector<P2>& p, size_t d, const std::vector<size_t>& e) { auto m = MK(p); return vem_2d::compute_local(m, CELL(m), d, [&](const P2& x) { return pw(x.x(), e[0]) * pw(x.y(), e[1]); }); }
VEM(t2, mk_s2)
VEM(q2, mk_c2)
VEM(p2, mk_g2)
auto v_map(const std::vector<P2>& p, size_t k)
{
    auto m = mk_star(p);
    boundary_descriptor bd(7, true); bd.is_internal(true); m.backend_storage()->boundary_info[2] = bd;      // an interface between subdomains
    dof_mapper<S2> dm(m, k);
    std::vector<std::vector<size_t>> f, c, b;
    for (size_t i = 0; i < m.faces_size(); i++) { f.push_back(dm.face_to_global(i)); b.push_back(dm.bnd_to_global(i)); }
    for (size_t i = 0; i < m.cells_size(); i++) c.push_back(dm.cell_to_global(i));
    return std::make_tuple(f, c, b);
}
auto v_schur(const XM& A, const XV& b, size_t n) { return vem::schur(A, b, n); }
auto v_deschur(const XM& A, const XV& b, const XV& s, size_t n) { return vem::deschur<T>(A, b, s, n); }
auto mkqp2(const P2& p, const T& w) { return make_qp(p, w); }
