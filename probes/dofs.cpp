// degree bookkeeping and static condensation of the HHO method
#include "meshes.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/bases/bases_new.hpp"
#include "diskpp/methods/hho"
#include "diskpp/methods/hho_assemblers.hpp"
#include "diskpp/methods/implementation_vem/methods_vem_2d.hpp"
#define CELL(m) *m.cells_begin()
using XM = dynamic_matrix<T>; using XV = dynamic_vector<T>;
using SV = std::vector<size_t>;
static G3 mk_tet(const std::vector<P3>& p) { return mk_g3(p, {{0,2,1},{0,1,3},{1,2,3},{0,3,2}}); }
static SV four(const hho_degree_info& h) { return SV{ h.cell_degree(), h.face_degree(), h.grad_degree(), h.reconstruction_degree() }; }
// ---- hho_degree_info
SV hdi0() { return four(hho_degree_info()); }
SV hdi1(size_t k) { return four(hho_degree_info(k)); }
SV hdi2(size_t cd, size_t fd) { return four(hho_degree_info(cd, fd)); }
SV hdi3(size_t cd, size_t fd, size_t gd) { return four(hho_degree_info(cd, fd, gd)); }
SV hdin(size_t rd, size_t cd, size_t fd) { return four(hho_degree_info(disk::priv::hdi_named_args{ rd, cd, fd })); }
SV hdis(size_t which, size_t k) { hho_degree_info h(5, 6, 7); if (which == 0) h.cell_degree(k); else if (which == 1) h.face_degree(k); else h.reconstruction_degree(k); return four(h); }
// ---- per-mesh degrees
template<typename M> SV dump(const M& m, const CellDegreeInfo<M>& c)
{
    SV r{ c.cell_degree(), c.grad_degree(), c.reconstruction_degree(), c.cell_hasUnknowns(), c.cellDegreeInfo().degree(), c.gradientDegreeInfo().degree(), c.reconstructionDegreeInfo().degree() };
    for (auto& f : c.facesDegreeInfo()) { r.push_back(f.degree()); r.push_back(f.hasUnknowns()); }
    return r;
}
template<typename M> SV dump(const M& m, const MeshDegreeInfo<M>& h)
{
    SV r;
    for (auto& c : m) { auto d = dump(m, h.cellDegreeInfo(m, c)); r.insert(r.end(), d.begin(), d.end()); r.push_back(h.degree(m, c)); r.push_back(h.hasUnknowns(m, c)); r.push_back(h.degreeInfo(m, c).degree()); }
    for (auto itor = m.faces_begin(); itor != m.faces_end(); itor++) { auto f = *itor; r.push_back(h.degree(m, f)); r.push_back(h.hasUnknowns(m, f)); r.push_back(h.degreeInfo(m, f).degree()); }
    for (auto& d : h.cells_degree()) r.push_back(d.degree());
    for (auto& d : h.faces_degree()) r.push_back(d.degree());
    return r;
}
template<typename M> void setf(const M& m, MeshDegreeInfo<M>& h, const SV& df, const SV& un)
{ auto f = faces(m, CELL(m)); for (size_t i = 0; i < f.size(); i++) h.degreeInfo(m, f[i], DegreeInfo(un[i] != 0, df[i])); }
#define M_ auto m = MK_(p); auto cl = CELL(m);
#define PROBES(K, PT, DIM) \
SV cdi1_##K(const std::vector<PT>& p, size_t k) { M_ return dump(m, CellDegreeInfo<decltype(m)>(m, cl, k)); } \
SV cdi2_##K(const std::vector<PT>& p, size_t cd, size_t fd) { M_ return dump(m, CellDegreeInfo<decltype(m)>(m, cl, cd, fd)); } \
SV cdi3_##K(const std::vector<PT>& p, size_t cd, size_t fd, size_t gd) { M_ return dump(m, CellDegreeInfo<decltype(m)>(m, cl, cd, fd, gd)); } \
SV cdi4_##K(const std::vector<PT>& p, size_t cd, size_t rd, size_t gd, const SV& df, const SV& un) { M_ std::vector<DegreeInfo> v; for (size_t i = 0; i < df.size(); i++) v.push_back(DegreeInfo(un[i] != 0, df[i])); return dump(m, CellDegreeInfo<decltype(m)>(cd, rd, gd, v)); } \
SV cdi5_##K(const std::vector<PT>& p, size_t cd, size_t rd, size_t gd, const SV& df, const SV& un) { M_ std::vector<DegreeInfo> v; for (size_t i = 0; i < df.size(); i++) v.push_back(DegreeInfo(un[i] != 0, df[i])); return dump(m, CellDegreeInfo<decltype(m)>(DegreeInfo(cd), DegreeInfo(rd), DegreeInfo(gd), v)); } \
SV sdofs_##K(const std::vector<PT>& p, const SV& df, const SV& un) { M_ MeshDegreeInfo<decltype(m)> h(m, 1); setf(m, h, df, un); \
    SV r = scalar_faces_offset(m, cl, h); r.push_back(scalar_faces_dofs(m, cl, h)); r.push_back(scalar_faces_dofs(m, h.cellDegreeInfo(m, cl).facesDegreeInfo())); \
    for (auto& d : h.cellDegreeInfo(m, cl).facesDegreeInfo()) r.push_back(scalar_face_dofs(m, d)); return r; } \
SV vdofs_##K(const std::vector<PT>& p, const SV& df, const SV& un) { M_ MeshDegreeInfo<decltype(m)> h(m, 1); setf(m, h, df, un); \
    SV r = vector_faces_offset(m, cl, h); r.push_back(vector_faces_dofs(m, cl, h)); r.push_back(vector_faces_dofs(m, h.cellDegreeInfo(m, cl).facesDegreeInfo())); \
    for (auto& d : h.cellDegreeInfo(m, cl).facesDegreeInfo()) r.push_back(vector_face_dofs(m, d)); return r; } \
size_t sdiff_##K(const std::vector<PT>& p, size_t cd, const SV& df, const SV& un) { M_ MeshDegreeInfo<decltype(m)> h(m, cd, 1); setf(m, h, df, un); return scalar_diff_dofs(m, h.cellDegreeInfo(m, cl)); } \
/* vector operators from scalar ones */ \
XM clv_##K(const std::vector<PT>& p, size_t cd, const SV& df, const SV& un, const XM& A) { M_ MeshDegreeInfo<decltype(m)> h(m, cd, 1); setf(m, h, df, un); return priv::compute_lhs_vector(m, cl, h.cellDegreeInfo(m, cl), A); } \
XM clvh_##K(const std::vector<PT>& p, size_t cd, size_t fd, const XM& A) { M_ return priv::compute_lhs_vector(m, cl, hho_degree_info(cd, fd), A); } \
XM cgv_##K(const std::vector<PT>& p, size_t cd, size_t fd, const XM& A) { M_ return priv::compute_grad_vector(m, cl, hho_degree_info(cd, fd), A); } \
XM cgm_##K(const std::vector<PT>& p, size_t cd, size_t fd, const XM& A) { M_ return priv::compute_grad_matrix(m, cl, hho_degree_info(cd, fd), A); } \
/* static condensation */ \
auto ssc_##K(const std::vector<PT>& p, size_t cd, size_t fd, const XM& A, const XV& b) { M_ return make_scalar_static_condensation(m, cl, hho_degree_info(cd, fd), A, b); } \
auto ssm_##K(const std::vector<PT>& p, size_t cd, size_t fd, const XM& A, const XV& b) { M_ return make_scalar_static_condensation_withMatrix(m, cl, hho_degree_info(cd, fd), A, b); } \
XV ssd_##K(const std::vector<PT>& p, size_t cd, size_t fd, const XM& A, const XV& b, const XV& s) { M_ return make_scalar_static_decondensation(m, cl, hho_degree_info(cd, fd), A, b, s); } \
auto vsc_##K(const std::vector<PT>& p, size_t cd, size_t fd, const XM& A, const XV& b) { M_ return make_vector_static_condensation(m, cl, hho_degree_info(cd, fd), A, b); } \
auto vsm_##K(const std::vector<PT>& p, size_t cd, size_t fd, const XM& A, const XV& b) { M_ return make_vector_static_condensation_withMatrix(m, cl, hho_degree_info(cd, fd), A, b); } \
auto vsi_##K(const std::vector<PT>& p, size_t cd, const SV& df, const SV& un, const XM& A, const XV& b, bool ck) { M_ MeshDegreeInfo<decltype(m)> h(m, cd, 1); setf(m, h, df, un); return make_vector_static_condensation_withMatrix(m, cl, h, A, b, ck); } \
XV vsd_##K(const std::vector<PT>& p, size_t cd, size_t fd, const XM& A, const XV& b, const XV& s) { M_ return make_vector_static_decondensation(m, cl, hho_degree_info(cd, fd), A, b, s); } \
auto nsc_##K(const std::vector<PT>& p, size_t cd, const XM& A, const XV& b) { M_ return disk::hho::schur(A, b, disk::basis::scaled_monomial_basis(m, cl, cd)); } \
XV nsd_##K(const std::vector<PT>& p, size_t cd, const XM& A, const XV& b, const XV& s) { M_ return disk::hho::deschur(A, b, s, disk::basis::scaled_monomial_basis(m, cl, cd)); }
#define MK_ mk_s2
PROBES(t2, P2, 2)
#undef MK_
#define MK_ mk_tet
PROBES(t3, P3, 3)
#undef MK_
XV ssdm(const XM& AL, const XV& bL, const XV& s) { return make_scalar_static_decondensation_withMatrix<T>(AL, bL, s); }
XV vsdm(const XM& AL, const XV& bL, const XV& s) { return make_vector_static_decondensation_withMatrix<T>(AL, bL, s); }
auto impl(const XM& A, const XV& b, size_t nt, size_t nf) { return priv::static_condensation_impl<T>(A, b, nt, nf); }
XV dimpl(const XM& A, const XV& b, const XV& s, size_t nt, size_t nf) { return priv::static_decondensation_impl<T>(A, b, s, nt, nf); }
auto vems(const XM& A, const XV& b, size_t nf) { return disk::vem::schur(A, b, nf); }
XV vemd(const XM& A, const XV& b, const XV& s, size_t nf) { return disk::vem::deschur<int>(A, b, s, nf); }
// setters of the per-mesh information touch the element they are given and nothing else
template<typename M> SV touch(const M& m, size_t op, size_t which, size_t d)
{
    MeshDegreeInfo<M> h(m, 3, 4, 5);
    size_t i = 0;
    if (op < 3) { for (auto& c : m) if (i++ == which) { if (op == 0) h.degree(m, c, d); else if (op == 1) h.hasUnknowns(m, c, d != 0); else h.degreeInfo(m, c, DegreeInfo(false, d)); } }
    else for (auto itor = m.faces_begin(); itor != m.faces_end(); itor++) { auto f = *itor; if (i++ == which) { if (op == 3) h.degree(m, f, d); else if (op == 4) h.hasUnknowns(m, f, d != 0); else h.degreeInfo(m, f, DegreeInfo(false, d)); } }
    return dump(m, h);
}
SV touch2(const std::vector<P2>& p, size_t op, size_t which, size_t d) { return touch(mk_star(p), op, which, d); }
SV mdi(const std::vector<P2>& p, size_t n, size_t a, size_t b, size_t c)
{
    auto m = mk_star(p); using M = decltype(m);
    if (n == 0) return dump(m, MeshDegreeInfo<M>(m)); if (n == 1) return dump(m, MeshDegreeInfo<M>(m, a)); if (n == 2) return dump(m, MeshDegreeInfo<M>(m, a, b));
    return dump(m, MeshDegreeInfo<M>(m, a, b, c));
}
