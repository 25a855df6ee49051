// assembly of local contributions and boundary conditions
#include "meshes.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/bases/bases_new.hpp"
#include "diskpp/methods/hho"
#include "diskpp/methods/hho_assemblers.hpp"
using DMx = dynamic_matrix<T>; using DVx = dynamic_vector<T>;
using SV = std::vector<size_t>; using VM = std::vector<DMx>; using VV = std::vector<DVx>;
struct out { DMx L; DVx R; VV loc; DVx full; };
auto mkqp2(const P2& p, const T& w) { return make_qp(p, w); }
auto mkqp3(const P3& p, const T& w) { return make_qp(p, w); }
static T lin(const P2& x, size_t k, size_t c) { return T(1) + T(k) + T(2 * c + k) * x.x() - T(3 + c) * x.y(); }
static T lin(const P3& x, size_t k, size_t c) { return T(1) + T(k) + T(2 * c + k) * x.x() - T(3 + c) * x.y() + T(1 + k) * x.z(); }
template<size_t N, typename P> static_vector<T, N> vlin(const P& x, size_t k) { static_vector<T, N> r = static_vector<T, N>::Zero(); for (size_t c = 0; c < N; c++) r(c) = lin(x, k, c); return r; }
// conditions: triples (kind, type, boundary id), kinds 0 Dirichlet, 1 Neumann, 2 Robin, 3 contact, 4 Dirichlet everywhere
template<typename B, typename F> void add1(B& b, size_t kind, size_t type, size_t id, const F& f)
{
    if (kind == 0) b.addDirichletBC(type, id, f); else if (kind == 1) b.addNeumannBC(type, id, f); else if (kind == 2) b.addRobinBC(type, id, f); else if (kind == 4) b.addDirichletEverywhere(f);
}
template<typename M> void conds(const M& m, scalar_boundary_conditions<M>& b, const SV& s)
{
    using P = typename M::point_type;
    for (size_t k = 0; 3 * k < s.size(); k++) {
        auto f = [k](const P& x) -> T { return lin(x, k, 0); };
        if (s[3*k] == 3) b.addContactBC(s[3*k+1], s[3*k+2], f); else if (s[3*k] == 5) b.addContactBC(s[3*k+1], s[3*k+2]); else add1(b, s[3*k], s[3*k+1], s[3*k+2], f);
    }
}
template<typename M> void conds(const M& m, vector_boundary_conditions<M>& b, const SV& s)
{
    using P = typename M::point_type; using V = static_vector<T, M::dimension>;
    for (size_t k = 0; 3 * k < s.size(); k++) {
        auto f = [k](const P& x) -> V { return vlin<M::dimension>(x, k); };
        auto g = [k](const P& x) -> T { return lin(x, k, 0); };
        if (s[3*k] == 3) b.addContactBC(s[3*k+1], s[3*k+2], g); else if (s[3*k] == 5) b.addContactBC(s[3*k+1], s[3*k+2]); else add1(b, s[3*k], s[3*k+1], s[3*k+2], f);
    }
}
static bool has(const SV& s, size_t kind) { for (size_t k = 0; k < s.size(); k += 3) if (s[k] == kind) return true; return false; }
template<typename M> MeshDegreeInfo<M> degs(const M& m, size_t cd, const SV& df, const SV& un)
{
    MeshDegreeInfo<M> h(m, cd, 1); size_t i = 0;
    for (auto it = m.faces_begin(); it != m.faces_end(); it++, i++) { auto f = *it; h.degreeInfo(m, f, DegreeInfo(un[i] != 0, df[i])); }
    return h;
}
#define NB_ auto m = MK_(p, ids);
#define SB_ NB_ scalar_boundary_conditions<decltype(m)> b(m); conds(m, b, s); b.multiplyAllFunctionsByAFactor(fac);
#define VB_ NB_ vector_boundary_conditions<decltype(m)> b(m); conds(m, b, s); b.multiplyAllFunctionsByAFactor(fac);
#define ARGS(PT) const std::vector<PT>& p, const SV& ids, const SV& s, const T& fac, size_t cd, size_t fd, const VM& A, const VV& r, const DVx& x
#define PROBES(K, PT, DIM) \
std::vector<SV> cells_##K(const std::vector<PT>& p, const SV& ids) { NB_ std::vector<SV> o; for (auto& c : m) { for (auto& f : faces(m, c)) { SV v; for (auto& q : f.point_ids()) v.push_back(q); o.push_back(v); } o.push_back(SV{}); } return o; } \
auto fb_##K(const std::vector<PT>& p, const SV& ids, size_t i, size_t d, const PT& x) { NB_ auto f = *std::next(m.faces_begin(), i); return make_scalar_monomial_basis(m, f, d).eval_functions(x); } \
auto vfb_##K(const std::vector<PT>& p, const SV& ids, size_t i, size_t d, const PT& x) { NB_ auto f = *std::next(m.faces_begin(), i); return make_vector_monomial_basis(m, f, d).eval_functions(x); } \
auto cb_##K(const std::vector<PT>& p, const SV& ids, size_t i, size_t d, const PT& x) { NB_ auto f = *std::next(m.cells_begin(), i); return make_scalar_monomial_basis(m, f, d).eval_functions(x); } \
/* scalar problems */ \
out diff0_##K(ARGS(PT)) { NB_ out o; hho_degree_info h(cd, fd); auto a = make_diffusion_assembler(m, h); auto f = [](const PT& x) -> T { return lin(x, 0, 0); }; size_t i = 0; \
    for (auto& c : m) { a.assemble(m, c, A[i], r[i], f); i++; } a.finalize(); \
    for (auto& c : m) o.loc.push_back(a.take_local_data(m, c, x, f)); o.L = DMx(a.LHS); o.R = a.RHS; return o; } \
out diffb_##K(ARGS(PT)) { SB_ out o; hho_degree_info h(cd, fd); auto a = make_diffusion_assembler(m, h, b); size_t i = 0; \
    for (auto& c : m) { a.assemble(m, c, b, A[i], r[i]); i++; } if (has(s, 1)) a.impose_neumann_boundary_conditions(m, b); if (has(s, 2)) a.impose_robin_boundary_conditions(m, b); a.finalize(); \
    for (auto& c : m) o.loc.push_back(a.take_local_data(m, c, b, x)); o.L = DMx(a.LHS); o.R = a.RHS; return o; } \
out prim_##K(ARGS(PT)) { SB_ out o; hho_degree_info h(cd, fd); auto a = make_scalar_primal_hho_assembler(m, h, b); size_t i = 0; \
    for (auto& c : m) { a.assemble(m, c, b, A[i], r[i]); i++; } a.impose_neumann_boundary_conditions(m, b); a.impose_robin_boundary_conditions(m, b); a.finalize(); \
    for (auto& c : m) o.loc.push_back(a.take_local_solution(m, c, b, x)); o.full = a.expand_solution(m, b, x); o.L = DMx(a.LHS); o.R = a.RHS; return o; } \
/* vector problems */ \
out mech_##K(ARGS(PT)) { VB_ out o; hho_degree_info h(cd, fd); auto a = make_mechanics_assembler(m, h, b); size_t i = 0; \
    for (auto& c : m) { a.assemble(m, c, b, std::make_pair(A[i], r[i])); i++; } a.impose_neumann_boundary_conditions(m, b); a.finalize(); \
    for (auto& c : m) o.loc.push_back(a.take_local_data(m, c, b, x)); o.full = a.expand_solution(m, b, x); o.L = DMx(a.LHS); o.R = a.RHS; return o; } \
out mechn_##K(ARGS(PT), const VV& u) { VB_ out o; hho_degree_info h(cd, fd); auto a = make_mechanics_assembler(m, h, b); size_t i = 0; \
    for (auto& c : m) { a.assemble_nl(m, c, b, std::make_pair(A[i], r[i]), u); i++; } a.impose_neumann_boundary_conditions(m, b); a.finalize(); \
    o.full = a.expand_solution_nl(m, b, x, u); o.L = DMx(a.LHS); o.R = a.RHS; return o; } \
out vprim_##K(ARGS(PT)) { VB_ out o; hho_degree_info h(cd, fd); auto a = make_vector_primal_hho_assembler(m, h, b); size_t i = 0; \
    for (auto& c : m) { a.assemble(m, c, b, A[i], r[i]); i++; } a.impose_neumann_boundary_conditions(m, b); a.finalize(); \
    for (auto& c : m) o.loc.push_back(a.take_local_solution(m, c, b, x)); o.full = a.expand_solution(m, b, x); o.L = DMx(a.LHS); o.R = a.RHS; return o; } \
out vprimn_##K(ARGS(PT), const VV& u) { VB_ out o; hho_degree_info h(cd, fd); auto a = make_vector_primal_hho_assembler(m, h, b); size_t i = 0; \
    for (auto& c : m) { a.assemble_nonlinear(m, c, b, A[i], r[i], u); i++; } a.impose_neumann_boundary_conditions(m, b); a.finalize(); \
    for (auto& c : m) o.loc.push_back(a.take_local_solution_nonlinear(m, c, b, x, u)); o.full = a.expand_solution_nonlinear(m, b, x, u); o.L = DMx(a.LHS); o.R = a.RHS; return o; } \
out vprimi_##K(ARGS(PT), const SV& df, const SV& un) { VB_ out o; auto h = degs(m, cd, df, un); auto a = make_vector_primal_hho_assembler(m, h, b); size_t i = 0; \
    for (auto& c : m) { a.assemble(m, c, b, A[i], r[i]); i++; } a.impose_neumann_boundary_conditions(m, b); a.finalize(); \
    for (auto& c : m) o.loc.push_back(a.take_local_solution(m, c, b, x)); o.full = a.expand_solution(m, b, x); o.L = DMx(a.LHS); o.R = a.RHS; return o; } \
out vmech_##K(ARGS(PT), const VV& u) { VB_ out o; hho_degree_info h(cd, fd); auto a = make_vector_mechanics_hho_assembler(m, h, b); size_t i = 0; \
    for (auto& c : m) { a.assemble_nonlinear(m, c, b, A[i], r[i], u); i++; } a.impose_neumann_boundary_conditions(m, b); a.finalize(); \
    for (auto& c : m) o.loc.push_back(a.take_local_solution_nonlinear(m, c, b, x, u)); o.full = a.expand_solution_nonlinear(m, b, x, u); o.L = DMx(a.LHS); o.R = a.RHS; return o; } \
out vmechi_##K(ARGS(PT), const VV& u, const SV& df, const SV& un) { VB_ out o; auto h = degs(m, cd, df, un); auto a = make_vector_mechanics_hho_assembler(m, h, b); size_t i = 0; \
    for (auto& c : m) { a.assemble_nonlinear(m, c, b, A[i], r[i], u); i++; } a.impose_neumann_boundary_conditions(m, b); a.finalize(); \
    for (auto& c : m) o.loc.push_back(a.take_local_solution_nonlinear(m, c, b, x, u)); o.full = a.expand_solution_nonlinear(m, b, x, u); o.L = DMx(a.LHS); o.R = a.RHS; return o; } \
/* Stokes: B matrices in Bm; loc = velocities then pressures */ \
out stok_##K(ARGS(PT), const VM& Bm) { VB_ out o; hho_degree_info h(cd, fd); auto a = make_stokes_assembler(m, h, b); size_t i = 0; \
    for (auto& c : m) { a.assemble(m, c, A[i], Bm[i], r[i]); i++; } a.finalize(); \
    for (auto& c : m) o.loc.push_back(a.take_velocity(m, c, x)); for (auto& c : m) o.loc.push_back(a.take_pressure(m, c, x)); o.L = DMx(a.LHS); o.R = a.RHS; return o; } \
out stoka_##K(ARGS(PT), const VM& Bm) { VB_ out o; hho_degree_info h(cd, fd); auto a = make_stokes_assembler(m, h, b); size_t i = 0; \
    for (auto& c : m) { a.assemble_alg(m, c, A[i], Bm[i], r[i]); i++; } a.finalize(); \
    for (auto& c : m) o.loc.push_back(a.take_velocity(m, c, x)); for (auto& c : m) o.loc.push_back(a.take_pressure(m, c, x)); o.L = DMx(a.LHS); o.R = a.RHS; return o; } \
out stokl_##K(ARGS(PT), const VM& Bm) { VB_ out o; hho_degree_info h(cd, fd); auto a = make_stokes_assembler_alg(m, h, b); size_t i = 0; a.initialize_lhs(); a.initialize_rhs(); \
    for (auto& c : m) { a.assemble_lhs(m, c, A[i], Bm[i]); i++; } a.finalize_lhs(); i = 0; for (auto& c : m) { a.assemble_rhs(m, c, r[i]); i++; } a.finalize_rhs(); \
    for (auto& c : m) o.loc.push_back(a.take_velocity(m, c, x)); for (auto& c : m) o.loc.push_back(a.take_pressure(m, c, x)); o.L = DMx(a.LHS); o.R = a.RHS; return o; } \
/* the newer interface */ \
template<typename M> using fbt_##K = disk::basis::scalar_monomial<M, typename M::face_type, T>; \
out cond_##K(ARGS(PT)) { NB_ out o; using M = decltype(m); disk::hho::basic_condensed_assembler<M, fbt_##K<M>> a(m, fd); size_t i = 0; \
    for (auto& c : m) { a.assemble(m, c, A[i], r[i]); i++; } a.finalize(); \
    for (auto& c : m) o.loc.push_back(a.take_local_solution(m, c, x)); o.L = DMx(a.LHS); o.R = a.RHS; return o; } \
out condd_##K(ARGS(PT), const std::vector<bool>& dir) { NB_ out o; using M = decltype(m); disk::hho::basic_condensed_assembler<M, fbt_##K<M>> a(m, fd, dir); size_t i = 0; \
    for (auto& c : m) { a.assemble(m, c, A[i], r[i]); i++; } a.finalize(); \
    for (auto& c : m) o.loc.push_back(a.take_local_solution(m, c, x)); o.L = DMx(a.LHS); o.R = a.RHS; return o; } \
/* boundary conditions read back */ \
template<typename B, typename M> SV bdump_##K(const M& m, const B& b) { SV o; size_t i = 0; \
    for (auto it = m.faces_begin(); it != m.faces_end(); it++, i++) { auto f = *it; \
        o.push_back(b.is_dirichlet_face(i)); o.push_back(b.is_dirichlet_face(f)); o.push_back(b.is_neumann_face(i)); o.push_back(b.is_neumann_face(f)); o.push_back(b.is_robin_face(i)); o.push_back(b.is_robin_face(f)); o.push_back(b.is_contact_face(i)); o.push_back(b.is_contact_face(f)); \
        o.push_back(b.dirichlet_boundary_type(i)); o.push_back(b.dirichlet_boundary_type(f)); o.push_back(b.neumann_boundary_type(i)); o.push_back(b.neumann_boundary_type(f)); o.push_back(b.robin_boundary_type(i)); o.push_back(b.robin_boundary_type(f)); o.push_back(b.contact_boundary_type(i)); o.push_back(b.contact_boundary_type(f)); \
        o.push_back(b.dirichlet_boundary_id(i)); o.push_back(b.dirichlet_boundary_id(f)); o.push_back(b.neumann_boundary_id(i)); o.push_back(b.neumann_boundary_id(f)); o.push_back(b.robin_boundary_id(i)); o.push_back(b.robin_boundary_id(f)); o.push_back(b.contact_boundary_id(i)); o.push_back(b.contact_boundary_id(f)); } \
    o.push_back(b.nb_faces_dirichlet()); o.push_back(b.nb_faces_neumann()); o.push_back(b.nb_faces_robin()); o.push_back(b.nb_faces_contact()); o.push_back(b.nb_faces_boundary()); \
    for (auto& c : m) { o.push_back(b.cell_has_dirichlet_faces(c)); o.push_back(b.cell_has_neumann_faces(c)); o.push_back(b.cell_has_robin_faces(c)); o.push_back(b.cell_has_contact_faces(c)); o.push_back(b.howmany_contact_faces(c)); o.push_back(b.howmany_without_contact_faces(c)); \
        o.push_back(b.faces_without_contact(c).size()); o.push_back(b.faces_with_unknowns(c).size()); o.push_back(b.faces_with_contact(c).size()); } \
    return o; } \
SV sbc_##K(const std::vector<PT>& p, const SV& ids, const SV& s) { T fac = 1; SB_ return bdump_##K(m, b); } \
SV vbc_##K(const std::vector<PT>& p, const SV& ids, const SV& s) { T fac = 1; VB_ return bdump_##K(m, b); } \
std::vector<T> sfun_##K(const std::vector<PT>& p, const SV& ids, const SV& s, const T& fac, const PT& x) { SB_ std::vector<T> o; size_t i = 0; \
    for (auto it = m.faces_begin(); it != m.faces_end(); it++, i++) { auto f = *it; \
        if (b.is_dirichlet_face(i)) { o.push_back(b.dirichlet_boundary_func(i)(x)); o.push_back(b.dirichlet_boundary_func(f)(x)); } \
        if (b.is_neumann_face(i)) { o.push_back(b.neumann_boundary_func(i)(x)); o.push_back(b.neumann_boundary_func(f)(x)); } \
        if (b.is_robin_face(i)) { o.push_back(b.robin_boundary_func(i)(x)); o.push_back(b.robin_boundary_func(f)(x)); } \
        if (b.is_contact_face(i)) { o.push_back(b.contact_boundary_func(i)(x)); o.push_back(b.contact_boundary_func(f)(x)); } } return o; } \
std::vector<T> vfun_##K(const std::vector<PT>& p, const SV& ids, const SV& s, const T& fac, const PT& x) { VB_ std::vector<T> o; size_t i = 0; \
    for (auto it = m.faces_begin(); it != m.faces_end(); it++, i++) { auto f = *it; \
        if (b.is_dirichlet_face(i)) { auto v = b.dirichlet_boundary_func(i)(x); auto w = b.dirichlet_boundary_func(f)(x); for (size_t c = 0; c < DIM; c++) { o.push_back(v(c)); o.push_back(w(c)); } } \
        if (b.is_neumann_face(i)) { auto v = b.neumann_boundary_func(i)(x); auto w = b.neumann_boundary_func(f)(x); for (size_t c = 0; c < DIM; c++) { o.push_back(v(c)); o.push_back(w(c)); } } \
        if (b.is_robin_face(i)) { auto v = b.robin_boundary_func(i)(x); auto w = b.robin_boundary_func(f)(x); for (size_t c = 0; c < DIM; c++) { o.push_back(v(c)); o.push_back(w(c)); } } \
        if (b.is_contact_face(i)) { o.push_back(b.contact_boundary_func(i)(x)); o.push_back(b.contact_boundary_func(f)(x)); } } return o; } \
T qf_##K(const std::vector<PT>& p, const SV& ids, const SV& s, size_t kind, size_t i, const PT& x) { T fac = 1; SB_ \
    if (kind == 0) return b.dirichlet_boundary_func(i)(x); if (kind == 1) return b.neumann_boundary_func(i)(x); if (kind == 2) return b.robin_boundary_func(i)(x); return b.contact_boundary_func(i)(x); } \
SV imp_##K(const std::vector<PT>& p, const SV& ids, const SV& s, size_t k) { T fac = 1; VB_ SV o; for (size_t i = 0; i < m.faces_size(); i++) o.push_back(b.dirichlet_imposed_dofs(i, k)); return o; } \
SV imps_##K(const std::vector<PT>& p, const SV& ids, const SV& s, size_t k) { T fac = 1; SB_ SV o; for (size_t i = 0; i < m.faces_size(); i++) o.push_back(b.dirichlet_imposed_dofs(i, k)); return o; }
#define MK_ mk_star
PROBES(t2, P2, 2)
#undef MK_
#define MK_ mk_two
PROBES(t3, P3, 3)
