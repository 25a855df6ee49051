// the element level of the mechanics: rigidity, internal and external forces, inertia, the adaptive stabilisation
#include "meshes.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/methods/hho"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
#include "diskpp/mechanics/NewtonSolver/NewtonSolverComput.hpp"
using namespace disk::mechanics;
using V = std::vector<T>;
template<int R, int C, int O> void put(V& v, const Eigen::Matrix<T, R, C, O>& m) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) v.push_back(m(i, j)); }
static MaterialData<T> md(const V& par)
{
    MaterialData<T> d(par[0], par[1], par[2], par[3], par[4]); d.setType(2);
    for (size_t i = 5; i + 1 < par.size(); i += 2) d.addCurvePoint(par[i], par[i + 1]);
    return d;
}
static NewtonSolverParameter<T> par_of(const V& o)
{
    NewtonSolverParameter<T> rp; rp.m_beta = o[0]; rp.m_adapt_stab = o[1] > 0; rp.m_dynamic = o[2] > 0;
    rp.m_dyna_para["beta"] = o[3]; rp.m_dyna_para["rho"] = o[4];
    return rp;
}
template<typename M, typename C> auto load_of(const M& m, const C& cl, const V& f)
{
    const int N = M::dimension; auto b = barycenter(m, cl);
    return [=](const disk::point<T, M::dimension>& p) -> disk::static_vector<T, M::dimension> {
        disk::static_vector<T, M::dimension> r; for (int k = 0; k < N; k++) { r(k) = f[k]; for (int j = 0; j < N; j++) r(k) += f[N + k * N + j] * (p[j] - b[j]); } return r; };
}
template<typename M> struct elem
{
    M m; Behavior<M> b; disk::MeshDegreeInfo<M> di; size_t c;
    elem(const M& m_, size_t def, size_t law, size_t fd, size_t cd, size_t gd, const V& par, size_t c_) : m(m_), b(m, 2 * gd, def, law), di(m, cd, fd, gd), c(c_) { b.addMaterialData(md(par)); }
};
#define NEWTON(K, N, PT) \
V comp_##K(const std::vector<PT>& p, size_t def, size_t law, size_t fd, size_t cd, size_t gd, const V& par, size_t c, const V& o, const V& f, T t0, T t1, const disk::dynamic_matrix<T>& R, const disk::dynamic_vector<T>& u, const disk::dynamic_vector<T>& a) \
{ \
    auto m = MK_##K(p); using M = decltype(m); elem<M> e(m, def, law, fd, cd, gd, par, c); auto cl = *std::next(e.m.cells_begin(), c); \
    auto rp = par_of(o); disk::vector_boundary_conditions<M> bnd(e.m); StabCoeffManager<T> sm(e.m, o[5]); \
    mechanical_computation<M> mc; mc.compute(e.m, cl, bnd, rp, e.di, load_of(e.m, cl, f), R, u, a, TimeStep<T>(t0, t1, 0), e.b, sm, def == SMALL_DEF); \
    V r{ T(mc.K_int.rows()), T(mc.K_int.cols()), T(mc.F_int.rows()), T(mc.RTF.rows()) }; put(r, mc.K_int); put(r, mc.F_int); put(r, mc.RTF); \
    for (auto& k : e.m) r.push_back(sm.getValue(e.m, k)); \
    sm.update(); for (auto& k : e.m) r.push_back(sm.getValue(e.m, k)); \
    return r; \
} \
V at_##K(const std::vector<PT>& p, size_t def, size_t law, size_t gd, const V& par, size_t c, const disk::dynamic_vector<T>& Ru) \
{ \
    auto m = MK_##K(p); using M = decltype(m); elem<M> e(m, def, law, gd, gd, gd, par, c); auto cl = *std::next(e.m.cells_begin(), c); \
    V r; const size_t n = e.b.numberOfQP(c); r.push_back(T(n)); \
    for (size_t q = 0; q < n; q++) \
    { \
        auto qp = e.b.quadrature_point(c, q); r.push_back(qp.weight()); \
        disk::eigen_compatible_stdvector<disk::static_matrix<T, N, N>> g; \
        if (def == SMALL_DEF) g = disk::make_sym_matrix_monomial_basis(e.m, cl, gd).eval_functions(qp.point()); \
        else g = disk::make_matrix_monomial_basis(e.m, cl, gd).eval_functions(qp.point()); \
        r.push_back(T(g.size())); for (auto& x : g) put(r, x); \
        disk::static_matrix<T, N, N> E = disk::static_matrix<T, N, N>::Zero(); for (size_t i = 0; i < g.size(); i++) E += Ru(i) * g[i]; \
        if (def != SMALL_DEF) for (int k = 0; k < N; k++) E(k, k) += 1; \
        put(r, E); auto w = e.b.compute_whole(c, q, E, true); put(r, w.first); \
        for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) for (int l = 0; l < N; l++) r.push_back(coeff<T, N>(w.second, i, j, k, l)); \
    } \
    return r; \
} \
V ext_##K(const std::vector<PT>& p, size_t cd, size_t c, const V& f) \
{ \
    auto m = MK_##K(p); auto cl = *std::next(m.cells_begin(), c); auto cb = disk::make_vector_monomial_basis(m, cl, cd); auto l = load_of(m, cl, f); \
    const size_t n = cb.size(); V r(n + n * n, T(0)); \
    for (auto& qp : integrate(m, cl, 2 * cd + 2)) { auto phi = cb.eval_functions(qp.point()); auto v = l(qp.point()); \
        for (size_t i = 0; i < n; i++) for (int k = 0; k < N; k++) { r[i] += qp.weight() * phi(i, k) * v(k); for (size_t j = 0; j < n; j++) r[n + i * n + j] += qp.weight() * phi(i, k) * phi(j, k); } } \
    return r; \
} \
V sm_##K(const std::vector<PT>& p, T v, size_t c, T a, T b, size_t seq) \
{ \
    auto m = MK_##K(p); StabCoeffManager<T> s(m, v); auto cl = *std::next(m.cells_begin(), c); V r; \
    auto say = [&]() { for (auto& k : m) r.push_back(s.getValue(m, k)); }; say(); \
    for (; seq; seq /= 4) { if (seq % 4 == 1) s.setValue(m, cl, a); if (seq % 4 == 2) s.setValueNext(m, cl, b); if (seq % 4 == 3) s.update(); say(); } \
    return r; \
}
#define MK_t2 mk_star
#define MK_t3 mk_two
NEWTON(t2, 2, P2)
NEWTON(t3, 3, P3)
