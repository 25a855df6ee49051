// behaviours on a mesh: the law object a Behavior delegates to, point by point
#include "meshes.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/methods/hho"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
using namespace disk::mechanics;
using V = std::vector<T>;
using SV = std::vector<size_t>;
template<int N> static_matrix<T, N, N> mat(const V& v, size_t o = 0)
{ static_matrix<T, N, N> m; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m(i, j) = v[o + i * N + j]; return m; }
template<int R, int C, int O> void put(V& v, const Eigen::Matrix<T, R, C, O>& m) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) v.push_back(m(i, j)); }
static MaterialData<T> md(const V& par, size_t type)
{
    MaterialData<T> d(par[0], par[1], par[2], par[3], par[4]); d.setType(type);
    for (size_t i = 5; i + 1 < par.size(); i += 2) d.addCurvePoint(par[i], par[i + 1]);
    return d;
}
static V mdflat(const MaterialData<T>& d) { V r{ d.getLambda(), d.getMu(), d.getH(), d.getK(), d.getSigma_y0(), T(d.getType()) }; for (auto& p : d.getRpCurve()) { r.push_back(p.getP()); r.push_back(p.getRp()); } return r; }
// the law of one point, on its own
template<typename L, int N> V ref(const V& par, size_t type, const V& F, bool tang)
{
    L l(point<T, N>(), 1.0); auto d = md(par, type); V r;
    for (size_t s = 0; s * N * N < F.size(); s++)
    {
        auto w = l.compute_whole(mat<N>(F, s * N * N), d, tang); put(r, w.first); put(r, w.second);
        put(r, static_matrix<T, 3, 3>(l.compute_stress3D(d))); r.push_back(l.is_plastic() ? 1. : 0.); r.push_back(l.getEquivalentPlasticStrain());
        l.update();
    }
    return r;
}
// steps at one point of the mesh; what the other points are then
template<typename B, typename M> V steps(const M& m, B& b, const V& F, size_t c, size_t q, bool tang, size_t c2, size_t q2, const V& G)
{
    const int N = M::dimension; V r;
    for (size_t s = 0; s * N * N < F.size(); s++)
    {
        auto w = b.compute_whole(c, q, mat<N>(F, s * N * N), tang); put(r, w.first); put(r, w.second);
        put(r, static_matrix<T, 3, 3>(b.compute_stress3D(c, q))); r.push_back(b.is_plastic(c, q) ? 1. : 0.); r.push_back(b.equivalentPlasticStrain(c, q));
        if (s == 0) { auto w2 = b.compute_whole(c2, q2, mat<N>(G), tang); put(r, w2.first); put(r, w2.second);
            put(r, static_matrix<T, 3, 3>(b.compute_stress3D(c2, q2))); r.push_back(b.is_plastic(c2, q2) ? 1. : 0.); r.push_back(b.equivalentPlasticStrain(c2, q2)); }
        b.update();
    }
    auto w2 = b.compute_whole(c2, q2, mat<N>(G), tang); put(r, w2.first); put(r, w2.second);
    put(r, static_matrix<T, 3, 3>(b.compute_stress3D(c2, q2))); r.push_back(b.is_plastic(c2, q2) ? 1. : 0.); r.push_back(b.equivalentPlasticStrain(c2, q2));
    return r;
}
template<typename M> V points(const M& m, const Behavior<M>& b)
{
    V r; r.push_back(T(b.numberOfQP()));
    size_t i = 0;
    for (auto& cl : m)
    {
        r.push_back(T(b.numberOfQP(i))); r.push_back(T(b.numberOfQP(m, cl)));
        for (size_t q = 0; q < b.numberOfQP(i); q++) { auto p = b.quadrature_point(i, q); r.push_back(p.weight()); for (size_t k = 0; k < M::dimension; k++) r.push_back(p.point()[k]); }
        i++;
    }
    return r;
}
template<typename M> V points(const M& m, size_t degree)
{
    V r; r.push_back(0); size_t n = 0;
    for (auto& cl : m) { auto qs = integrate(m, cl, degree); n += qs.size(); r.push_back(T(qs.size())); r.push_back(T(qs.size()));
        for (auto& p : qs) { r.push_back(p.weight()); for (size_t k = 0; k < M::dimension; k++) r.push_back(p.point()[k]); } }
    r[0] = T(n); return r;
}
#define LAWS(K, N, PT) \
V beh_##K(const std::vector<PT>& p, size_t def, size_t law, size_t degree, const V& par, size_t typ, const V& F, size_t c, size_t q, bool tang, size_t c2, size_t q2, const V& G) \
{ auto m = MK_##K(p); Behavior<decltype(m)> b(m, degree, def, law); b.addMaterialData(md(par, typ)); return steps(m, b, F, c, q, tang, c2, q2, G); } \
V pts_##K(const std::vector<PT>& p, size_t def, size_t law, size_t degree) { auto m = MK_##K(p); Behavior<decltype(m)> b(m, degree, def, law); return points(m, b); } \
V rpts_##K(const std::vector<PT>& p, size_t degree) { auto m = MK_##K(p); return points(m, degree); } \
V mats_##K(const std::vector<PT>& p, size_t def, size_t law, const V& par, size_t typ) { auto m = MK_##K(p); Behavior<decltype(m)> b(m, 1, def, law); b.addMaterialData(md(par, typ)); const auto& cb = b; V r = mdflat(b.getMaterialData()); V s = mdflat(cb.getMaterialData()); r.insert(r.end(), s.begin(), s.end()); r.push_back(T(b.getDeformation())); return r; } \
V bad_##K(size_t def, size_t law) { Behavior<decltype(MK_##K(std::vector<PT>()))> b(def, law); return V{ T(b.getDeformation()) }; } \
V none_##K(size_t which) { Behavior<decltype(MK_##K(std::vector<PT>()))> b; return V{ T(b.getDeformation()), T(b.numberOfQP()) }; } \
dynamic_vector<T> proj_##K(const std::vector<PT>& p, size_t def, size_t law, size_t degree, size_t gd, const V& par, size_t typ, const V& F, size_t c) \
{ auto m = MK_##K(p); Behavior<decltype(m)> b(m, degree, def, law); b.addMaterialData(md(par, typ)); for (size_t q = 0; q < b.numberOfQP(c); q++) b.compute_whole(c, q, mat<N>(F, q * N * N), false); auto cl = *std::next(m.cells_begin(), c); return b.projectStressOnCell(m, cl, hho_degree_info(gd, gd, gd)); } \
V r_el_##K(const V& par, size_t t, const V& F, bool g) { return ref<LinearElasticity_qp<T, N>, N>(par, t, F, g); } \
V r_lh_##K(const V& par, size_t t, const V& F, bool g) { return ref<LinearIsotropicAndKinematicHardening_qp<T, N>, N>(par, t, F, g); } \
V r_nl_##K(const V& par, size_t t, const V& F, bool g) { return ref<IsotropicHardeningVMis_qp<T, N>, N>(par, t, F, g); } \
V r_hm_##K(const V& par, size_t t, const V& F, bool g) { return ref<HenckyMises_qp<T, N>, N>(par, t, F, g); } \
V r_nh_##K(const V& par, size_t t, const V& F, bool g) { return ref<Neohookean_qp<T, N>, N>(par, t, F, g); } \
V r_cv_##K(const V& par, size_t t, const V& F, bool g) { return ref<Cavitation_qp<T, N>, N>(par, t, F, g); } \
V r_gel_##K(const V& par, size_t t, const V& F, bool g) { return ref<LogarithmicStrain_qp<LinearElasticity_qp<T, N>>, N>(par, t, F, g); } \
V r_glh_##K(const V& par, size_t t, const V& F, bool g) { return ref<LogarithmicStrain_qp<LinearIsotropicAndKinematicHardening_qp<T, N>>, N>(par, t, F, g); } \
V r_gnl_##K(const V& par, size_t t, const V& F, bool g) { return ref<LogarithmicStrain_qp<IsotropicHardeningVMis_qp<T, N>>, N>(par, t, F, g); }
#define MK_t2 mk_star
#define MK_t3 mk_two
LAWS(t2, 2, P2)
LAWS(t3, 3, P3)
std::vector<std::string> names(size_t def, size_t law) { return { DeformationMeasureName(def), LawTypeName(law) }; }
