// tensor algebra, kinematic and stress conversions, behaviour laws and time stepping of the mechanics module
#include "meshes.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/methods/hho"
#include "diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp"
#include "diskpp/mechanics/behaviors/maths_utils.hpp"
#include "diskpp/mechanics/behaviors/tensor_conversion.hpp"
#include "diskpp/mechanics/deformation_tensors.hpp"
#include "diskpp/mechanics/stress_tensors.hpp"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
#include "diskpp/mechanics/NewtonSolver/TimeManager.hpp"
using namespace disk::mechanics;
using V = std::vector<T>;
template<int N> static_matrix<T, N, N> mat(const V& v, size_t o = 0)
{ static_matrix<T, N, N> m; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m(i, j) = v[o + i * N + j]; return m; }
template<int N> static_tensor<T, N> ten(const V& v)
{ static_tensor<T, N> t; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) for (int l = 0; l < N; l++)
    coeff<T, N>(t, i, j, k, l, v[((i * N + j) * N + k) * N + l]); return t; }
template<int R, int C> V flat(const Eigen::Matrix<T, R, C>& m) { V v; for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) v.push_back(m(i, j)); return v; }
template<int N> V tflat(const static_tensor<T, N>& t)
{ V v; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) for (int l = 0; l < N; l++) v.push_back(coeff<T, N>(t, i, j, k, l)); return v; }
#define ALG(N) \
V store_##N(const V& a) { return flat(ten<N>(a)); } \
V get_##N(const V& a, int i, int j, int k, int l) { return V{ coeff<T, N>(ten<N>(a), i, j, k, l) }; } \
V tm_##N(const V& a, const V& b) { return flat(tm_prod(ten<N>(a), mat<N>(b))); } \
V mt_##N(const V& a, const V& b) { return flat(tm_prod(mat<N>(b), ten<N>(a))); } \
V tm1_##N(const V& a, const V& b, int r, int c) { static_matrix<T, N, N> m = static_matrix<T, N, N>::Zero(); m(r, c) = b[r * N + c]; return flat(tm_prod(ten<N>(a), m, r, c)); } \
V cp_##N(const V& a, const V& b) { return flat(ContractedProduct(ten<N>(a), mat<N>(b))); } \
V pc_##N(const V& a, const V& b) { return flat(ContractedProduct(mat<N>(b), ten<N>(a))); } \
V tt_##N(const V& a, const V& b) { return tflat<N>(ContractedProduct<T, N>(ten<N>(a), ten<N>(b))); } \
V kron_##N(const V& a, const V& b) { return tflat<N>(Kronecker(mat<N>(a), mat<N>(b))); } \
V vkron_##N(const V& a, const V& b) { static_vector<T, N> x, y; for (int i = 0; i < N; i++) { x(i) = a[i]; y(i) = b[i]; } return flat(static_matrix<T, N, N>(Kronecker(x, y))); } \
V inner_##N(const V& a, const V& b) { return V{ disk::InnerProduct(mat<N>(a), mat<N>(b)) }; } \
V vinner_##N(const V& a, const V& b) { static_vector<T, N> x, y; for (int i = 0; i < N; i++) { x(i) = a[i]; y(i) = b[i]; } return V{ disk::InnerProduct(x, y) }; } \
V sup_##N(const V& a, const V& b) { return tflat<N>(ProductSup(mat<N>(a), mat<N>(b))); } \
V inf_##N(const V& a, const V& b) { return tflat<N>(ProductInf(mat<N>(a), mat<N>(b))); } \
V odot_##N(const V& a, const V& b) { return tflat<N>(Odot(mat<N>(a), mat<N>(b))); } \
V id4_##N() { return tflat<N>(IdentityTensor4<T, N>()); } \
V ids_##N() { return tflat<N>(IdentitySymTensor4<T, N>()); } \
V ixi_##N() { return tflat<N>(IxI<T, N>()); } \
V tr_##N(const V& a) { return tflat<N>(disk::transpose<T, N>(ten<N>(a))); } \
V dev_##N(const V& a) { return flat(deviator(mat<N>(a))); } \
V sph_##N(const V& a) { return flat(spheric(mat<N>(a))); } \
V fro_##N(const V& a) { return flat(NormFroFirstDerivate(deviator(mat<N>(a)))); } \
V jac1_##N(const V& a) { return flat(JacobianFirstDerivate(mat<N>(a))); } \
V jac2_##N(const V& a) { return tflat<N>(JacobianSecondDerivate(mat<N>(a))); } \
V mandel_##N(const V& a) { return flat(convertTensorNotationMangel<T, N>(ten<N>(a))); } \
V to3_##N(const V& a) { return flat(convertMatrix3D(mat<N>(a))); } \
V to3one_##N(const V& a) { return flat(convertMatrix3DwithOne(mat<N>(a))); } \
V from3_##N(const V& a) { return flat(convertMatrix<T, N>(mat<3>(a))); } \
V tfrom3_##N(const V& a) { return tflat<N>(convertTensor<T, N>(ten<3>(a))); } \
V lin_##N(const V& a) { return flat(convertGtoLinearizedStrain(mat<N>(a))); } \
V g2f_##N(const V& a) { return flat(convertGtoF(mat<N>(a))); } \
V f2g_##N(const V& a) { return flat(convertFtoG(mat<N>(a))); } \
V f2c_##N(const V& a) { return flat(convertFtoCauchyGreenRight(mat<N>(a))); } \
V g2c_##N(const V& a) { return flat(convertGtoCauchyGreenRight(mat<N>(a))); } \
V f2b_##N(const V& a) { return flat(convertFtoCauchyGreenLeft(mat<N>(a))); } \
V g2b_##N(const V& a) { return flat(convertGtoCauchyGreenLeft(mat<N>(a))); } \
V c2e_##N(const V& a) { return flat(convertCauchyGreenRighttoGreenLagrange(mat<N>(a))); } \
V f2e_##N(const V& a) { return flat(convertFtoGreenLagrange(mat<N>(a))); } \
V g2e_##N(const V& a) { return flat(convertGtoGreenLagrange(mat<N>(a))); } \
V p1p2_##N(const V& a, const V& f) { return flat(convertPK1toPK2(mat<N>(a), mat<N>(f))); } \
V p2p1_##N(const V& a, const V& f) { return flat(convertPK2toPK1(mat<N>(a), mat<N>(f))); } \
V p1c_##N(const V& a, const V& f) { return flat(convertPK1toCauchy(mat<N>(a), mat<N>(f))); } \
V cp1_##N(const V& a, const V& f) { return flat(convertCauchytoPK1(mat<N>(a), mat<N>(f))); } \
V cp2_##N(const V& a, const V& f) { return flat(convertCauchytoPK2(mat<N>(a), mat<N>(f))); } \
V p2c_##N(const V& a, const V& f) { return flat(convertPK2toCauchy(mat<N>(a), mat<N>(f))); } \
V vm_##N(const V& a) { return V{ VonMisesCriteria(mat<N>(a)) }; }
ALG(2) ALG(3)
V ctoa(const V& c, const V& s, const V& f) { return tflat<3>(convertCtoA(ten<3>(c), mat<3>(s), mat<3>(f))); }
V tomgis(const V& a, size_t n) { V v(n); convertMatrixToMgis(mat<3>(a), v); return v; }
V frommgis(const V& v) { static_matrix<T, 3, 3> m; convertMatrixFromMgis(v, m); return flat(m); }
V tfrommgis(const V& v) { static_tensor<T, 3> t; convertTensorFromMgis(v, t); return tflat<3>(t); }
// ---- laws: par = lambda, mu, H, K, sigma_y0, then the points of the traction curve
static MaterialData<T> md(const V& par, size_t type)
{
    MaterialData<T> d(par[0], par[1], par[2], par[3], par[4]); d.setType(type);
    for (size_t i = 5; i + 1 < par.size(); i += 2) d.addCurvePoint(par[i], par[i + 1]);
    return d;
}
template<typename L, int N> V state(const L& l, const MaterialData<T>& d)
{
    V r;
    auto add = [&](const V& v) { r.insert(r.end(), v.begin(), v.end()); };
    add(flat(static_matrix<T, N, N>(l.getTotalStrain()))); add(flat(static_matrix<T, N, N>(l.getTotalStrainPrev())));
    add(flat(static_matrix<T, 3, 3>(l.getElasticStrain()))); add(flat(static_matrix<T, 3, 3>(l.getPlasticStrain())));
    r.push_back(l.getEquivalentPlasticStrain()); r.push_back(l.is_plastic() ? 1. : 0.);
    add(flat(static_matrix<T, N, N>(l.compute_stress(d))));
    return r;
}
// a history of strains; ops: 0 = compute, 1 = compute + update; tangent of the last step, state after it
template<typename L, int N> V hist(const V& par, size_t type, const V& eps, const std::vector<size_t>& ops, bool tang)
{
    L l(point<T, N>(), 1.0); auto d = md(par, type); V r;
    for (size_t s = 0; s < ops.size(); s++)
    {
        auto w = l.compute_whole(mat<N>(eps, s * N * N), d, tang);
        if (s + 1 == ops.size()) { r = flat(w.first); auto t = tflat<N>(w.second); r.insert(r.end(), t.begin(), t.end()); }
        if (ops[s]) l.update();
    }
    auto st = state<L, N>(l, d); r.insert(r.end(), st.begin(), st.end());
    return r;
}
#define LAW(NAME) \
V NAME##_2(const V& par, size_t type, const V& eps, const std::vector<size_t>& ops, bool tang) { return hist<NAME##_qp<T, 2>, 2>(par, type, eps, ops, tang); } \
V NAME##_3(const V& par, size_t type, const V& eps, const std::vector<size_t>& ops, bool tang) { return hist<NAME##_qp<T, 3>, 3>(par, type, eps, ops, tang); }
LAW(LinearElasticity) LAW(LinearLaw) LAW(HenckyMises) LAW(Neohookean) LAW(Cavitation) LAW(LinearIsotropicAndKinematicHardening) LAW(IsotropicHardeningVMis)
#define ENERGY(NAME) \
V NAME##_en_2(const V& par, size_t type, const V& F) { NAME##_qp<T, 2> l(point<T, 2>(), 1.0); auto d = md(par, type); l.compute_whole(mat<2>(F), d, false); return V{ l.compute_energy(d) }; } \
V NAME##_en_3(const V& par, size_t type, const V& F) { NAME##_qp<T, 3> l(point<T, 3>(), 1.0); auto d = md(par, type); l.compute_whole(mat<3>(F), d, false); return V{ l.compute_energy(d) }; } \
V NAME##_prev_3(const V& par, size_t type, const V& F) { NAME##_qp<T, 3> l(point<T, 3>(), 1.0); auto d = md(par, type); l.compute_whole(mat<3>(F), d, false); l.update(); return flat(l.compute_stressPrev3D(d)); }
ENERGY(Neohookean) ENERGY(Cavitation)
#define PREV(NAME) \
V NAME##_sp_2(const V& par, const V& eps) { NAME##_qp<T, 2> l(point<T, 2>(), 1.0); auto d = md(par, 0); l.compute_whole(mat<2>(eps), d, false); l.update(); l.compute_whole(mat<2>(eps, 4), d, false); \
    auto r = flat(l.compute_stressPrev(d)); auto s = flat(l.compute_stress3DPrev(d)); auto t = flat(l.compute_stress3D(d)); r.insert(r.end(), s.begin(), s.end()); r.insert(r.end(), t.begin(), t.end()); return r; } \
V NAME##_sp_3(const V& par, const V& eps) { NAME##_qp<T, 3> l(point<T, 3>(), 1.0); auto d = md(par, 0); l.compute_whole(mat<3>(eps), d, false); l.update(); l.compute_whole(mat<3>(eps, 9), d, false); \
    auto r = flat(l.compute_stressPrev(d)); auto s = flat(l.compute_stress3DPrev(d)); auto t = flat(l.compute_stress3D(d)); r.insert(r.end(), s.begin(), s.end()); r.insert(r.end(), t.begin(), t.end()); return r; }
PREV(LinearElasticity) PREV(LinearIsotropicAndKinematicHardening) PREV(IsotropicHardeningVMis)
V matpar(const T& E, const T& nu, const T& ET, const T& K)
{ MaterialData<T> d; d.setMu(E, nu); d.setLambda(E, nu); d.setK(K); d.setH(E, ET, K); d.setSigma_y0(E); d.setType(3);
  return V{ d.getLambda(), d.getMu(), d.getE(), d.getNu(), d.getET(), d.getH(), d.getK(), d.getSigma_y0(), T(d.getType()) }; }
V matset(const T& l, const T& mu, const T& H) { MaterialData<T> d; d.setMu(mu); d.setLambda(l); d.setH(H); return V{ d.getLambda(), d.getMu(), d.getH(), d.getK(), d.getE(), d.getNu() }; }
V curve(const V& c) { MaterialData<T> d; for (size_t i = 0; i + 1 < c.size(); i += 2) d.addCurvePoint(c[i], c[i + 1]); d.checkRpCurve(); V r; for (auto& p : d.getRpCurve()) { r.push_back(p.getP()); r.push_back(p.getRp()); } return r; }
// ---- logarithmic strain
V logp(const V& s, const V& F, const V& lam, const V& Q, bool tl)
{ static_vector<T, 3> l; for (int i = 0; i < 3; i++) l(i) = lam[i]; auto p = compute_projector(mat<3>(F), mat<3>(s), l, mat<3>(Q), tl);
  auto r = tflat<3>(p.first); auto t = tflat<3>(p.second); r.insert(r.end(), t.begin(), t.end()); return r; }
V logp2(const V& s, const V& lam, const V& Q, bool tl)
{ static_vector<T, 3> l; for (int i = 0; i < 3; i++) l(i) = lam[i]; auto p = compute_projector_PK2(mat<3>(s), l, mat<3>(Q), tl);
  auto r = tflat<3>(p.first); auto t = tflat<3>(p.second); r.insert(r.end(), t.begin(), t.end()); return r; }
V elog(const V& lam, const V& Q) { static_vector<T, 3> l; for (int i = 0; i < 3; i++) l(i) = lam[i]; return flat(compute_Elog(l, mat<3>(Q))); }
#define LOG(N) V logw_##N(const V& par, const V& F) { LogarithmicStrain_qp<LinearElasticity_qp<T, N>> l(point<T, N>(), 1.0); auto d = md(par, 0); auto w = l.compute_whole(mat<N>(F), d, true); \
    auto r = flat(w.first); auto t = tflat<N>(w.second); r.insert(r.end(), t.begin(), t.end()); auto s = flat(l.compute_stress(d)); r.insert(r.end(), s.begin(), s.end()); return r; }
LOG(2) LOG(3)
// ---- time steps
static V dump(const ListOfTimeStep<T>& c)
{
    V r; ListOfTimeStep<T> l = c;
    r.push_back(T(l.numberOfTimeStep())); r.push_back(T(l.numberOfRemainingTimeStep())); r.push_back(T(l.numberOfTimeStepRealized())); r.push_back(T(l.indexOfCurrentTimeStep())); r.push_back(l.empty() ? 1. : 0.);
    while (!l.empty()) { auto s = l.getCurrentTimeStep(); r.push_back(s.start_time()); r.push_back(s.end_time()); r.push_back(s.increment_time()); r.push_back(T(s.level())); l.removeCurrentTimeStep(); }
    return r;
}
static void play(ListOfTimeStep<T>& l, const std::vector<size_t>& ops) { for (auto o : ops) { if (o) l.splitCurrentTimeStep(); else l.removeCurrentTimeStep(); } }
V time1(const T& end, size_t n, const std::vector<size_t>& ops) { ListOfTimeStep<T> l(end, n); play(l, ops); return dump(l); }
V time2(const V& t, const std::vector<size_t>& n, const std::vector<size_t>& ops)
{ std::vector<std::pair<T, size_t>> v; for (size_t i = 0; i < t.size(); i++) v.push_back(std::make_pair(t[i], n[i])); ListOfTimeStep<T> l(v); play(l, ops); return dump(l); }
V time3(const V& t, const std::vector<size_t>& n, const T& fin, const std::vector<size_t>& ops)
{ std::vector<std::pair<T, size_t>> v; for (size_t i = 0; i < t.size(); i++) v.push_back(std::make_pair(t[i], n[i])); ListOfTimeStep<T> l(v, fin); play(l, ops); return dump(l); }
V time0() { return dump(ListOfTimeStep<T>()); }
