// instantiates every reference-element quadrature rule of the library
// the tables live in separately compiled sources; they are analysed as part of this unit
#include "../src/simplex_gm_rule.cpp"
#include "../src/tetrahedron_arbq_rule.cpp"
#include "../src/jb_common.cpp"
#include "diskpp/loaders/loader.hpp"
#include "diskpp/quadratures/quadratures.hpp"
#include "diskpp/quadratures/bits/quad_raw_gauss_lobatto.hpp"
using namespace disk;
using T = double;
using P1 = point<T,1>; using P2 = point<T,2>; using P3 = point<T,3>;
template<size_t D> using QS = std::vector<quadrature_point<T,D>>;
constexpr int qmax_gauss = QUAD_RAW_GAUSS_LEGENDRE_MAX_ORDER;
constexpr int qmax_trigauss = QUAD_RAW_TRIANGLE_GAUSS_MAX_ORDER;
QS<2> q_dunavant(size_t d, const P2& a, const P2& b, const P2& c) { return quadrature::dunavant(d,a,b,c); }
QS<3> q_dunavant3(size_t d, const P3& a, const P3& b, const P3& c) { return quadrature::dunavant(d,a,b,c); }
QS<2> q_trigauss(size_t d, const P2& a, const P2& b, const P2& c) { return quadrature::triangle_gauss(d,a,b,c); }
QS<3> q_trigauss3(size_t d, const P3& a, const P3& b, const P3& c) { return quadrature::triangle_gauss(d,a,b,c); }
QS<2> q_gm2(size_t d, const P2& a, const P2& b, const P2& c) { return quadrature::grundmann_moeller(d,a,b,c); }
QS<3> q_arbq(size_t d, const P3& a, const P3& b, const P3& c, const P3& e) { return quadrature::arbq(d,a,b,c,e); }
QS<3> q_deftet(size_t d, const P3& a, const P3& b, const P3& c, const P3& e) { return quadrature::default_tetrahedron_quadrature(d,a,b,c,e); }
QS<3> q_gm3(size_t d, const P3& a, const P3& b, const P3& c, const P3& e) { return quadrature::grundmann_moeller(d,a,b,c,e); }
QS<1> q_gl1(size_t d, const T& a, const T& b) { return quadrature::gauss_legendre(d,a,b); }
QS<1> q_gl1p(size_t d, const P1& a, const P1& b) { return quadrature::gauss_legendre(d,a,b); }
QS<2> q_gl2(size_t d, const P2& a, const P2& b) { return quadrature::gauss_legendre(d,a,b); }
QS<3> q_gl3(size_t d, const P3& a, const P3& b) { return quadrature::gauss_legendre(d,a,b); }
QS<1> q_lob1(size_t d, const T& a, const T& b) { return quadrature::gauss_lobatto(d,a,b); }
QS<1> q_lob1p(size_t d, const P1& a, const P1& b) { return quadrature::gauss_lobatto(d,a,b); }
QS<2> q_lob2(size_t d, const P2& a, const P2& b) { return quadrature::gauss_lobatto(d,a,b); }
QS<2> q_tens2(size_t d, const P2& a, const P2& b, const P2& c, const P2& e) { return quadrature::tensorized_gauss_legendre(d,a,b,c,e); }
QS<3> q_tens3f(size_t d, const P3& a, const P3& b, const P3& c, const P3& e) { return quadrature::tensorized_gauss_legendre(d,a,b,c,e); }
QS<3> q_tens3(size_t d, const std::array<P3,8>& p) { return quadrature::tensorized_gauss_legendre(d,p); }
std::vector<std::pair<P1,T>> q_edge(size_t d) { return disk::edge_quadrature<T>(d); }
