// predicates, bounding boxes, axes; point and rational arithmetic
#include "../src/simplex_gm_rule.cpp"
#include "../src/tetrahedron_arbq_rule.cpp"
#include "../src/jb_common.cpp"
#include "meshes.hpp"
#include "diskpp/mesh/rational.hpp"
using V = std::vector<size_t>;
#define WRAP(NAME, MESH, MK, PT) \
auto NAME##_widths(const std::vector<PT>& p) { auto m = MK(p); return diameters(m, *m.cells_begin()); } \
auto NAME##_fwidths(const std::vector<PT>& p, size_t i) { auto m = MK(p); return diameters(m, *std::next(m.faces_begin(), i)); } \
auto NAME##_bbbar(const std::vector<PT>& p) { auto m = MK(p); return bb_barycenter(m, *m.cells_begin()); } \
auto NAME##_fbbbar(const std::vector<PT>& p, size_t i) { auto m = MK(p); return bb_barycenter(m, *std::next(m.faces_begin(), i)); } \
auto NAME##_box(const std::vector<PT>& p) { auto m = MK(p); return diameter_boundingbox(m, *m.cells_begin()); } \
auto NAME##_boxax(const std::vector<PT>& p, const static_matrix<T, MESH::dimension, MESH::dimension>& a) { auto m = MK(p); return diameter_boundingbox(m, *m.cells_begin(), a); } \
auto NAME##_fbox(const std::vector<PT>& p, size_t i) { auto m = MK(p); return diameter_boundingbox(m, *std::next(m.faces_begin(), i)); } \
auto NAME##_fpts(const std::vector<PT>& p, size_t i) { auto m = MK(p); return points(m, *std::next(m.faces_begin(), i)); } \
size_t NAME##_nf(const std::vector<PT>& p) { auto m = MK(p); return m.faces_size(); } \
T NAME##_avg(const std::vector<PT>& p) { auto m = MK(p); return average_diameter(m); }
#define AXES(NAME, MESH, MK, PT) \
auto NAME##_inertia(const std::vector<PT>& p) { auto m = MK(p); return inertia_axes(m, *m.cells_begin()); } \
auto NAME##_scaled(const std::vector<PT>& p) { auto m = MK(p); return scaled_inertia_axes(m, *m.cells_begin()); } \
auto NAME##_local(const std::vector<PT>& p) { auto m = MK(p); return element_local_axes(m, *m.cells_begin()); }
static G3 mk_tet(const std::vector<P3>& p) { return mk_g3(p, {{0,2,1},{0,1,3},{1,2,3},{0,3,2}}); }
WRAP(s2, S2, mk_s2, P2)
WRAP(s3, S3, mk_s3, P3)
WRAP(c2, C2, mk_c2, P2)
WRAP(c3, C3, mk_c3, P3)
WRAP(g1, G1, mk_g1, P1)
WRAP(g2, G2, mk_g2, P2)
WRAP(gt, G3, mk_tet, P3)
AXES(s2, S2, mk_s2, P2)
AXES(s3, S3, mk_s3, P3)
AXES(c2, C2, mk_c2, P2)
AXES(c3, C3, mk_c3, P3)
AXES(g2, G2, mk_g2, P2)
T star_avg(const std::vector<P2>& p) { auto m = mk_star(p); return average_diameter(m); }
T two_avg(const std::vector<P3>& p) { auto m = mk_two(p); return average_diameter(m); }
V s2_inside(const std::vector<P2>& p, const std::vector<P2>& q) { auto m = mk_s2(p); V r; for (auto& x : q) r.push_back(is_inside(m, *m.cells_begin(), x)); return r; }
V g2_inside(const std::vector<P2>& p, const std::vector<P2>& q) { auto m = mk_g2(p); V r; for (auto& x : q) r.push_back(is_inside(m, *m.cells_begin(), x)); return r; }
V s3_inside(const std::vector<P3>& p, const std::vector<P3>& q) { auto m = mk_s3(p); V r; for (auto& x : q) r.push_back(is_inside(m, *m.cells_begin(), x)); return r; }
bool g2_convex(const std::vector<P2>& p) { auto m = mk_g2(p); return is_convex(m, *m.cells_begin()); }

#define PT(N, P) \
auto pt_add##N(const P& a, const P& b) { return a + b; } \
auto pt_sub##N(const P& a, const P& b) { return a - b; } \
auto pt_neg##N(const P& a) { return -a; } \
auto pt_mul##N(const P& a, T s) { return a * s; } \
auto pt_lmul##N(const P& a, T s) { return s * a; } \
auto pt_div##N(const P& a, T s) { return a / s; } \
T pt_dist##N(const P& a, const P& b) { return distance(a, b); } \
auto pt_mid##N(const P& a, const P& b) { return midpoint(a, b); } \
auto pt_vec##N(const P& a) { return a.to_vector(); } \
auto pt_fvec##N(const P& a) { return to_vector(a); } \
auto pt_fromvec##N(const static_vector<T, N>& v) { return P(v); } \
auto pt_addvec##N(const P& a, const static_vector<T, N>& v) { return a + v; } \
auto pt_vecadd##N(const P& a, const static_vector<T, N>& v) { return v + a; } \
auto pt_copy##N(const P& a) { P b; b = a; P c(b); b.set_all(7.0); return c; } \
auto pt_setall##N(const P& a, T s) { P b = a; b.set_all(s); return b; } \
auto pt_assign##N(const P& a, const P& b) { P c(a); c = b; return c; } \
auto pt_set##N(const P& a, size_t i, T s) { P b = a; b[i] = s; return b; } \
auto pt_setat##N(const P& a, size_t i, T s) { P b = a; b.at(i) = s; return b; } \
T pt_get##N(const P& a, size_t i) { return a[i]; } \
T pt_getat##N(const P& a, size_t i) { return a.at(i); } \
auto pt_zero##N() { return P(); }
PT(1, P1)
PT(2, P2)
PT(3, P3)
auto pt_list1(T x) { return P1({x}); }
auto pt_list2(T x, T y) { return P2({x, y}); }
auto pt_list3(T x, T y, T z) { return P3({x, y, z}); }
auto pt_make1(T x) { return P1(x); }
auto pt_make2(T x, T y) { return P2(x, y); }
auto pt_make3(T x, T y, T z) { return P3(x, y, z); }
auto pt_xyz3(const P3& a) { P3 b; b.x() = a.x(); b.y() = a.y(); b.z() = a.z(); return b; }
auto pt_xyz2(const P2& a) { P2 b; b.x() = a.x(); b.y() = a.y(); return b; }
auto pt_xyz1(const P1& a) { P1 b; b.x() = a.x(); return b; }
T pt_det(const P2& a, const P2& b) { return det(a, b); }

using R = rational<int>;
static std::vector<int> nd(const R& r) { std::vector<int> v; v.push_back(r.num()); v.push_back(r.den()); return v; }
auto r_make(int a, int b) { return nd(R(a, b)); }
auto r_int(int a) { return nd(R(a)); }
auto r_simp(int a, int b) { R r(a, b); r.simplify(); return nd(r); }
auto r_add(int a, int b, int c, int d) { return nd(R(a, b) + R(c, d)); }
auto r_sub(int a, int b, int c, int d) { return nd(R(a, b) - R(c, d)); }
auto r_mul(int a, int b, int c, int d) { return nd(R(a, b) * R(c, d)); }
auto r_div(int a, int b, int c, int d) { return nd(R(a, b) / R(c, d)); }
auto r_muli(int a, int b, int c) { return nd(R(a, b) * c); }
auto r_divi(int a, int b, int c) { return nd(R(a, b) / c); }
auto r_neg(int a, int b) { return nd(-R(a, b)); }
auto r_abs(int a, int b) { return nd(abs(R(a, b))); }
auto r_inv(int a, int b) { return nd(inv(R(a, b))); }
auto r_chain(int a, int b, int c, int d) { R r(a, b); r += R(c, d); r *= R(c, d); r -= R(a, b); r /= R(c, d); r *= 3; r /= 2; return nd(r); }
bool r_lt(int a, int b, int c, int d) { return R(a, b) < R(c, d); }
bool r_le(int a, int b, int c, int d) { return R(a, b) <= R(c, d); }
bool r_gt(int a, int b, int c, int d) { return R(a, b) > R(c, d); }
bool r_ge(int a, int b, int c, int d) { return R(a, b) >= R(c, d); }
double r_dbl(int a, int b) { return double(R(a, b)); }
int r_gcd(int a, int b) { return disk::gcd(a, b); }
int r_lcm(int a, int b) { return disk::lcm(a, b); }
