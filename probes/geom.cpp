#include "../src/simplex_gm_rule.cpp"
#include "../src/tetrahedron_arbq_rule.cpp"
#include "../src/jb_common.cpp"
#include "meshes.hpp"
#define WRAP(NAME, MESH, MK, PT) \
T NAME##_cmeas(const std::vector<PT>& p) { auto m = MK(p); return measure(m, *m.cells_begin()); } \
T NAME##_fmeas(const std::vector<PT>& p, size_t i) { auto m = MK(p); return measure(m, *std::next(m.faces_begin(), i)); } \
PT NAME##_cbar(const std::vector<PT>& p) { auto m = MK(p); return barycenter(m, *m.cells_begin()); } \
PT NAME##_fbar(const std::vector<PT>& p, size_t i) { auto m = MK(p); return barycenter(m, *std::next(m.faces_begin(), i)); } \
T NAME##_cdiam(const std::vector<PT>& p) { auto m = MK(p); return diameter(m, *m.cells_begin()); } \
T NAME##_fdiam(const std::vector<PT>& p, size_t i) { auto m = MK(p); return diameter(m, *std::next(m.faces_begin(), i)); } \
auto NAME##_normal(const std::vector<PT>& p, size_t i) { auto m = MK(p); return normal(m, *m.cells_begin(), faces(m, *m.cells_begin())[i]); } \
auto NAME##_cquad(const std::vector<PT>& p, size_t d) { auto m = MK(p); return integrate(m, *m.cells_begin(), d); } \
auto NAME##_fquad(const std::vector<PT>& p, size_t i, size_t d) { auto m = MK(p); return integrate(m, *std::next(m.faces_begin(), i), d); } \
auto NAME##_fpts(const std::vector<PT>& p, size_t i) { auto m = MK(p); return points(m, *std::next(m.faces_begin(), i)); } \
auto NAME##_cfpts(const std::vector<PT>& p, size_t i) { auto m = MK(p); return points(m, faces(m, *m.cells_begin())[i]); } \
size_t NAME##_nfaces(const std::vector<PT>& p) { auto m = MK(p); return howmany_faces(m, *m.cells_begin()); } \
size_t NAME##_nfaces2(const std::vector<PT>& p) { auto m = MK(p); return faces(m, *m.cells_begin()).size(); } \
auto NAME##_fids(const std::vector<PT>& p) { auto m = MK(p); return faces_id(m, *m.cells_begin()); }
static G3 mk_tet(const std::vector<P3>& p) { return mk_g3(p, {{0,2,1},{0,1,3},{1,2,3},{0,3,2}}); }
static G3 mk_cube(const std::vector<P3>& p) { return mk_g3(p, {{0,3,2,1},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}); }
static G3 mk_prism5(const std::vector<P3>& p) { return mk_g3(p, {{4,3,2,1,0},{5,6,7,8,9},{0,1,6,5},{1,2,7,6},{2,3,8,7},{3,4,9,8},{4,0,5,9}}); }
WRAP(s2, S2, mk_s2, P2)
WRAP(s3, S3, mk_s3, P3)
WRAP(c2, C2, mk_c2, P2)
WRAP(c3, C3, mk_c3, P3)
WRAP(g1, G1, mk_g1, P1)
WRAP(g2, G2, mk_g2, P2)
WRAP(gt, G3, mk_tet, P3)
WRAP(gc, G3, mk_cube, P3)
static G3 mk_prismh(const std::vector<P3>& p) { return mk_g3(p, {{0,1,2,3,4},{7,6,5,9,8},{0,1,2,7,6,5},{2,3,8,7},{3,4,9,8},{4,0,5,9}}); }
WRAP(gp, G3, mk_prism5, P3)
WRAP(gf, G3, mk_prismh, P3)
T f_kahan2(const P2& a, const P2& b, const P2& c) { return area_triangle_kahan(a, b, c); }
T f_kahan3(const P3& a, const P3& b, const P3& c) { return area_triangle_kahan(a, b, c); }
T f_tet(const P3& a, const P3& b, const P3& c, const P3& d) { return volume_tetrahedron_kahan(a, b, c, d); }
