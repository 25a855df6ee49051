// what the mesh generators produce
#include "meshes.hpp"
#include "diskpp/mesh/meshgen.hpp"
#include "diskpp/mesh/mesh_hierarchy.hpp"
#include <vector>
using V = std::vector<size_t>;
using VV = std::vector<V>;
template<int D> struct Dump { V n; VV fcs; VV cls; std::vector<disk::point<double,D>> pts; };

template<typename M> Dump<M::dimension> dump(M& m)
{
    Dump<M::dimension> d;
    auto s = m.backend_storage();
    d.n.push_back(s->points.size()); d.n.push_back(s->nodes.size());
    d.n.push_back(m.faces_size()); d.n.push_back(s->boundary_info.size());
    d.n.push_back(m.cells_size()); d.n.push_back(s->subdomain_info.size());
    for (auto f : faces(m))
    {
        V r;
        r.push_back(size_t(m.lookup(f)));
        r.push_back(m.is_boundary(f)); r.push_back(m.boundary_info(f).id()); r.push_back(m.boundary_info(f).is_internal());
        auto ids = f.point_ids();
        for (auto& p : ids) r.push_back(size_t(p));
        d.fcs.push_back(r);
    }
    for (auto c : cells(m))
    {
        V r;
        r.push_back(size_t(m.lookup(c))); r.push_back(m.domain_info(c).id());
        auto fs = faces(m, c);
        r.push_back(fs.size());
        for (auto& f : fs) r.push_back(size_t(m.lookup(f)));
        auto ids = c.point_ids();
        for (auto& p : ids) r.push_back(size_t(p));
        d.cls.push_back(r);
    }
    auto pp = points(m);
    for (auto& p : pp) d.pts.push_back(p);
    return d;
}
template<typename M> Dump<M::dimension> gen(size_t refines)
{
    M m;
    auto g = make_simple_mesher(m);
    for (size_t i = 0; i < refines; i++) g.refine();
    return dump(m);
}
// the same, with the vertices of the initial mesh moved to given places
template<typename M> Dump<M::dimension> moved(const std::vector<typename M::point_type>& to, size_t refines)
{
    M m;
    auto g = make_simple_mesher(m);
    auto s = m.backend_storage();
    for (size_t i = 0; i < to.size(); i++) s->points.at(i) = to[i];
    for (size_t i = 0; i < refines; i++) g.refine();
    return dump(m);
}
#define G(NAME, M) auto gen_##NAME(size_t r) { return gen<M>(r); } \
    auto moved_##NAME(const std::vector<typename M::point_type>& to, size_t r) { return moved<M>(to, r); }
G(s2, S2)
G(s3, S3)
G(c2, C2)
auto gen_hex(size_t level)
{
    G2 m;
    auto g = make_fvca5_hex_mesher(m);
    g.make_level(level);
    return dump(m);
}
auto single_g1(double a, double b) { G1 m; make_single_element_mesh(m, a, b); return dump(m); }
auto single_s2(const P2& a, const P2& b, const P2& c) { S2 m; make_single_element_mesh(m, a, b, c); return dump(m); }
auto single_s3(const P3& a, const P3& b, const P3& c, const P3& d) { S3 m; make_single_element_mesh(m, a, b, c, d); return dump(m); }
auto single_c2(const P2& a, double hx, double hy) { C2 m; make_single_element_mesh(m, a, hx, hy); return dump(m); }
auto single_c3(const P3& a, double hx, double hy, double hz) { C3 m; make_single_element_mesh(m, a, hx, hy, hz); return dump(m); }
auto single_g2(double radius, size_t n) { G2 m; make_single_element_mesh(m, radius, n); return dump(m); }
// hierarchies of refined triangular meshes
S2 start(size_t refines)
{
    S2 m;
    auto g = make_simple_mesher(m);
    for (size_t i = 0; i < refines; i++) g.refine();
    auto s = m.backend_storage();
    for (size_t i = 0; i < s->subdomain_info.size(); i++) s->subdomain_info[i] = subdomain_descriptor(10 + i);
    return m;
}
auto hier_dump(size_t refines, size_t levels, size_t level)
{
    mesh_hierarchy<T> h(start(refines), levels);
    auto m = *std::next(h.meshes_begin(), level);
    return dump(m);
}
V hier_sizes(size_t refines, size_t levels)
{
    mesh_hierarchy<T> h(start(refines), levels);
    V r;
    r.push_back(h.meshes_size()); r.push_back(h.coarsest_mesh().cells_size()); r.push_back(h.finest_mesh().cells_size());
    for (auto it = h.meshes_begin(); it != h.meshes_end(); it++) r.push_back(it->cells_size());
    return r;
}
V hier_locate(size_t refines, size_t levels, size_t level, const std::vector<P2>& pts)
{
    mesh_hierarchy<T> h(start(refines), levels);
    V r;
    for (auto& p : pts) r.push_back(h.locate_point(p, level));
    return r;
}
V hier_rebuilt(size_t levels1, size_t levels2, const std::vector<P2>& pts)
{
    mesh_hierarchy<T> h(start(0), levels1);
    h.build_hierarchy(start(1), levels2);
    V r;
    r.push_back(h.meshes_size());
    for (auto& p : pts) r.push_back(h.locate_point(p, levels2));
    return r;
}
// hierarchies of meshes given by their triangles, their edges and the number of each edge on the boundary
auto hier_tris(const std::vector<P2>& pts, const V& tri, const V& edg, const V& bnd, const V& ids, size_t levels, size_t level)
{
    S2 m; set_points(m, pts);
    auto s = m.backend_storage();
    using e = S2::face; using c = S2::cell;
    auto P = [](size_t i) { return point_identifier<2>(i); };
    for (size_t i = 0; i + 2 < tri.size(); i += 3) s->surfaces.push_back(c({P(tri[i]), P(tri[i+1]), P(tri[i+2])}));
    for (size_t i = 0; i + 1 < edg.size(); i += 2) s->edges.push_back(e({P(edg[i]), P(edg[i+1])}));
    s->boundary_info.resize(s->edges.size()); s->subdomain_info.resize(s->surfaces.size());
    for (size_t i = 0; i < bnd.size(); i++) if (bnd[i]) { boundary_descriptor b(ids[i], true); b.is_internal(bnd[i] == 2); s->boundary_info[i] = b; }
    for (size_t i = 0; i < s->subdomain_info.size(); i++) s->subdomain_info[i] = subdomain_descriptor(10 + i);
    if (level == 0 && levels == 0) return dump(m);
    mesh_hierarchy<T> h(m, levels);
    auto r = *std::next(h.meshes_begin(), level);
    return dump(r);
}
