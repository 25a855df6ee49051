// single-element meshes used by the probes; everything goes through the library's own storage and element classes
#pragma once
#include "diskpp/loaders/loader.hpp"
#include "diskpp/mesh/meshgen.hpp"
#include "diskpp/geometry/geometry.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace disk;
using T = double;
using P1 = point<T,1>; using P2 = point<T,2>; using P3 = point<T,3>;
using S2 = simplicial_mesh<T,2>; using S3 = simplicial_mesh<T,3>;
using C2 = cartesian_mesh<T,2>;  using C3 = cartesian_mesh<T,3>;
using G1 = generic_mesh<T,1>; using G2 = generic_mesh<T,2>; using G3 = generic_mesh<T,3>;

template<typename M> void set_points(M& msh, const std::vector<typename M::point_type>& p)
{
    auto s = msh.backend_storage();
    s->points = p;
    for (size_t i = 0; i < p.size(); i++)
        s->nodes.push_back(typename M::node_type({point_identifier<M::dimension>(i)}));
}

inline S2 mk_s2(const std::vector<P2>& p)
{
    S2 m; set_points(m, p);
    auto s = m.backend_storage();
    using e = S2::face; using c = S2::cell;
    s->edges = { e({0,1}), e({0,2}), e({1,2}) };
    s->surfaces = { c({0,1,2}) };
    s->boundary_info.resize(3); s->subdomain_info.resize(1);
    return m;
}
// four triangles around node 4; boundary edges 01, 03, 12, 23 with the given boundary ids
inline S2 mk_star(const std::vector<P2>& p, const std::vector<size_t>& ids = {0, 1, 2, 3})
{
    S2 m; set_points(m, p);
    auto s = m.backend_storage();
    using e = S2::face; using c = S2::cell;
    s->edges = { e({0,1}), e({0,3}), e({0,4}), e({1,2}), e({1,4}), e({2,3}), e({2,4}), e({3,4}) };
    s->surfaces = { c({0,1,4}), c({0,3,4}), c({1,2,4}), c({2,3,4}) };
    s->boundary_info.resize(8); s->subdomain_info.resize(4);
    s->boundary_info[0] = boundary_descriptor(ids[0], true); s->boundary_info[1] = boundary_descriptor(ids[1], true);
    s->boundary_info[3] = boundary_descriptor(ids[2], true); s->boundary_info[5] = boundary_descriptor(ids[3], true);
    return m;
}
// two tetrahedra on both sides of the face 012, the other faces on the boundary
inline S3 mk_two(const std::vector<P3>& p, const std::vector<size_t>& ids = {0, 1, 2, 3, 4, 5})
{
    S3 m; set_points(m, p);
    auto s = m.backend_storage();
    using e = S3::edge_type; using f = S3::face; using c = S3::cell;
    s->edges = { e({0,1}), e({0,2}), e({0,3}), e({0,4}), e({1,2}), e({1,3}), e({1,4}), e({2,3}), e({2,4}) };
    s->surfaces = { f({0,1,2}), f({0,1,3}), f({0,1,4}), f({0,2,3}), f({0,2,4}), f({1,2,3}), f({1,2,4}) };
    s->volumes = { c({0,1,2,3}), c({0,1,2,4}) };
    s->boundary_info.resize(7); s->subdomain_info.resize(2);
    for (size_t i = 1; i < 7; i++) s->boundary_info[i] = boundary_descriptor(ids[i-1], true);
    return m;
}
inline S3 mk_s3(const std::vector<P3>& p)
{
    S3 m; set_points(m, p);
    auto s = m.backend_storage();
    using e = S3::edge_type; using f = S3::face; using c = S3::cell;
    s->edges = { e({0,1}), e({0,2}), e({0,3}), e({1,2}), e({1,3}), e({2,3}) };
    s->surfaces = { f({0,1,2}), f({0,1,3}), f({0,2,3}), f({1,2,3}) };
    s->volumes = { c({0,1,2,3}) };
    s->boundary_info.resize(4); s->subdomain_info.resize(1);
    return m;
}
// cartesian numbering: x fastest
inline C2 mk_c2(const std::vector<P2>& p)
{
    C2 m; set_points(m, p);
    auto s = m.backend_storage();
    using e = C2::face; using c = C2::cell;
    s->edges = { e({0,1}), e({0,2}), e({1,3}), e({2,3}) };
    s->surfaces = { c({0,1,2,3}) };
    s->boundary_info.resize(4); s->subdomain_info.resize(1);
    return m;
}
inline C3 mk_c3(const std::vector<P3>& p)
{
    C3 m; set_points(m, p);
    auto s = m.backend_storage();
    using f = C3::face; using c = C3::cell;
    s->volumes = { c({0,1,2,3,4,5,6,7}) };
    for (auto& fc : faces(m, s->volumes[0])) s->surfaces.push_back(fc);
    std::sort(s->surfaces.begin(), s->surfaces.end());
    s->boundary_info.resize(6); s->subdomain_info.resize(1);
    return m;
}
inline G1 mk_g1(const std::vector<P1>& p)
{
    G1 m; 
    auto s = m.backend_storage();
    s->points = p;
    for (size_t i = 0; i < p.size(); i++) s->nodes.push_back(G1::node_type(point_identifier<1>(i)));
    s->edges.push_back(G1::edge_type(G1::node_type::id_type(0), G1::node_type::id_type(1)));
    s->boundary_info.resize(2); s->subdomain_info.resize(1);
    return m;
}
inline G2 mk_g2(const std::vector<P2>& p)
{
    G2 m;
    auto s = m.backend_storage();
    s->points = p;
    size_t n = p.size();
    for (size_t i = 0; i < n; i++) s->nodes.push_back(G2::node_type(point_identifier<2>(i)));
    using nid = G2::node_type::id_type; using eid = G2::edge_type::id_type;
    s->edges.push_back(G2::edge_type(nid(0), nid(1)));
    s->edges.push_back(G2::edge_type(nid(0), nid(n-1)));
    for (size_t i = 1; i + 1 < n; i++) s->edges.push_back(G2::edge_type(nid(i), nid(i+1)));
    std::vector<eid> ids; std::vector<point_identifier<2>> pids;
    for (size_t i = 0; i < n; i++) { ids.push_back(eid(i)); pids.push_back(point_identifier<2>(i)); }
    G2::cell c(ids);
    c.set_point_ids(pids.begin(), pids.end());
    s->surfaces.push_back(c);
    s->boundary_info.resize(n); s->subdomain_info.resize(1);
    return m;
}
// a polyhedron given by its points and the point lists of its faces
inline G3 mk_g3(const std::vector<P3>& p, const std::vector<std::vector<size_t>>& fl)
{
    G3 m;
    auto s = m.backend_storage();
    s->points = p;
    for (size_t i = 0; i < p.size(); i++) s->nodes.push_back(G3::node_type(point_identifier<3>(i)));
    using nid = G3::node_type::id_type; using eid = G3::edge_type::id_type; using fid = G3::face::id_type;
    std::vector<fid> fids;
    for (size_t k = 0; k < fl.size(); k++) {
        std::vector<eid> ids; std::vector<point_identifier<3>> pids;
        for (size_t i = 0; i < fl[k].size(); i++) { ids.push_back(eid(100*k+i)); pids.push_back(point_identifier<3>(fl[k][i])); }
        G3::face f(ids);
        f.set_point_ids(pids.begin(), pids.end());
        s->surfaces.push_back(f);
        fids.push_back(fid(k));
    }
    std::vector<point_identifier<3>> pids;
    for (size_t i = 0; i < p.size(); i++) pids.push_back(point_identifier<3>(i));
    G3::cell c(fids);
    c.set_point_ids(pids.begin(), pids.end());
    s->volumes.push_back(c);
    s->boundary_info.resize(fl.size()); s->subdomain_info.resize(1);
    return m;
}
