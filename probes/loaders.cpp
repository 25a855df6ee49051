// what the loaders make of a mesh file
#include "meshes.hpp"
#include "diskpp/loaders/loader.hpp"
#include <vector>
using V = std::vector<size_t>;
using VV = std::vector<V>;
template<int D> struct Dump { V n; VV fcs; VV eds; VV cls; std::vector<disk::point<double,D>> pts; };

template<typename M> Dump<M::dimension> dump(M& m, bool ok)
{
    Dump<M::dimension> d;
    auto s = m.backend_storage();
    d.n.push_back(ok);
    d.n.push_back(s->points.size()); d.n.push_back(s->nodes.size());
    d.n.push_back(m.faces_size()); d.n.push_back(s->boundary_info.size());
    d.n.push_back(m.cells_size()); d.n.push_back(s->subdomain_info.size());
    for (auto f : faces(m))
    {
        V r;
        r.push_back(size_t(m.lookup(f)));
        r.push_back(m.is_boundary(f)); r.push_back(m.boundary_info(f).id()); r.push_back(m.boundary_info(f).is_internal());
        auto ids = f.point_ids();
        for (auto& p : ids) r.push_back(size_t(p));
        d.fcs.push_back(r);
    }
    if constexpr (M::dimension == 3)
        for (auto& e : s->edges)
        {
            V r;
            auto ids = e.point_ids();
            for (auto& p : ids) r.push_back(size_t(p));
            d.eds.push_back(r);
        }
    for (auto c : cells(m))
    {
        V r;
        r.push_back(size_t(m.lookup(c))); r.push_back(m.domain_info(c).id());
        auto fs = faces(m, c);
        r.push_back(fs.size());
        for (auto& f : fs) r.push_back(size_t(m.lookup(f)));
        auto ids = c.point_ids();
        for (auto& p : ids) r.push_back(size_t(p));
        d.cls.push_back(r);
    }
    auto pp = points(m);
    for (auto& p : pp) d.pts.push_back(p);
    return d;
}
#define LOAD(NAME, M, F) auto load_##NAME(const char* f) { M m; bool ok = disk::F(f, m); return dump(m, ok); } \
    bool only_##NAME(const char* f) { M m; return disk::F(f, m); }
LOAD(netgen2, S2, load_mesh_netgen)
LOAD(netgen3, S3, load_mesh_netgen)
LOAD(quad, C2, load_mesh_diskpp_cartesian)
LOAD(hex, C3, load_mesh_diskpp_cartesian)
LOAD(fvca5, G2, load_mesh_fvca5_2d)
LOAD(fvca6, G3, load_mesh_fvca6_3d)
LOAD(poly2, G2, load_mesh_poly)
LOAD(poly3, G3, load_mesh_poly)
LOAD(medit2, G2, load_mesh_medit)
LOAD(medit3, G3, load_mesh_medit)
auto uniform(double a, double b, size_t n) { G1 m; disk::uniform_mesh_loader<double,1> l(a, b, n); bool ok = l.populate_mesh(m); return dump(m, ok); }
auto uniform_def() { G1 m; disk::uniform_mesh_loader<double,1> l; bool ok = l.populate_mesh(m); return dump(m, ok); }
