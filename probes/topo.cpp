// queries of the mesh about its own topology
#include "meshes.hpp"
#include <vector>
using V = std::vector<size_t>;
using VV = std::vector<V>;

// flag of a face: 0 internal to the domain, k+1 boundary number k
template<typename M> void flags(M& m, const V& fl, size_t ncells)
{
    auto s = m.backend_storage();
    s->boundary_info.resize(fl.size());
    for (size_t i = 0; i < fl.size(); i++)
        if (fl[i] > 0)
            s->boundary_info[i] = boundary_descriptor(fl[i] - 1, fl[i] + 9, true);
    for (size_t i = 0; i < ncells; i++)
        s->subdomain_info.push_back(subdomain_descriptor(3*i + 1, 5*i + 2));
}
template<typename M> void blank(M& m, size_t np)
{
    std::vector<typename M::point_type> p(np);
    auto s = m.backend_storage();
    s->points = p;
}
struct F_s2 { using M = S2;
    static M::face fc(const V& v) { return M::face({v[0], v[1]}); }
    static M::cell cl(const V& v, const V&) { return M::cell({v[0], v[1], v[2]}); }
    static void put(M& m, const M::cell& c) { m.backend_storage()->surfaces.push_back(c); }
    static void put(M& m, const M::face& c) { m.backend_storage()->edges.push_back(c); } };
struct F_s3 { using M = S3;
    static M::face fc(const V& v) { return M::face({v[0], v[1], v[2]}); }
    static M::cell cl(const V& v, const V&) { return M::cell({v[0], v[1], v[2], v[3]}); }
    static void put(M& m, const M::cell& c) { m.backend_storage()->volumes.push_back(c); }
    static void put(M& m, const M::face& c) { m.backend_storage()->surfaces.push_back(c); } };
struct F_c2 { using M = C2;
    static M::face fc(const V& v) { return M::face({v[0], v[1]}); }
    static M::cell cl(const V& v, const V&) { return M::cell({v[0], v[1], v[2], v[3]}); }
    static void put(M& m, const M::cell& c) { m.backend_storage()->surfaces.push_back(c); }
    static void put(M& m, const M::face& c) { m.backend_storage()->edges.push_back(c); } };
struct F_c3 { using M = C3;
    static M::face fc(const V& v) { return M::face({v[0], v[1], v[2], v[3]}); }
    static M::cell cl(const V& v, const V&) { return M::cell({v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]}); }
    static void put(M& m, const M::cell& c) { m.backend_storage()->volumes.push_back(c); }
    static void put(M& m, const M::face& c) { m.backend_storage()->surfaces.push_back(c); } };
struct F_g1 { using M = G1; using nid = G1::node_type::id_type;
    static M::face fc(const V& v) { return M::face(point_identifier<1>(v[0])); }
    static M::cell cl(const V& v, const V&) { return M::cell(nid(v[0]), nid(v[1])); }
    static void put(M& m, const M::cell& c) { m.backend_storage()->edges.push_back(c); }
    static void put(M& m, const M::face& c) { m.backend_storage()->nodes.push_back(c); } };
struct F_g2 { using M = G2; using nid = G2::node_type::id_type; using eid = G2::edge_type::id_type;
    static M::face fc(const V& v) { return M::face(nid(v[0]), nid(v[1])); }
    static M::cell cl(const V& v, const V& pt)
    {
        std::vector<eid> ids; std::vector<point_identifier<2>> pids;
        for (size_t i = 0; i < v.size(); i++) ids.push_back(eid(v[i]));
        for (size_t i = 0; i < pt.size(); i++) pids.push_back(point_identifier<2>(pt[i]));
        M::cell c(ids);
        c.set_point_ids(pids.begin(), pids.end());
        return c;
    }
    static void put(M& m, const M::cell& c) { m.backend_storage()->surfaces.push_back(c); }
    static void put(M& m, const M::face& c) { m.backend_storage()->edges.push_back(c); } };
struct F_g3 { using M = G3; using eid = G3::edge_type::id_type; using fid = G3::face::id_type;
    static M::face fc(const V& v)       // first half: edge ids, second half: points
    {
        std::vector<eid> ids; std::vector<point_identifier<3>> pids;
        size_t n = v.size() / 2;
        for (size_t i = 0; i < n; i++) ids.push_back(eid(v[i]));
        for (size_t i = 0; i < n; i++) pids.push_back(point_identifier<3>(v[n + i]));
        M::face c(ids);
        c.set_point_ids(pids.begin(), pids.end());
        return c;
    }
    static M::cell cl(const V& v, const V& pt)
    {
        std::vector<fid> ids; std::vector<point_identifier<3>> pids;
        for (size_t i = 0; i < v.size(); i++) ids.push_back(fid(v[i]));
        for (size_t i = 0; i < pt.size(); i++) pids.push_back(point_identifier<3>(pt[i]));
        M::cell c(ids);
        c.set_point_ids(pids.begin(), pids.end());
        return c;
    }
    static void put(M& m, const M::cell& c) { m.backend_storage()->volumes.push_back(c); }
    static void put(M& m, const M::face& c) { m.backend_storage()->surfaces.push_back(c); } };

template<typename F> typename F::M mk(const VV& fcs, const VV& cls, const VV& cpts, const V& fl, size_t np)
{
    typename F::M m;
    blank(m, np);
    for (size_t i = 0; i < fcs.size(); i++) F::put(m, F::fc(fcs[i]));
    for (size_t i = 0; i < cls.size(); i++) F::put(m, F::cl(cls[i], cpts[i]));
    flags(m, fl, cls.size());
    return m;
}
#define TOPO const VV& fcs, const VV& cls, const VV& cpts, const V& fl, size_t np
#define MK auto m = mk<F>(fcs, cls, cpts, fl, np); V r;

template<typename F> V t_sizes(TOPO)
{
    MK
    r.push_back(m.cells_size()); r.push_back(m.faces_size()); r.push_back(m.points_size());
    r.push_back(m.boundary_faces_size()); r.push_back(m.internal_faces_size());
    size_t n = 0; for (auto& c : cells(m)) n++; r.push_back(n);
    n = 0; for (auto& c : m) n++; r.push_back(n);
    const auto& k = m;
    n = 0; for (auto& c : k) n++; r.push_back(n);
    n = 0; for (auto& c : faces(m)) n++; r.push_back(n);
    n = 0; for (auto& c : points(m)) n++; r.push_back(n);
    return r;
}
template<typename F> V t_cell(TOPO, size_t i)
{
    MK
    auto cl = m[i];
    r.push_back(size_t(m.lookup(cl))); r.push_back(offset(m, cl)); r.push_back(howmany_faces(m, cl));
    auto fs = faces(m, cl);
    for (auto& f : fs) { r.push_back(size_t(m.lookup(f))); r.push_back(offset(m, f)); }
    auto ids = faces_id(m, cl);
    for (auto& f : ids) r.push_back(size_t(f));
    auto pid = cl.point_ids();
    for (auto& p : pid) r.push_back(size_t(p));
    auto d = m.domain_info(cl);
    r.push_back(d.id()); r.push_back(d.tag());
    r.push_back(has_faces_on_boundary(m, cl));
    return r;
}
template<typename F> V t_face(TOPO, size_t i)
{
    MK
    auto it = std::next(m.faces_begin(), i);
    auto f = *it;
    r.push_back(size_t(m.lookup(f))); r.push_back(offset(m, f));
    r.push_back(m.is_boundary(f)); r.push_back(m.is_boundary(m.lookup(f))); r.push_back(m.is_boundary(it));
    auto b = m.boundary_info(f);
    r.push_back(b.id()); r.push_back(b.tag()); r.push_back(b.is_boundary()); r.push_back(b.is_internal());
    return r;
}
template<typename F> V t_bid(TOPO, size_t i, bool byid)
{
    MK
    auto f = *std::next(m.faces_begin(), i);
    if (byid) r.push_back(m.boundary_id(m.lookup(f)));
    else r.push_back(m.boundary_id(f));
    return r;
}
template<typename F> V t_iter(TOPO)
{
    MK
    for (auto& f : boundary_faces(m)) r.push_back(size_t(m.lookup(f)));
    r.push_back(1000);
    for (auto it = m.boundary_faces_begin(); it != m.boundary_faces_end(); it++) r.push_back(size_t(m.lookup(*it)));
    r.push_back(1000);
    const auto& k = m;
    for (auto it = k.boundary_faces_begin(); it != k.boundary_faces_end(); ++it) r.push_back(size_t(k.lookup(*it)));
    r.push_back(1000);
    for (auto it = m.internal_faces_begin(); it != m.internal_faces_end(); ++it) r.push_back(size_t(m.lookup(*it)));
    r.push_back(1000);
    for (auto& b : m.boundary_id_list()) r.push_back(b);
    return r;
}
template<typename F> V t_iterid(TOPO, size_t id)
{
    MK
    r.push_back(m.boundary_faces_size(id));
    for (auto it = m.boundary_faces_begin(id); it != m.boundary_faces_end(id); ++it) r.push_back(size_t(m.lookup(*it)));
    return r;
}
template<typename F> V t_neigh(TOPO)
{
    MK
    auto cv = connectivity_via_faces(m);
    for (auto& cl : m) {
        auto fs = faces(m, cl);
        for (auto& f : fs) {
            auto [n, ok] = cv.neighbour_via(m, cl, f);
            r.push_back(size_t(m.lookup(f)));
            r.push_back(ok ? size_t(m.lookup(n)) : 1000);
        }
    }
    return r;
}
template<typename F> V t_mark(TOPO)
{
    MK
    mark_internal_faces(m);
    for (auto& f : faces(m)) {
        auto b = m.boundary_info(f);
        r.push_back(b.id()); r.push_back(b.is_boundary()); r.push_back(b.is_internal());
    }
    return r;
}
template<typename F> V t_nocell(TOPO, const V& c, const V& cp, bool off)
{
    MK
    auto e = F::cl(c, cp);
    if (off) r.push_back(offset(m, e)); else r.push_back(size_t(m.lookup(e)));
    return r;
}
template<typename F> V t_noface(TOPO, const V& c, int how)
{
    MK
    auto e = F::fc(c);
    if (how == 0) r.push_back(size_t(m.lookup(e)));
    if (how == 1) r.push_back(offset(m, e));
    if (how == 2) r.push_back(m.is_boundary(e));
    if (how == 3) r.push_back(m.boundary_id(e));
    return r;
}
template<typename F> V t_order(const V& a, const V& ap, const V& b, const V& bp)
{
    auto x = F::cl(a, ap); auto y = F::cl(b, bp);
    return V{ size_t(x == y), size_t(y == x), size_t(x < y), size_t(y < x) };
}
template<typename F> V t_forder(const V& a, const V& b)
{
    auto x = F::fc(a); auto y = F::fc(b);
    return V{ size_t(x == y), size_t(y == x), size_t(x < y), size_t(y < x) };
}
template<typename M> std::vector<typename M::point_type> t_bbox(const std::vector<typename M::point_type>& p)
{
    M m; m.backend_storage()->points = p;
    bounding_box<M> a(m), b; b.compute(m);
    std::vector<typename M::point_type> r;
    r.push_back(a.min()); r.push_back(a.max()); r.push_back(b.min()); r.push_back(b.max());
    return r;
}
template<typename M> std::vector<typename M::point_type> t_transform(const std::vector<typename M::point_type>& p, double a, double b)
{
    M m; m.backend_storage()->points = p;
    m.transform([&](const typename M::point_type& q) { return q*a + q*b; });
    return m.backend_storage()->points;
}
#define ARGS fcs, cls, cpts, fl, np
#define INST(K) \
    V sizes_##K(TOPO) { return t_sizes<F_##K>(ARGS); } \
    V cell_##K(TOPO, size_t i) { return t_cell<F_##K>(ARGS, i); } \
    V face_##K(TOPO, size_t i) { return t_face<F_##K>(ARGS, i); } \
    V bid_##K(TOPO, size_t i, bool byid) { return t_bid<F_##K>(ARGS, i, byid); } \
    V iter_##K(TOPO) { return t_iter<F_##K>(ARGS); } \
    V iterid_##K(TOPO, size_t i) { return t_iterid<F_##K>(ARGS, i); } \
    V neigh_##K(TOPO) { return t_neigh<F_##K>(ARGS); } \
    V mark_##K(TOPO) { return t_mark<F_##K>(ARGS); } \
    V nocell_##K(TOPO, const V& c, const V& p, bool off) { return t_nocell<F_##K>(ARGS, c, p, off); } \
    V noface_##K(TOPO, const V& c, int how) { return t_noface<F_##K>(ARGS, c, how); } \
    V order_##K(const V& a, const V& ap, const V& b, const V& bp) { return t_order<F_##K>(a, ap, b, bp); } \
    V forder_##K(const V& a, const V& b) { return t_forder<F_##K>(a, b); } \
    std::vector<F_##K::M::point_type> bbox_##K(const std::vector<F_##K::M::point_type>& p) { return t_bbox<F_##K::M>(p); } \
    std::vector<F_##K::M::point_type> transform_##K(const std::vector<F_##K::M::point_type>& p, double a, double b) { return t_transform<F_##K::M>(p, a, b); }
INST(s2) INST(s3) INST(c2) INST(c3) INST(g1) INST(g2) INST(g3)
