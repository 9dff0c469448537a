// Structural consistency of a mesh, judged from the points of its cells alone.
#pragma once
#include "meshes.hpp"
namespace vp {
template<typename F> static bool refuses(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
template<typename E> std::vector<size_t> ids_of(const E& e) { std::vector<size_t> r; for (auto i : e.point_ids()) r.push_back(size_t(i)); return r; }
template<typename E> std::vector<size_t> sorted_ids(const E& e) { auto r = ids_of(e); std::sort(r.begin(), r.end()); return r; }
// cells adjacent to every face
template<typename M> std::vector<std::vector<size_t>> owners(const M& m) { std::vector<std::vector<size_t>> o(m.faces_size()); size_t c = 0; for (auto& cl : m) { for (auto& fc : faces(m, cl)) o[m.lookup(fc)].push_back(c); c++; } return o; }
template<typename M> void check_topology(M& m, bool geometry = true) {
    const size_t D = M::dimension; auto st = m.backend_storage(); size_t c = 0, nb = 0; const M& k = m; std::vector<int> used(m.points_size(), 0);
    vp_check(st->boundary_info.size() == m.faces_size(), "every face has boundary information");
    size_t i = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it, ++i) { vp_check(size_t(m.lookup(*it)) == i && disk::offset(m, *it) == i, "faces are found at their position"); for (auto p : ids_of(*it)) vp_check(p < m.points_size(), "faces have points of the mesh"); auto s = sorted_ids(*it); vp_check(std::unique(s.begin(), s.end()) == s.end(), "faces have distinct points"); }
    for (auto& cl : m) { vp_check(size_t(m.lookup(cl)) == c && disk::offset(m, cl) == c, "cells are found at their position"); vp_check(sorted_ids(m[c]) == sorted_ids(cl), "cells by number");
        auto ci = sorted_ids(cl); vp_check(std::unique(ci.begin(), ci.end()) == ci.end() && ci.back() < m.points_size(), "cells have distinct points of the mesh"); for (auto p : ci) used[p] = 1;
        auto pts = points(m, cl); auto ids = ids_of(cl); vp_check(pts.size() == ids.size(), "number of points"); for (size_t q = 0; q < ids.size(); q++) for (size_t a = 0; a < D; a++) vp_close(pts[q].at(a), st->points[ids[q]].at(a), 1e-12, "points of a cell");
        auto fcs = faces(m, cl); auto fid = faces_id(m, cl); vp_check(fcs.size() == fid.size() && size_t(howmany_faces(m, cl)) == fcs.size(), "number of faces"); std::map<std::vector<size_t>,int> sub;
        for (size_t f = 0; f < fcs.size(); f++) { vp_check(size_t(m.lookup(fcs[f])) == size_t(fid[f]), "faces and their numbers"); auto fi = sorted_ids(fcs[f]); vp_check(fi == sorted_ids(*std::next(m.faces_begin(), size_t(fid[f]))), "faces of the cell are those of the mesh"); vp_check(std::includes(ci.begin(), ci.end(), fi.begin(), fi.end()), "faces of the cell have its points");
            if constexpr (D < 3) for (auto p : fi) sub[{p}]++; else { auto r = ids_of(fcs[f]); for (size_t q = 0; q < r.size(); q++) { std::vector<size_t> e{r[q], r[(q+1)%r.size()]}; std::sort(e.begin(), e.end()); sub[e]++; } } }
        if constexpr (D > 1) for (auto& s : sub) vp_check(s.second == 2, "the faces of a cell close up");
        c++; }
    vp_check(c == m.cells_size() && i == m.faces_size(), "numbers of cells and faces");
    auto own = owners(m); disk::neighbour_connectivity<M> cv(m); std::set<size_t> bids; std::map<size_t,size_t> per;
    for (size_t f = 0; f < own.size(); f++) { vp_check(own[f].size() == 1 || own[f].size() == 2, "faces have one or two cells"); auto fc = *std::next(m.faces_begin(), f); typename M::face::id_type fi(f); bool b = own[f].size() == 1; nb += b;
        vp_check(m.is_boundary(fi) == b && m.is_boundary(fc) == b && m.is_boundary(std::next(m.faces_begin(), f)) == b && m.boundary_info(fc).is_boundary() == b, "boundary faces are those with one cell");
        if (b) { size_t id = st->boundary_info[f].id(); vp_check(m.boundary_id(fi) == id && m.boundary_id(fc) == id, "boundary ids"); bids.insert(id); per[id]++; } else vp_check(refuses([&]() { m.boundary_id(fi); }) && refuses([&]() { m.boundary_id(fc); }), "interior faces have no boundary id");
        for (size_t a = 0; a < own[f].size(); a++) { auto [cl, ok] = cv.neighbour_via(m, m[own[f][a]], fc); vp_check(ok == !b, "there is a neighbour across interior faces"); if (ok) vp_check(size_t(m.lookup(cl)) == own[f][1-a], "neighbour across a face"); } }
    vp_check(m.boundary_faces_size() == nb && m.internal_faces_size() == own.size() - nb, "numbers of boundary and interior faces"); auto lst = m.boundary_id_list(); vp_check(std::vector<size_t>(bids.begin(), bids.end()) == lst, "list of boundary ids");
    auto next = [&](size_t f, auto pred) { while (f < own.size() && !pred(f)) f++; return f; }; auto isb = [&](size_t f) { return own[f].size() == 1; };
    auto walk = [&](auto b, auto e, auto pred) { size_t f = next(0, pred); for (; b != e; ++b) { vp_check(f < own.size() && size_t(m.lookup(*b)) == f, "iterators visit the faces of their kind in order"); f = next(f+1, pred); } vp_check(f == own.size(), "iterators visit every face of their kind"); };
    walk(m.boundary_faces_begin(), m.boundary_faces_end(), isb); walk(k.boundary_faces_begin(), k.boundary_faces_end(), isb); walk(m.internal_faces_begin(), m.internal_faces_end(), [&](size_t f) { return !isb(f); });
    { size_t q = 0; for (auto& cl : cells(m)) vp_check(q < m.cells_size() && sorted_ids(cl) == sorted_ids(m[q++]), "cells in order"); vp_check(q == m.cells_size(), "all cells"); q = 0; for (auto& fc : faces(m)) vp_check(q < m.faces_size() && size_t(m.lookup(fc)) == q++, "faces in order"); vp_check(q == m.faces_size(), "all faces"); q = 0; for (auto& p : points(m)) { vp_check(q < m.points_size() && &p == &st->points[q], "points in order"); q++; } vp_check(q == st->points.size(), "all points"); size_t f = next(0, isb); for (auto& fc : boundary_faces(m)) { vp_check(f < own.size() && size_t(m.lookup(fc)) == f, "boundary faces in order"); f = next(f+1, isb); } vp_check(f == own.size(), "all boundary faces"); }
    if (st->subdomain_info.size() == m.cells_size()) for (size_t q = 0; q < m.cells_size(); q++) vp_check(m.domain_info(m[q]).id() == st->subdomain_info[q].id(), "subdomain of a cell");
    for (size_t id : bids) { vp_check(m.boundary_faces_size(id) == per[id], "number of faces with a boundary id"); walk(m.boundary_faces_begin(id), m.boundary_faces_end(id), [&](size_t f) { return isb(f) && st->boundary_info[f].id() == id; }); }
    c = 0; for (auto& cl : m) { bool any = false; for (size_t f : faces_id(m, cl)) any |= isb(f); vp_check(has_faces_on_boundary(m, cl) == any, "cells with faces on the boundary"); c++; }
    for (auto u : used) vp_check(u, "every point belongs to a cell");
    if constexpr (D > 1) if (geometry) for (auto& cl : m) { T v = 0; std::vector<T> s(D, 0); auto bc = barycenter(m, cl); for (auto& fc : faces(m, cl)) { auto n = normal(m, cl, fc); T a = measure(m, fc); auto b = barycenter(m, fc); for (size_t d = 0; d < D; d++) { s[d] += a*n(d); v += a*n(d)*(b.at(d)-bc.at(d))/D; } } for (size_t d = 0; d < D; d++) vp_close(s[d], 0, 1e-9, "the faces of a cell enclose it"); vp_close(v, measure(m, cl), 1e-9, "the faces of a cell enclose its measure"); }
}
}
