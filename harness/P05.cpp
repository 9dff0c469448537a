//@bound simple meshers: initial mesh and up to three refinements (triangles, rectangles; thorough four) or two (tetrahedra), every point of the mesh to refine displaced by any amount up to 1; hexagonal mesher: levels 0 to 2, in any order on the same mesh, every query point
#include "topo.hpp"
#include "diskpp/mesh/meshgen.hpp"
using namespace vp;
typedef std::vector<size_t> IDS;
template<typename M> std::vector<IDS> edges_of(M& m) { std::vector<IDS> r; auto st = m.backend_storage(); for (auto& e : st->edges) r.push_back(sorted_ids(e)); return r; }
// signed measure of a cell of the mesher from its vertices, in the order the mesh gives them
template<typename M, typename C> T sarea(M& m, const C& cl) { auto p = points(m, cl); if constexpr (M::dimension == 3) return det3(p[0],p[1],p[2],p[3])/6; else { if constexpr (std::is_same_v<M, disk::cartesian_mesh<T,2>>) std::swap(p[2], p[3]); T s = 0; for (size_t i = 0; i < p.size(); i++) { auto& a = p[i]; auto& b = p[(i+1)%p.size()]; s += a.x()*b.y() - a.y()*b.x(); } return s/2; } }
static bool subset(const IDS& a, const IDS& b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); }
// boundary ids are those of the sides of the unit square or cube
template<typename M> static void unit_sides(M& m) { const size_t D = M::dimension; auto st = m.backend_storage(); T s = 0; for (auto& cl : m) s += measure(m, cl); vp_close(s, 1, 1e-9, "the cells fill the unit domain"); size_t f = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it, ++f) { auto p = points(m, *it); int side = -1; for (size_t d = 0; d < D; d++) for (int h = 0; h < 2; h++) { bool on = true; for (auto& q : p) on &= std::abs(q.at(d) - h) < 1e-12; if (on) side = D == 2 ? (d == 1 ? 2*h : 3-2*h) : 3*h + int(D-1-d); }
    vp_check(st->boundary_info[f].is_boundary() == (side >= 0), "boundary faces are on the sides"); if (side >= 0) vp_check(int(st->boundary_info[f].id()) == side, "boundary ids number the sides"); } for (auto& q : st->points) for (size_t d = 0; d < D; d++) vp_check(q.at(d) > -1e-12 && q.at(d) < 1+1e-12, "points are in the unit domain"); }
template<typename M> void refined(int l) { const size_t D = M::dimension; M a, b; auto sa = disk::make_simple_mesher(a), sb = disk::make_simple_mesher(b); for (int i = 0; i < l; i++) { sa.refine(); sb.refine(); } unit_sides(a);
    auto A = a.backend_storage(), B = b.backend_storage(); for (auto& p : B->points) for (size_t d = 0; d < D; d++) p.at(d) += vp_real("move",-1,1);
    auto old = A->points, bold = B->points; auto edg = edges_of(a); std::vector<IDS> ofc, ocl; std::vector<T> vol, bvol; auto info = A->boundary_info; for (auto it = a.faces_begin(); it != a.faces_end(); ++it) ofc.push_back(sorted_ids(*it)); for (auto& c : a) { ocl.push_back(sorted_ids(c)); vol.push_back(sarea(a, c)); } for (auto& c : b) bvol.push_back(sarea(b, c));
    sa.refine(); sb.refine(); size_t n = old.size();
    vp_check(A->points.size() == B->points.size() && A->boundary_info.size() == B->boundary_info.size() && a.cells_size() == b.cells_size() && a.faces_size() == b.faces_size() && edges_of(a) == edges_of(b), "the structure does not depend on the points");
    bool quad = std::is_same_v<M, disk::cartesian_mesh<T,2>>; vp_check(A->points.size() == n + edg.size() + (quad ? ocl.size() : 0) && A->nodes.size() == A->points.size(), "one new point for every edge");
    for (size_t i = 0; i < n; i++) for (size_t d = 0; d < D; d++) vp_close(B->points[i].at(d), bold[i].at(d), 1e-12, "old points stay");
    std::vector<int> mid(A->points.size(), 0); auto locate = [&](const IDS& ids) { disk::point<T,D> c, e; for (auto i : ids) { c = c + old[i]; e = e + bold[i]; } c = c / T(ids.size()); e = e / T(ids.size()); size_t r = 0, k = 0; for (size_t i = n; i < A->points.size(); i++) { T x = 0; for (size_t d = 0; d < D; d++) x += std::abs(A->points[i].at(d) - c.at(d)); if (x < 1e-12) { r = i; k++; } } vp_check(k == 1, "one new point in the middle"); mid[r]++; for (size_t d = 0; d < D; d++) vp_close(B->points[r].at(d), e.at(d), 1e-10, "new points are in the middle"); return r; };
    std::map<IDS,size_t> em; for (auto& e : edg) em[e] = locate(e); std::vector<IDS> ccl, cfc; for (auto& c : ocl) { IDS r = c; for (auto& e : em) if (subset(e.first, c)) r.push_back(e.second); if (quad) r.push_back(locate(c)); std::sort(r.begin(), r.end()); ccl.push_back(r); } for (auto& f : ofc) { IDS r = f; for (auto& e : em) if (subset(e.first, f)) r.push_back(e.second); std::sort(r.begin(), r.end()); cfc.push_back(r); }
    for (size_t i = n; i < mid.size(); i++) vp_check(mid[i] == 1, "new points are the middle of one edge or cell");
    size_t f = 0; std::vector<int> nf(ofc.size(), 0); for (auto it = a.faces_begin(); it != a.faces_end(); ++it, ++f) { auto s = sorted_ids(*it); size_t par = ofc.size(); for (size_t o = 0; o < ofc.size(); o++) if (subset(s, cfc[o])) { par = o; nf[o]++; } bool was = par < ofc.size() && info[par].is_boundary(); vp_check(A->boundary_info[f].is_boundary() == was && B->boundary_info[f].is_boundary() == was, "the boundary faces are the parts of the old ones"); if (was) vp_check(A->boundary_info[f].id() == info[par].id() && B->boundary_info[f].id() == info[par].id(), "boundary ids are inherited"); }
    for (auto k : nf) vp_check(k == (D == 2 ? 2 : 4), "number of parts of a face");
    std::vector<int> nc(ocl.size(), 0); std::vector<T> sv(ocl.size(), 0); for (size_t c = 0; c < a.cells_size(); c++) { vp_check(sorted_ids(a[c]) == sorted_ids(b[c]), "the structure does not depend on the points"); auto s = sorted_ids(a[c]); size_t par = ocl.size(); for (size_t o = 0; o < ocl.size(); o++) if (subset(s, ccl[o])) par = o; vp_check(par < ocl.size(), "new cells are parts of an old one"); nc[par]++; T v = sarea(a, a[c]), w = sarea(b, b[c]); T sg = v*vol[par] > 0 ? 1 : -1; vp_check(v > 1e-9 || v < -1e-9, "new cells have a measure"); if (!quad) vp_close(w*sg, bvol[par]/(D == 2 ? 4 : 8), 1e-10, "new cells have equal parts of the old one"); sv[par] += w*sg; }
    for (size_t o = 0; o < ocl.size(); o++) { vp_check(nc[o] == (D == 2 ? 4 : 8), "number of parts of a cell"); vp_close(sv[o], bvol[o], 1e-10, "the parts fill the old cell"); }
    unit_sides(a); check_topology(a, false); vp_check(a.backend_storage()->subdomain_info.size() == a.cells_size(), "subdomains"); }
VP_H(P05_triangles) { int l = vp_pick("level",0,2+vp_tier()); refined<disk::simplicial_mesh<T,2>>(l); }
VP_H(P05_quads) { int l = vp_pick("level",0,2+vp_tier()); refined<disk::cartesian_mesh<T,2>>(l); }
VP_H(P05_tets) { int l = vp_pick("level",0,1); refined<disk::simplicial_mesh<T,3>>(l); }
// the hexagonal mesher: every point of the unit square is in one cell, whatever was in the mesh before
VP_H(P05_hexagons) { disk::generic_mesh<T,2> m; auto s = disk::make_fvca5_hex_mesher(m); int before = vp_pick("before",0,2), l = vp_pick("level",0,2); if (before) s.make_level(before-1); s.make_level(l); unit_sides(m); check_topology(m); size_t n = 4; for (int i = 0; i < l; i++) n *= 2; if (!before) { T x = vp_real("x",0,1), y = vp_real("y",0,1); int in = 0, cl_in = 0; for (auto& cl : m) { auto p = points(m, cl); int open = 1, closed = 1; for (size_t i = 0; i < p.size(); i++) { auto& a = p[i]; auto& b = p[(i+1)%p.size()]; auto& c = p[(i+2)%p.size()]; T o = (b.x()-a.x())*(c.y()-b.y()) - (b.y()-a.y())*(c.x()-b.x()); T v = (b.x()-a.x())*(y-a.y()) - (b.y()-a.y())*(x-a.x()); vp_check(sarea(m, cl)*o > -1e-12, "cells are convex"); if (sarea(m, cl) < 0) v = -v; open &= int(v > 1e-9); closed &= int(v > -1e-9); } in += open; cl_in += closed; } vp_check(in <= 1, "cells do not overlap"); vp_check(cl_in >= 1, "cells cover the square"); }
    vp_check(m.backend_storage()->subdomain_info.size() == m.cells_size(), "subdomains"); for (auto& p : m.backend_storage()->points) vp_close(p.x()*n, std::round(p.x()*n), 1e-9, "points are on the grid"); }
VP_H(P05_hexmesh) { disk::fvca5::hexmesh h; int l = vp_pick("level",0,1+vp_tier()); disk::fvca5::make_hexmesh(h, l); size_t n = disk::fvca5::ipow(2, l+2), nb = 0; vp_check(h.coord_max == n, "size of the grid"); size_t tot = h.points.size(), x = vp_int("x",0,16), y = vp_int("y",0,16); bool there = false; size_t pos = 0; for (size_t i = 0; i < tot; i++) if (h.points[i].x == x && h.points[i].y == y) { there = true; pos = i; } bool ref = refuses([&]() { size_t o = disk::fvca5::offset(h, disk::fvca5::point(x,y), false); vp_check(there && o == pos, "points are found at their position"); vp_check(disk::fvca5::offset(h, disk::fvca5::point(x,y), true) == pos+1, "position counted from one"); }); vp_check(ref == !there, "missing points are refused");
    for (auto& b : h.boundary_edges) for (auto& e : b.second) { nb++; auto o = h.edge_owners[e]; vp_check(o.first.has_value() && !o.second.has_value(), "boundary edges have one owner"); } for (auto& e : h.edges) { auto o = h.edge_owners[e]; vp_check(o.first.has_value(), "edges have an owner"); if (!o.second) nb--; } vp_check(nb == 0, "edges with one owner are boundary edges"); }
VP_H(P05_hexpoint) { size_t a = vp_int("a",0,9), b = vp_int("b",0,9), c = vp_int("c",0,9), d = vp_int("d",0,9); disk::fvca5::point p(a,b), q(c,d); vp_check((p < q) == (a < c || (a == c && b < d)) && (p == q) == (a == c && b == d), "points are ordered"); vp_assume(a != c || b != d); disk::fvca5::edge e(p,q), f(q,p); vp_check(e == f && !(e < f) && !(f < e) && e.a < e.b, "edges have no direction"); size_t k = vp_int("k",0,9), m = vp_int("m",0,9); e.make_absolute(k,m); vp_check(e.a.x == f.a.x+k && e.a.y == f.a.y+m && e.b.x == f.b.x+k && e.b.y == f.b.y+m, "edges are moved"); vp_check(disk::fvca5::ipow(a, 3) == a*a*a && disk::fvca5::ipow(b, 0) == 1, "powers"); }
