//@bound meshes of one to four triangles (conforming, with interior and boundary edges, vertices in any order), every position of their points, up to two refinements; location: every query point in a box around fixed meshes on three levels, and around one triangle with a free vertex; points closer than 1e-9 to an edge are left open
#include "topo.hpp"
#include "diskpp/mesh/mesh_hierarchy.hpp"
using namespace vp;
typedef std::vector<size_t> IDS; typedef disk::simplicial_mesh<T,2> MS; typedef disk::mesh_hierarchy<T> H;
static MS coarse(int k, bool sym, bool one = false) { MS m; std::vector<P2> p{V2(0,0),V2(1,0.25),V2(0.25,1),V2(1.25,1.25),V2(-0.5,0.75),V2(0.5,-0.75)}; std::vector<std::array<size_t,3>> t; if (k == 0) t = {{0,1,2}}; if (k == 1) t = {{0,1,2},{1,3,2}}; if (k == 2) t = {{0,1,2},{1,2,3},{0,2,4},{0,1,5}}; p.resize(k == 0 ? 3 : k == 1 ? 4 : 6); if (sym) for (auto& q : p) q = P2(q.x() + vp_real("x",-1,1), q.y() + vp_real("y",-1,1)); if (one) p[2] = P2(0.25 + vp_real("vx",-0.25,0.25), 1 + vp_real("vy",-0.25,0.25)); build_tri(m, p, t); auto st = m.backend_storage(); size_t f = 0; for (auto& b : st->boundary_info) { if (b.is_boundary()) b = disk::boundary_descriptor(7 + f % 3, true); f++; } st->subdomain_info.clear(); for (size_t i = 0; i < m.cells_size(); i++) st->subdomain_info.push_back(disk::subdomain_descriptor(11 + i)); return m; }
static T area(MS& m, size_t c) { auto p = points(m, m[c]); return (p[1].x()-p[0].x())*(p[2].y()-p[0].y()) - (p[1].y()-p[0].y())*(p[2].x()-p[0].x()); }
static bool subset(const IDS& a, const IDS& b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); }
static void child(MS& a, MS& b) {
    auto A = a.backend_storage(), B = b.backend_storage(); size_t n = A->points.size(); vp_check(B->points.size() == n + A->edges.size() && B->nodes.size() == B->points.size(), "one new point for every edge"); for (size_t i = 0; i < n; i++) vp_check(B->points[i].x() == A->points[i].x() && B->points[i].y() == A->points[i].y(), "old points stay");
    std::map<IDS,size_t> mid; std::vector<int> used(B->points.size(), 0); 
    // the midpoint of an edge is the only new point of the refined mesh joined to both of its ends
    std::map<IDS,int> fine; for (auto& e : B->edges) fine[sorted_ids(e)]++; for (auto& e : A->edges) { auto s = sorted_ids(e); size_t k = 0, r = 0; for (size_t i = n; i < B->points.size(); i++) if (fine.count(IDS{s[0],i}) && fine.count(IDS{s[1],i})) { r = i; k++; } vp_check(k == 1, "edges are cut in two"); mid[s] = r; used[r]++; for (size_t d = 0; d < 2; d++) vp_close(B->points[r].at(d), (A->points[s[0]].at(d) + A->points[s[1]].at(d))/2, 1e-12, "new points are the middle of an edge"); }
    for (size_t i = n; i < used.size(); i++) vp_check(used[i] == 1, "new points are the middle of one edge");
    size_t f = 0; for (auto& e : B->edges) { auto s = sorted_ids(e); size_t g = 0; bool bnd = false; size_t id = 0; for (auto& o : A->edges) { auto t = sorted_ids(o); t.push_back(mid[t]); if (subset(s, t)) { bnd = A->boundary_info[g].is_boundary(); id = bnd ? A->boundary_info[g].id() : 0; } g++; } vp_check(B->boundary_info[f].is_boundary() == bnd, "the boundary edges are the halves of the old ones"); if (bnd) vp_check(B->boundary_info[f].id() == id, "boundary ids are inherited"); f++; }
    std::vector<int> nc(a.cells_size(), 0); vp_check(b.cells_size() == 4*a.cells_size() && B->subdomain_info.size() == b.cells_size(), "four triangles for each, with their subdomains");
    for (size_t c = 0; c < b.cells_size(); c++) { auto s = sorted_ids(b[c]); size_t par = a.cells_size(); for (size_t o = 0; o < a.cells_size(); o++) { auto t = sorted_ids(a[o]); IDS u = t; u.push_back(mid[{t[0],t[1]}]); u.push_back(mid[{t[0],t[2]}]); u.push_back(mid[{t[1],t[2]}]); std::sort(u.begin(), u.end()); if (subset(s, u)) par = o; } vp_check(par < a.cells_size(), "new triangles are parts of an old one"); nc[par]++; T x = area(b, c), y = area(a, par); vp_close(16*x*x, y*y, 1e-8, "new triangles are quarters"); vp_check(c < B->subdomain_info.size() && B->subdomain_info[c].id() == A->subdomain_info[par].id(), "subdomains are inherited"); }
    for (auto k : nc) vp_check(k == 4, "four triangles for each"); check_topology(b, false); }
VP_H(P40_refine) { int k = vp_pick("mesh",0,2), l = vp_pick("levels",0,2); MS m = coarse(k, true), keep = coarse(k, false); H h(m, l); vp_check(size_t(h.meshes_size()) == size_t(l+1), "number of levels"); std::vector<MS> v(h.meshes_begin(), h.meshes_end()); vp_check(v.size() == size_t(l+1) && v[0].points_size() == m.points_size() && v[0].cells_size() == m.cells_size(), "the coarsest mesh is the given one"); vp_check(h.coarsest_mesh().cells_size() == m.cells_size() && h.finest_mesh().cells_size() == v[l].cells_size(), "coarsest and finest"); for (int i = 0; i < l; i++) child(v[i], v[i+1]); for (size_t c = 0; c < m.cells_size(); c++) vp_check(sorted_ids(v[0][c]) == sorted_ids(keep[c]), "the coarsest mesh is the given one"); }
VP_H(P40_again) { MS a = coarse(vp_pick("first",0,2), false), b = coarse(1, true); H h; h.build_hierarchy(a, 1); h.build_hierarchy(b, 2); vp_check(h.meshes_size() == 3, "number of levels"); std::vector<MS> v(h.meshes_begin(), h.meshes_end()); for (int i = 0; i < 2; i++) child(v[i], v[i+1]); }
// signed barycentric coordinates times twice the area, oriented
static void bary(MS& m, size_t c, const P2& x, T* r) { auto p = points(m, m[c]); T A = area(m, c), s = A > 0 ? 1 : -1; for (int i = 0; i < 3; i++) { auto& a = p[i]; auto& b = p[(i+1)%3]; r[i] = s*((b.x()-a.x())*(x.y()-a.y()) - (b.y()-a.y())*(x.x()-a.x())); } }
static int locate(H& h, const P2& x, size_t level, size_t& r) { try { r = h.locate_point(x, level); return 0; } catch (const std::invalid_argument&) { return 1; } catch (const std::exception&) { return 2; } }
static void find(int k, int l, const P2& x, bool one = false) { MS m = coarse(k, false, one); H h(m, l); std::vector<MS> v(h.meshes_begin(), h.meshes_end()); size_t r = 0; int q = locate(h, x, l, r); bool in = false, away = true; for (size_t c = 0; c < m.cells_size(); c++) { T b[3]; bary(m, c, x, b); if (b[0] >= 0 && b[1] >= 0 && b[2] >= 0) in = true; if (b[0] >= -1e-9 && b[1] >= -1e-9 && b[2] >= -1e-9) away = false; }
    bool edge = false; for (size_t c = 0; c < v[l].cells_size(); c++) { T b[3]; bary(v[l], c, x, b); for (int i = 0; i < 3; i++) if (b[i] < 1e-9 && b[i] > -1e-9) edge = true; } vp_assume(!edge); if (q == 0) { vp_check(r < v[l].cells_size(), "a triangle of the level"); T b[3]; bary(v[l], r, x, b); vp_check(b[0] > -1e-9 && b[1] > -1e-9 && b[2] > -1e-9, "the point is in the triangle found"); } if (in) vp_check(q == 0, "points of the mesh are found"); if (away) vp_check(q == 1, "points outside the mesh are refused"); }
VP_H(P40_locate) { int k = vp_pick("mesh",0,2), l = vp_pick("level",0,2); P2 x(vp_real("px",-1,2), vp_real("py",-1,2)); find(k, l, x); }
VP_H(P40_level) { int k = vp_pick("mesh",0,1), l = vp_pick("levels",0,1), q = vp_pick("level",0,3); H e; size_t r; vp_check(locate(e, V2(0.25,0.25), q, r) == 2, "no mesh, no point"); MS m = coarse(k, false); H h(m, l); int s = locate(h, V2(0.3125,0.375), q, r); vp_check(s == (q <= l ? 0 : 1), "levels which do not exist are refused"); }
VP_H(P40_locate_vertex) { int l = vp_pick("level",0,1); P2 x(vp_real("px",-1,2), vp_real("py",-1,2)); find(0, l, x, true); }
