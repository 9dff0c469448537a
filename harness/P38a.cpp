//@link mapped
//@bound 2D files: 5 points (4 triangles around a point, or 2 triangles and a quadrangle), 6 points (2 x 1 cartesian cells); two to four symbolic coordinates; eight variants of the file (first vertex, orientation and order of the cells, orientation and order of the boundary edges), three values of one boundary id and one subdomain id; 1D: 1..4 cells, symbolic ends
//@assume the numbers of a file are read by strtod/strtoul and by the stream extraction operators of the C++ library, executed natively: the text of the symbolic coordinates is a token standing for the symbolic value; threads run as a whole, at their start or when joined
#include "meshfile.hpp"
using namespace vp;
// VP_WRAP
static File square5(bool tri, bool tilted) {
    File f; f.dim = 2; f.pts = {{con("0"), con("0")}, {con("1"), con("0")}, {tilted ? con("1.25") : con("1"), tilted ? con("1.5") : con("1")}, {con("0"), con("1")}, {sym("x4", 0.55, 0.65), sym("y4", 0.35, 0.45)}};
    if (tri) { f.cells = {{0,1,4},{1,2,4},{2,3,4},{3,0,4}}; f.dom = {3,1,4,2}; } else { f.cells = {{0,1,4},{1,2,4},{2,3,0,4}}; f.dom = {3,1,4}; }
    f.bnd = {{0,1},{1,2},{2,3},{3,0}}; f.bid = {5,6,7,8}; return f; }
// one deviation from the plain file at a time, or several together
static int variant; static void vary(File& f, bool flip = true) {
    int v = variant = vp_pick("variant", 0, 7); if (v == 1 || v == 6) rotate(f.cells.back(), 1); if (v == 2) rotate(f.cells.back(), 2); if (v == 3 || v == 7) std::reverse(f.cells[0].begin(), f.cells[0].end());
    if (v == 4 || v == 6 || v == 7) { std::swap(f.cells[0], f.cells.back()); std::swap(f.dom[0], f.dom.back()); } if (flip && (v == 5 || v == 7)) std::reverse(f.bnd[1].begin(), f.bnd[1].end()); if (v == 5 || v == 6) { std::swap(f.bnd[0], f.bnd[3]); std::swap(f.bid[0], f.bid[3]); }
    int k = f.bid[0] == 5 && f.pts[2][0].v == 1 ? vp_pick("ids", 0, 2) : 1; f.dom[1] = k*7; f.bid[2] = (2-k)*9; }
VP_H(netgen_2d) {
    File f = square5(true, vp_pick("tilted", 0, 1)); vary(f); f.coords(); f.put(f.cells.size()); f.nl(); for (size_t i = 0; i < f.cells.size(); i++) { f.put(f.dom[i]); for (size_t v : f.cells[i]) f.put(v+1); f.nl(); }
    f.put(f.bnd.size()); f.nl(); for (size_t i = 0; i < f.bnd.size(); i++) { f.put(f.bid[i]); for (size_t v : f.bnd[i]) f.put(v+1); f.nl(); }
    disk::simplicial_mesh<T,2> m; vp_check(disk::load_mesh_netgen(file(f.out).c_str(), m), "the file is read"); check_topology(m); check_content(m, f, true, true); }
VP_H(cartesian_2d) {
    File f; f.dim = 2; Num x = sym("x", 0.3, 0.6), y = sym("y", 0.7, 1.2); f.pts = {{con("0"),con("0")},{x,con("0")},{con("1"),con("0")},{con("0"),y},{x,y},{con("1"),y}}; f.cells = {{0,1,3,4},{1,2,4,5}}; f.dom = {0,0}; f.bnd = {{0,1},{1,2},{3,4},{4,5},{0,3},{2,5}}; f.bid.assign(6, 0);
    if (vp_pick("cell_order", 0, 1)) std::swap(f.cells[0], f.cells[1]); if (vp_pick("edge_order", 0, 1)) std::swap(f.bnd[0], f.bnd[3]);
    f.coords(); f.put(f.cells.size()); f.nl(); for (auto& c : f.cells) { for (size_t v : c) f.put(v); f.nl(); } f.put(f.bnd.size()); f.nl(); for (auto& c : f.bnd) { for (size_t v : c) f.put(v); f.nl(); }
    disk::cartesian_mesh<T,2> m; vp_check(disk::load_mesh_diskpp_cartesian(file(f.out).c_str(), m), "the file is read"); check_topology(m); check_content(m, f, true, true); }
static void fvca5_text(File& f, bool domains) {
    auto names = [](size_t n) { return n == 3 ? "triangles" : n == 4 ? "quadrangles" : n == 5 ? "pentagons" : "hexagons"; }; f.key("vertices"); f.coords();
    std::vector<std::pair<size_t,size_t>> order; for (size_t n = 3; n < 7; n++) { size_t c = 0; for (size_t i = 0; i < f.cells.size(); i++) c += f.cells[i].size() == n; if (!c && n > 4) continue; f.key(names(n)); f.put(c); f.nl(); for (size_t i = 0; i < f.cells.size(); i++) if (f.cells[i].size() == n) { order.push_back({order.size()+1, i}); for (size_t v : f.cells[i]) f.put(v+1); if (domains) f.put(f.dom[i]); f.nl(); } }
    f.key(" edges of  the boundary"); f.put(f.bnd.size()); f.nl(); for (auto& b : f.bnd) { for (size_t v : b) f.put(v+1); f.nl(); }
    f.key("all edges"); std::map<std::pair<size_t,size_t>,std::vector<size_t>> e; for (auto& o : order) { auto& c = f.cells[o.second]; for (size_t q = 0; q < c.size(); q++) { size_t a = c[q], b = c[(q+1)%c.size()]; e[{std::min(a,b), std::max(a,b)}].push_back(o.first); } }
    f.put(e.size()); f.nl(); size_t k = 0; bool swap = variant & 1; for (auto& x : e) { bool fl = k++ % 2; f.put(1 + (fl ? x.first.first : x.first.second)); f.put(1 + (fl ? x.first.second : x.first.first)); size_t n0 = x.second[0], n1 = x.second.size() > 1 ? x.second[1] : 0; if (swap) std::swap(n0, n1); f.put(n0); f.put(n1); f.nl(); } }
VP_H(fvca5_2d) {
    bool tilted = vp_pick("tilted", 0, 1); File f = square5(false, tilted); vary(f); bool dom = variant % 3; if (!dom) f.dom.assign(3, 0);
    for (size_t i = 0; i < 4; i++) { auto s = f.bnd[i]; std::sort(s.begin(), s.end()); f.bid[i] = tilted ? 0 : s[0] == 0 && s[1] == 1 ? 0 : s[0] == 1 ? 1 : s[0] == 2 ? 2 : 3; } fvca5_text(f, dom);
    disk::generic_mesh<T,2> m; vp_check(disk::load_mesh_fvca5_2d(file(f.out).c_str(), m), "the file is read"); check_topology(m); check_content(m, f, true, true); }
VP_H(medit_2d) {
    File f = square5(false, vp_pick("tilted", 0, 1)); vary(f); f.key("MeshVersionFormatted 2\nDimension 3\nVertices"); f.put(f.pts.size()); f.nl(); for (auto& p : f.pts) { f.out += p[0].t + " " + p[1].t + " 0 0\n"; }
    auto names = [](size_t n) { return n == 3 ? "Triangles" : "Quadrilaterals"; }; for (size_t n = 3; n < 5; n++) { size_t c = 0; for (auto& l : f.cells) c += l.size() == n; f.key(names(n)); f.put(c); f.nl(); for (size_t i = 0; i < f.cells.size(); i++) if (f.cells[i].size() == n) { for (size_t v : f.cells[i]) f.put(v+1); f.put(f.dom[i]); f.nl(); } }
    f.key("Edges"); f.put(f.bnd.size()); f.nl(); for (size_t i = 0; i < f.bnd.size(); i++) { for (size_t v : f.bnd[i]) f.put(v+1); f.put(f.bid[i]); f.nl(); } f.key("End");
    disk::generic_mesh<T,2> m; vp_check(disk::load_mesh_medit(file(f.out).c_str(), m), "the file is read"); check_topology(m); check_content(m, f, true, true); }
VP_H(poly_2d) {
    File f = square5(false, vp_pick("tilted", 0, 1)); vary(f); f.key("**BeginMesh\n*Dimension 2\n*Version 1\n*Nodes"); f.put(f.pts.size()); f.nl(); for (size_t i = 0; i < f.pts.size(); i++) { f.put(i); f.out += f.pts[i][0].t + " " + f.pts[i][1].t + " 0\n"; }
    Lists e; Lists ce; for (auto& c : f.cells) { std::vector<size_t> l; for (size_t q = 0; q < c.size(); q++) { std::vector<size_t> x{c[q], c[(q+1)%c.size()]}; size_t k = 0; for (; k < e.size(); k++) if (e[k] == x || (e[k][0] == x[1] && e[k][1] == x[0])) break; if (k == e.size()) e.push_back(x); l.push_back(k); } ce.push_back(l); }
    auto block = [&](const char* k, const Lists& l) { f.key(k); f.put(l.size()); f.nl(); for (size_t i = 0; i < l.size(); i++) { f.put(i); f.put(l[i].size()); for (size_t v : l[i]) f.put(v); f.nl(); } };
    block("*Edges->Nodes", e); block("*Faces->Nodes", f.cells); block("*Faces->Edges", ce);
    f.key("*Edges->Groups"); f.put(f.bnd.size()); f.nl(); for (size_t i = 0; i < f.bnd.size(); i++) { f.out += "side "; f.put(f.bid[i]); f.put(1); for (size_t k = 0; k < e.size(); k++) { auto a = e[k], b = f.bnd[i]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a == b) f.put(k); } f.nl(); } f.key("**EndMesh");
    disk::generic_mesh<T,2> m; vp_check(disk::load_mesh_poly(file(f.out).c_str(), m), "the file is read"); check_topology(m); check_content(m, f, false, true); }
VP_H(uniform_1d) { size_t n = vp_pick("n", 1, 4); T a = vp_real("a", -2, 0), b = vp_real("b", 0.5, 3); disk::uniform_mesh_loader<T,1> l(a, b, n); disk::generic_mesh<T,1> m; vp_check(l.populate_mesh(m), "the mesh is made"); check_topology(m); vp_check(m.points_size() == n+1 && m.cells_size() == n, "numbers of points and cells"); for (size_t i = 0; i <= n; i++) vp_close(m.backend_storage()->points[i].x(), a + (b-a)*T(i)/T(n), 1e-12, "points"); vp_check(m.backend_storage()->subdomain_info.size() == n, "every cell has subdomain information"); }
