//@link mapped
//@bound 3D files: two tetrahedra, two hexahedra (cartesian), a cube under a pyramid; one or two symbolic coordinates; four to six variants of the file (numbering of the cells and faces, first vertex and orientation, order of the boundary faces) and three values of the boundary and subdomain ids
#include "meshfile.hpp"
using namespace vp;
// VP_WRAP
VP_H(netgen_3d) {
    File f; f.dim = 3; f.pts = {{con("0"),con("0"),con("0")},{con("1"),con("0"),con("0")},{con("0"),con("1"),con("0")},{con("0"),con("0"),con("1")},{sym("x4",0.7,1.2),sym("y4",0.8,1.1),con("1.25")}};
    f.cells = {{0,1,2,3},{1,2,3,4}}; f.dom = {4,9}; f.bnd = {{0,1,2},{0,1,3},{0,2,3},{1,2,4},{1,3,4},{2,3,4}}; f.bid = {1,2,3,4,5,6};
    int v = vp_pick("variant", 0, 5), k = vp_pick("ids", 0, 2); f.dom[1] = 3*k; f.bid[2] = 7*(2-k); if (v == 1 || v == 5) { std::swap(f.cells[0], f.cells[1]); std::swap(f.dom[0], f.dom[1]); } if (v == 2 || v == 5) std::reverse(f.cells[0].begin(), f.cells[0].end()); if (v == 3) rotate(f.cells[1], 2); if (v == 4) { std::reverse(f.bnd.begin(), f.bnd.end()); std::reverse(f.bid.begin(), f.bid.end()); } if (v == 5) rotate(f.bnd[0], 1);
    f.coords(); f.put(2); f.nl(); for (size_t i = 0; i < 2; i++) { f.put(f.dom[i]); for (size_t p : f.cells[i]) f.put(p+1); f.nl(); } bool inner = v == 3 || v == 4; f.put(6 + inner); f.nl(); for (size_t i = 0; i < 6; i++) { f.put(f.bid[i]); for (size_t p : f.bnd[i]) f.put(p+1); f.nl(); } if (inner) f.out += "77 2 3 4\n";
    disk::simplicial_mesh<T,3> m; vp_check(disk::load_mesh_netgen(file(f.out).c_str(), m), "the file is read"); if (inner) { f.bnd.push_back({1,2,3}); f.bid.push_back(77); } else check_topology(m, false); for (auto& fc : faces(m)) vp_check(m.boundary_info(fc).is_internal() == (inner && sorted_ids(fc) == std::vector<size_t>{1,2,3}), "a listed face between two cells is an internal boundary"); check_content(m, f, true, true); }
VP_H(cartesian_3d) {
    File f; f.dim = 3; Num x = sym("x", 0.3, 0.6), z = sym("z", 0.7, 1.2), o = con("0"), l = con("1"); for (auto& c : {o, z}) for (auto& b : {o, l}) for (auto& a : {o, x, l}) f.pts.push_back({a, b, c});
    auto id = [](size_t i, size_t j, size_t k) { return i + 3*j + 6*k; }; for (size_t i = 0; i < 2; i++) { std::vector<size_t> c; for (size_t k = 0; k < 2; k++) for (size_t j = 0; j < 2; j++) for (size_t a = 0; a < 2; a++) c.push_back(id(i+a,j,k)); f.cells.push_back(c); } f.dom = {0,0};
    for (size_t i = 0; i < 2; i++) { auto& c = f.cells[i]; f.bnd.push_back({c[0],c[1],c[3],c[2]}); f.bnd.push_back({c[4],c[5],c[7],c[6]}); f.bnd.push_back({c[0],c[4],c[5],c[1]}); f.bnd.push_back({c[2],c[6],c[7],c[3]}); if (i == 0) f.bnd.push_back({c[0],c[2],c[6],c[4]}); else f.bnd.push_back({c[1],c[3],c[7],c[5]}); } f.bid.assign(10, 0);
    if (vp_pick("cell_order", 0, 1)) std::swap(f.cells[0], f.cells[1]); if (vp_pick("face_order", 0, 1)) std::reverse(f.bnd.begin(), f.bnd.end());
    f.coords(); auto block = [&](const Lists& l) { f.put(l.size()); f.nl(); for (auto& c : l) { for (size_t v : c) f.put(v); f.nl(); } }; block(f.cells); block(f.bnd);
    disk::cartesian_mesh<T,3> m; vp_check(disk::load_mesh_diskpp_cartesian(file(f.out).c_str(), m), "the file is read"); check_topology(m); check_content(m, f, true, true); }
// a cube under a pyramid, with its faces and edges
static File house(int v, bool unit) {
    File f; f.dim = 3; Num h = sym("height", 1.4, 1.8), l = con("1"), o = con("0"); f.pts = {{o,o,o},{l,o,o},{l,l,o},{o,l,o},{o,o,l},{l,o,l},{l,l,l},{o,l,l}}; if (unit) f.cells = {{0,1,2,3,4,5,6,7}}; else { f.pts.push_back({sym("x", 0.4, 0.6), con("0.5"), h}); f.cells = {{0,1,2,3,4,5,6,7},{4,5,6,7,8}}; }
    f.faces = {{0,3,2,1},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}; f.cell_faces = {{0,1,2,3,4,5}}; if (!unit) { f.faces.push_back({4,5,8}); f.faces.push_back({5,6,8}); f.faces.push_back({6,7,8}); f.faces.push_back({7,4,8}); f.cell_faces.push_back({1,6,7,8,9}); }
    f.dom = {4,2}; f.dom.resize(f.cells.size()); if (v & 1) { std::reverse(f.cells.begin(), f.cells.end()); std::reverse(f.cell_faces.begin(), f.cell_faces.end()); std::reverse(f.dom.begin(), f.dom.end()); }
    if (v & 2) { size_t n = f.faces.size(); std::reverse(f.faces.begin(), f.faces.end()); for (auto& c : f.cell_faces) for (auto& x : c) x = n-1-x; rotate(f.faces[2], 1); std::reverse(f.faces[3].begin(), f.faces[3].end()); }
    for (auto& fc : f.faces) { std::vector<size_t> fe; for (size_t q = 0; q < fc.size(); q++) { size_t a = fc[q], b = fc[(q+1)%fc.size()], k = 0; for (; k < f.edges.size(); k++) if ((f.edges[k][0] == a && f.edges[k][1] == b) || (f.edges[k][0] == b && f.edges[k][1] == a)) break; if (k == f.edges.size()) f.edges.push_back({a, b}); fe.push_back(k); } f.face_edges.push_back(fe); }
    std::vector<int> n(f.faces.size(), 0); for (auto& c : f.cell_faces) for (size_t x : c) n[x]++; for (size_t i = 0; i < f.faces.size(); i++) if (n[i] == 1) { f.bnd.push_back(f.faces[i]); f.bid.push_back(20 + i); }
    return f; }
static size_t face_number(const File& f, const std::vector<size_t>& b) { size_t i = 0; while (f.faces[i] != b) i++; return i; }
VP_H(fvca6_3d) {
    bool unit = vp_pick("unit", 0, 1); File f = house(vp_pick("variant", 0, 3), unit); f.dom.assign(f.cells.size(), 0); for (size_t i = 0; i < f.bnd.size(); i++) { auto& b = f.bnd[i]; f.bid[i] = 0; if (unit) for (size_t a = 0; a < 3; a++) for (int s = 0; s < 2; s++) { bool on = true; for (size_t p : b) on &= f.pts[p][a].v == T(s); if (on) f.bid[i] = (a == 0 ? 2 : a == 1 ? 1 : 0) + 3*s; } }
    for (int i = 0; i < 16; i++) f.key("a line of the header"); auto block = [&](const char* k, const Lists& l) { f.key(k); f.put(l.size()); f.nl(); for (auto& c : l) { f.put(c.size()); for (size_t v : c) f.put(v+1); f.nl(); } };
    f.key("Vertices"); f.coords(); block("Volumes->faces", f.cell_faces); block("Volumes->Verticess", f.cells); block("Faces->Edgess", f.face_edges); block("Faces->Vertices", f.faces);
    f.key("Faces->Control volumes"); f.put(f.faces.size()); f.nl(); for (size_t i = 0; i < f.faces.size(); i++) { size_t n = 0; for (size_t c = 0; c < f.cells.size(); c++) for (size_t x : f.cell_faces[c]) if (x == i) { f.put(c+1); n++; } if (n == 1) f.out += "-1 "; f.nl(); }
    f.key("Edges"); f.put(f.edges.size()); f.nl(); for (auto& e : f.edges) { f.put(e[0]+1); f.put(e[1]+1); f.nl(); }
    disk::generic_mesh<T,3> m; vp_check(disk::load_mesh_fvca6_3d(file(f.out).c_str(), m), "the file is read"); check_topology(m); check_content(m, f, true, true); }
VP_H(medit_3d) {
    File f = house(vp_pick("variant", 0, 3), false); f.dom.assign(2, 0); f.bid[3] = 5*vp_pick("ids", 0, 2); f.key("MeshVersionFormatted 2\nDimension 3\nVertices"); f.coords();
    auto block = [&](const char* k, const Lists& l) { f.key(k); f.put(l.size()); f.nl(); for (auto& c : l) { f.put(c.size()); for (size_t v : c) f.put(v); f.nl(); } };
    block("Volumes->Faces", f.cell_faces); block("Volumes->Vertices", f.cells); block("Faces->Edges", f.face_edges); block("Faces->Vertices", f.faces); f.key("Faces->Control volumes"); f.put(f.bnd.size()); f.nl(); for (size_t i = 0; i < f.bnd.size(); i++) { f.put(face_number(f, f.bnd[i])); f.put(f.bid[i]); f.nl(); }
    f.key("Edges"); f.put(f.edges.size()); f.nl(); for (auto& e : f.edges) { f.put(e[0]); f.put(e[1]); f.nl(); }
    disk::generic_mesh<T,3> m; vp_check(disk::load_mesh_medit(file(f.out).c_str(), m), "the file is read"); check_topology(m); check_content(m, f, true, true); size_t k = 0; for (auto& e : m.backend_storage()->edges) { auto p = sorted_ids(e); bool found = false; for (auto x : f.edges) { std::sort(x.begin(), x.end()); found |= x == p; } vp_check(found, "edges of the file"); k++; } vp_check(k == f.edges.size(), "number of edges"); }
VP_H(poly_3d) {
    File f = house(vp_pick("variant", 0, 3), false); f.bid[3] = 5*vp_pick("ids", 0, 2); f.key("**BeginMesh\n*Dimension 3\n*Version 1\n*Nodes"); f.put(f.pts.size()); f.nl(); for (size_t i = 0; i < f.pts.size(); i++) { f.put(i); for (auto& c : f.pts[i]) f.out += c.t + " "; f.nl(); }
    auto block = [&](const char* k, const Lists& l) { f.key(k); f.put(l.size()); f.nl(); for (size_t i = 0; i < l.size(); i++) { f.put(i); f.put(l[i].size()); for (size_t v : l[i]) f.put(v); f.nl(); } };
    block("*Edges->Nodes", f.edges); block("*Faces->Nodes", f.faces); block("*Faces->Edges", f.face_edges); block("*Volumes->Nodes", f.cells); block("*Volumes->Faces", f.cell_faces);
    f.key("*Faces->Groups"); f.put(f.bnd.size()); f.nl(); for (size_t i = 0; i < f.bnd.size(); i++) { f.out += "side "; f.put(f.bid[i]); f.put(1); f.put(face_number(f, f.bnd[i])); f.nl(); } f.key("*Volumes->Groups"); f.put(2); f.nl(); for (size_t i = 0; i < 2; i++) { f.out += "part "; f.put(f.dom[i]); f.put(1); f.put(i); f.nl(); } f.key("**EndMesh");
    disk::generic_mesh<T,3> m; vp_check(disk::load_mesh_poly(file(f.out).c_str(), m), "the file is read"); check_topology(m); check_content(m, f, true, true); }
