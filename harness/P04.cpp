//@bound meshes: one cell of every kind with every size and position, two to four cells of every kind, the simple meshers refined up to twice (2D) or once (3D), the hexagonal mesher up to level 2; queries: elements with any point ids
#include "topo.hpp"
#include "diskpp/mesh/meshgen.hpp"
using namespace vp;
// meshes made of one element: everything about their structure, with the corners asked for
static void at2(const P2& p, T x, T y) { vp_close(p.x(), x, 1e-9, "corner"); vp_close(p.y(), y, 1e-9, "corner"); }
VP_H(P04_single_segment) { T a = vp_real("a",-2,0), b = vp_real("b",0.5,2); disk::generic_mesh<T,1> m; disk::make_single_element_mesh(m, a, b); vp_check(m.cells_size() == 1 && m.faces_size() == 2, "one segment"); check_topology(m); auto p = points(m, m[0]); vp_close(p[0].x(), a, 1e-9, "end"); vp_close(p[1].x(), b, 1e-9, "end"); vp_close(measure(m, m[0]), b-a, 1e-9, "length"); }
VP_H(P04_single_triangle) { T h = vp_real("h",0.3,2); P2 a = pt2("a",0,0,0.2), b = V2(1.1,0.), c(0.1*h,h); disk::simplicial_mesh<T,2> m; disk::make_single_element_mesh(m, a, b, c); vp_check(m.cells_size() == 1 && m.faces_size() == 3, "one triangle"); check_topology(m, false); auto p = points(m, m[0]); at2(p[0],a.x(),a.y()); at2(p[1],b.x(),b.y()); at2(p[2],c.x(),c.y()); vp_close(measure(m, m[0]), cross2(a,b,c)/2, 1e-9, "area"); }
VP_H(P04_single_tetrahedron) { P3 a = V3(0.,0.1,0.), b = V3(1.,0.,0.1), c = V3(-0.1,1.2,0.), d = pt3("d",0,0,1,0.2); disk::simplicial_mesh<T,3> m; disk::make_single_element_mesh(m, a, b, c, d); vp_check(m.cells_size() == 1 && m.faces_size() == 4, "one tetrahedron"); check_topology(m, false); vp_close(measure(m, m[0]), det3(a,b,c,d)/6, 1e-9, "volume"); vp_check(m.backend_storage()->edges.size() == 6 && m.backend_storage()->nodes.size() == 4, "edges and nodes"); }
VP_H(P04_single_rectangle) { P2 o = pt2("o",0,0,1); T hx = vp_real("hx",0.2,2), hy = vp_real("hy",0.2,2); disk::cartesian_mesh<T,2> m; disk::make_single_element_mesh(m, o, hx, hy); vp_check(m.cells_size() == 1 && m.faces_size() == 4, "one rectangle"); check_topology(m, false); vp_close(measure(m, m[0]), hx*hy, 1e-9, "area"); T per = 0; for (auto& fc : faces(m, m[0])) { auto p = points(m, fc); T ax = p[1].x()-p[0].x(), ay = p[1].y()-p[0].y(); vp_close(ax*ay, 0, 1e-9, "edges are parallel to the axes"); per += std::abs(ax) + std::abs(ay); } vp_close(per, 2*hx+2*hy, 1e-9, "perimeter"); }
VP_H(P04_single_box) { P3 o = pt3("o",0,0,0,1); T hx = vp_real("hx",0.2,2), hy = vp_real("hy",0.2,2), hz = vp_real("hz",0.2,2); disk::cartesian_mesh<T,3> m; disk::make_single_element_mesh(m, o, hx, hy, hz); vp_check(m.cells_size() == 1 && m.faces_size() == 6 && m.backend_storage()->edges.size() == 12, "one box"); check_topology(m, false); vp_close(measure(m, m[0]), hx*hy*hz, 1e-9, "volume"); T s = 0; for (auto& fc : faces(m, m[0])) s += measure(m, fc); vp_close(s, 2*(hx*hy+hx*hz+hy*hz), 1e-9, "surface"); }
VP_H(P04_single_polygon) { size_t n = vp_pick("n",3,8); T r = vp_real("r",0.5,2); disk::generic_mesh<T,2> m; disk::make_single_element_mesh(m, r, n); vp_check(m.cells_size() == 1 && m.faces_size() == n, "one polygon"); check_topology(m, false); for (auto& p : points(m, m[0])) vp_close(p.x()*p.x()+p.y()*p.y(), r*r, 1e-9, "corners are on the circle"); vp_close(measure(m, m[0]), n*r*r*std::sin(2*M_PI/n)/2, 1e-9, "area of the regular polygon"); }
// small meshes and the meshers
VP_H(P04_small2) { int k = vp_pick("mesh",0,3); with_mesh2(k, [](auto& m) { check_topology(m); }); }
VP_H(P04_small3) { int k = vp_pick("mesh",0,2); with_mesh3(k, [](auto& m) { check_topology(m); }); }
VP_H(P04_triangles) { int l = vp_pick("refine",0,2); disk::simplicial_mesh<T,2> m; auto s = disk::make_simple_mesher(m); for (int i = 0; i < l; i++) s.refine(); check_topology(m); }
VP_H(P04_quads) { int l = vp_pick("refine",0,1+vp_tier()); disk::cartesian_mesh<T,2> m; auto s = disk::make_simple_mesher(m); for (int i = 0; i < l; i++) s.refine(); check_topology(m); }
VP_H(P04_tets) { int l = vp_pick("refine",0,1); disk::simplicial_mesh<T,3> m; auto s = disk::make_simple_mesher(m); for (int i = 0; i < l; i++) s.refine(); check_topology(m, l == 0); }
VP_H(P04_hexagons) { int l = vp_pick("level",0,1+vp_tier()); disk::generic_mesh<T,2> m; auto s = disk::make_fvca5_hex_mesher(m); s.make_level(l); check_topology(m); }
// transform moves the points and nothing else
VP_H(P04_transform) { int k = vp_pick("mesh",0,3); with_mesh2(k, [](auto& m) { T a = vp_real("a",-1,1), b = vp_real("b",-1,1), c = vp_real("c",0.5,2); std::vector<P2> old(m.points_begin(), m.points_end()); m.transform([&](const P2& p) { return P2(a + c*p.x() - b*p.y(), b*p.x() + p.y()*p.x()); }); for (size_t i = 0; i < old.size(); i++) { auto p = m.backend_storage()->points[i]; vp_close(p.x(), a + c*old[i].x() - b*old[i].y(), 1e-9, "transformed points"); vp_close(p.y(), b*old[i].x() + old[i].y()*old[i].x(), 1e-9, "transformed points"); } check_topology(m, false); }); }
// elements are found if and only if they are in the mesh
template<typename M, typename E, typename IT> static void query(M& m, const E& e, IT b, IT en) { size_t n = 0, pos = 0, i = 0; for (auto it = b; it != en; ++it, ++i) if (sorted_ids(*it) == sorted_ids(e)) { n++; pos = i; } vp_check(n <= 1, "elements are there once"); auto r = disk::find_element_id(b, en, e); vp_check(r.first == (n == 1), "elements are found if they are there"); if (n) { vp_check(size_t(r.second) == pos && size_t(m.lookup(e)) == pos && disk::offset(m, e) == pos, "position of the element"); vp_check(e == *std::next(b, pos), "elements are equal"); } else { vp_check(refuses([&]() { m.lookup(e); }) && refuses([&]() { disk::offset(m, e); }), "missing elements are refused"); for (auto it = b; it != en; ++it) vp_check(!(e == *it), "different elements are different"); } }
VP_H(P04_query_triangle) { typedef disk::simplicial_mesh<T,2> M; M m; build_tri(m, {V2(0.,0.),V2(1.,0.1),V2(0.2,0.9),V2(1.3,1.1)}, {{0,1,2},{1,3,2}}); typedef disk::point_identifier<2> I; size_t a = vp_int("a",0,4), b = vp_int("b",0,4), c = vp_int("c",0,4); vp_assume(a != b && b != c && a != c); query(m, typename M::face_type{I(a), I(b)}, m.faces_begin(), m.faces_end()); query(m, typename M::cell_type{I(a), I(b), I(c)}, m.cells_begin(), m.cells_end()); }
VP_H(P04_query_tetrahedron) { typedef disk::simplicial_mesh<T,3> M; M m; build_tet(m, {V3(0.,0.,0.),V3(1.,0.1,0.),V3(0.2,0.9,0.),V3(0.1,0.2,1.),V3(0.9,1.,0.8)}, {{0,1,2,3},{1,2,3,4}}); typedef disk::point_identifier<3> I; size_t a = vp_int("a",0,4), b = vp_int("b",0,4), c = vp_int("c",0,5); vp_assume(a != b && b != c && a != c); query(m, typename M::face_type{I(a), I(b), I(c)}, m.faces_begin(), m.faces_end()); }
VP_H(P04_query_edge) { int k = vp_pick("mesh",2,3); with_mesh2(k, [](auto& m) { typedef std::decay_t<decltype(m)> M; if constexpr (requires { typename M::face_type::sub_id_type; }) { typedef typename M::face_type::sub_id_type I; size_t a = vp_int("a",0,8), b = vp_int("b",0,8); vp_assume(a != b); query(m, typename M::face_type(I(a), I(b)), m.faces_begin(), m.faces_end()); } }); }
// cells of the general meshes are their lists of edges
VP_H(P04_equal_polygons) { typedef disk::generic_mesh<T,2>::cell_type C; typedef disk::generic_mesh<T,2>::face_type::id_type I; size_t n = vp_pick("n",3,4), q = vp_pick("q",3,4), r[4], s[4]; std::vector<I> u, v; bool same = n == q; for (size_t i = 0; i < n; i++) { r[i] = vp_int("r",0,5); u.push_back(I(r[i])); } for (size_t i = 0; i < q; i++) { s[i] = vp_int("s",0,5); v.push_back(I(s[i])); }
    size_t i = 0; while (i < n && i < q && r[i] == s[i]) i++; bool lt = i < n && i < q ? r[i] < s[i] : n < q, eq = i == n && i == q; C a(u), b(v); vp_check((a == b) == eq, "equal cells have equal edges"); vp_check((a < b) == lt, "order of the cells"); }
// boundary and subdomain descriptors
VP_H(P04_descriptors) { size_t a = vp_int("id",0,1000), t = vp_int("tag",0,1000); bool b = vp_pick("boundary",0,1); disk::boundary_descriptor z, d(a, b), e(a, t, b); vp_check(!z.is_boundary() && !z.is_internal() && z.id() == 0, "no boundary by default"); vp_check(d.id() == a && d.tag() == a && d.is_boundary() == b && !d.is_internal(), "descriptor with an id"); vp_check(e.id() == a && e.tag() == t && e.is_boundary() == b, "descriptor with a tag"); e.id(t); vp_check(e.id() == t && e.tag() == t, "a new id"); e.tag(a); vp_check(e.id() == t && e.tag() == a, "a new tag"); e.is_internal(true); vp_check(e.is_internal(), "internal"); e.is_boundary(!b); vp_check(e.is_boundary() == !b, "boundary"); disk::subdomain_descriptor s(a), w(a, t), y; vp_check(s.id() == a && s.tag() == a && w.id() == a && w.tag() == t && y.id() == 0, "subdomains"); }
// mark_internal_faces
VP_H(P04_internal) { int k = vp_pick("mesh",0,3); with_mesh2(k, [](auto& m) { auto st = m.backend_storage(); size_t f = 0; auto own = owners(m); std::vector<bool> was; for (size_t i = 0; i < own.size(); i++) { was.push_back(st->boundary_info[i].is_boundary()); if (own[i].size() == 2 && !f) { st->boundary_info[i] = disk::boundary_descriptor(7, true); was[i] = true; f = i; } } disk::mark_internal_faces(m); for (size_t i = 0; i < own.size(); i++) { vp_check(st->boundary_info[i].is_boundary() == was[i], "boundary faces stay so"); vp_check(st->boundary_info[i].is_internal() == (was[i] && own[i].size() == 2), "boundaries inside the mesh are internal"); } }); }
