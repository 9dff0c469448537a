//@bound triangles with all vertices moving, quadrilaterals to hexagons and polyhedra with one vertex moving, query points anywhere in a box around the cell; point sets of 3 (2D) and 4 (3D) mesh points with symbolic coordinates
#include "meshes.hpp"
#include "diskpp/quadratures/quadratures.hpp"
//@link jb
using namespace vp;
template<typename M, typename E> static void extents(const M& msh, const E& cl, bool exact = false) {
    constexpr size_t D = M::dimension; auto pts = points(msh, cl); T d = diameter(msh, cl); vp_check(d > 0, "diameter positive"); bool att = false; T tol = vp_symbolic() && exact ? 0 : 1e-9;
    for (size_t i = 0; i < pts.size(); i++) for (size_t j = 0; j < i; j++) { T q = 0; for (size_t k = 0; k < D; k++) q += (pts[i][k]-pts[j][k])*(pts[i][k]-pts[j][k]); vp_check(q <= d*d + tol, "no two vertices are further apart than the diameter"); if (q >= d*d - tol) att = true; }
    vp_check(att, "the diameter is attained"); }
template<typename M, typename E> static void box(const M& msh, const E& cl) {
    constexpr size_t D = M::dimension; auto pts = points(msh, cl); auto w = disk::diameters(msh, cl); auto c = disk::bb_barycenter(msh, cl); auto h = disk::diameter_boundingbox(msh, cl);
    for (size_t k = 0; k < D; k++) { T lo = pts[0][k], hi = pts[0][k]; for (auto& p : pts) { if (p[k] < lo) lo = p[k]; if (p[k] > hi) hi = p[k]; }
        vp_close(w[k], hi-lo, 1e-12, "width of the bounding box"); vp_close(2*c[k], hi+lo, 1e-12, "centre of the bounding box"); vp_close(h[k], hi-lo, 1e-12, "bounding box size"); } }
VP_H(P10_diam_tri) { disk::simplicial_mesh<T,2> msh; std::vector<P2> p{pt2("a",0,0,0.2),V2(1,0.1),pt2("c",0.2,1,0.2)}; build_tri(msh, p, {{0,1,2}}); extents(msh, *msh.cells_begin(), true); }
VP_H(P10_box_tri) { disk::simplicial_mesh<T,2> msh; std::vector<P2> p{pt2("a",0,0,0.6),pt2("b",1,0.1,0.6),V2(0.2,1)}; build_tri(msh, p, {{0,1,2}}); box(msh, *msh.cells_begin()); }
VP_H(P10_diam_poly) { disk::generic_mesh<T,2> msh; std::vector<P2> p{V2(0,0),V2(1,-0.2),pt2("c",1.5,0.7,0.4),V2(0.6,1.3),V2(-0.3,0.8)}; build_poly(msh, p, {{0,1,2,3,4}}); extents(msh, *msh.cells_begin()); box(msh, *msh.cells_begin()); for (auto i = msh.faces_begin(); i != msh.faces_end(); i++) extents(msh, *i); }
VP_H(P10_diam_tet) { disk::simplicial_mesh<T,3> msh; std::vector<P3> p{V3(0,0,0),V3(1,0,0),V3(0,1,0),pt3("d",0.2,0.2,1,0.3)}; build_tet(msh, p, {{0,1,2,3}}); extents(msh, *msh.cells_begin()); box(msh, *msh.cells_begin()); }
VP_H(P10_diam_box) { disk::cartesian_mesh<T,3> msh; T a = vp_real("a",0.1,3), b = vp_real("b",0.1,3), c = vp_real("c",0.1,3); std::vector<P3> p; for (int i = 0; i < 8; i++) p.push_back(V3(i&1?a:0, i&2?b:0, i&4?c:0)); build_cart(msh, p, {{0,1,2,3,4,5,6,7}}); T d = diameter(msh, *msh.cells_begin()); vp_close(d*d, a*a+b*b+c*c, 1e-8, "diameter of a box"); }
VP_H(P10_average) { disk::generic_mesh<T,1> msh; T a = vp_real("a",0.1,3), b = vp_real("b",0.1,3); build_1d(msh, {0, a, a+b}); vp_close(disk::average_diameter(msh), (a+b)/2, 1e-9, "mean diameter"); }
static bool in_tri(const std::vector<P2>& p, const P2& q, T& m) { T s = cross2(p[0],p[1],p[2]); T sg = s < 0 ? -1 : 1; T a = sg*cross2(p[0],p[1],q), b = sg*cross2(p[1],p[2],q), c = sg*cross2(p[2],p[0],q); m = a < b ? a : b; if (c < m) m = c; return m >= 0; }
VP_H(P10_inside_tri) { disk::simplicial_mesh<T,2> msh; std::vector<P2> p{V2(0,0),V2(1,0.1),pt2("c",0.2,1,0.3)}; if (vp_bool("cw")) std::swap(p[0],p[1]); build_tri(msh, p, {{0,1,2}}); P2 q = pt2("q",0.4,0.4,1.5); T m; bool in = in_tri(p, q, m);
    if (m > 1e-6 || m < -1e-6) vp_check(disk::is_inside(msh, *msh.cells_begin(), q) == in, "point in triangle"); }
VP_H(P10_inside_quad) { disk::generic_mesh<T,2> msh; std::vector<P2> p{V2(0,0),V2(1,0.1),pt2("c",1.2,1,0.15),V2(-0.1,0.9)}; build_poly(msh, p, {{0,1,2,3}}); P2 q = pt2("q",0.5,0.5,1.5); T m = 1; for (int i = 0; i < 4; i++) { T a = cross2(p[i],p[(i+1)%4],q); if (a < m) m = a; }
    if (m > 1e-6 || m < -1e-6) vp_check(disk::is_inside(msh, *msh.cells_begin(), q) == (m > 0), "point in quadrilateral"); }
VP_H(P10_inside_rect) { disk::cartesian_mesh<T,2> msh; T a = vp_real("a",0.3,2), b = vp_real("b",0.3,2); std::vector<P2> p{V2(0,0),V2(a,0),V2(0,b),V2(a,b)}; build_cart(msh, p, {{0,1,2,3}}); P2 q = pt2("q",0.5,0.5,3); T e = 1e-6;
    bool in = q.x() > e && q.x() < a-e && q.y() > e && q.y() < b-e, out = q.x() < -e || q.x() > a+e || q.y() < -e || q.y() > b+e; if (in) vp_check(disk::is_inside(msh, *msh.cells_begin(), q), "interior point of a rectangle is inside"); if (out) vp_check(!disk::is_inside(msh, *msh.cells_begin(), q), "exterior point of a rectangle is outside"); }
VP_H(P10_inside_tet) { disk::simplicial_mesh<T,3> msh; std::vector<P3> p{V3(0,0,0),V3(1,0,0.1),V3(0.1,1,0),V3(0.2,0.2,1)}; if (vp_bool("mirror")) std::swap(p[1],p[2]); build_tet(msh, p, {{0,1,2,3}}); P3 q = pt3("q",0.3,0.3,0.3,1); T v = det3(p[0],p[1],p[2],p[3]); T m = det3(q,p[1],p[2],p[3])/v; T b = det3(p[0],q,p[2],p[3])/v, c = det3(p[0],p[1],q,p[3])/v, d = det3(p[0],p[1],p[2],q)/v; if (b < m) m = b; if (c < m) m = c; if (d < m) m = d;
    if (m > 1e-6 || m < -1e-6) vp_check(disk::is_inside(msh, *msh.cells_begin(), q) == (m > 0), "point in tetrahedron"); }
VP_H(P10_bounding_box) { disk::simplicial_mesh<T,2> msh; std::vector<P2> p{pt2("a",0,0,2),pt2("b",0,0,2),pt2("c",0,0,2)}; build_tri(msh, p, {{0,1,2}}); disk::bounding_box<disk::simplicial_mesh<T,2>> bb(msh);
    for (int k = 0; k < 2; k++) { T lo = p[0][k], hi = p[0][k]; for (auto& x : p) { if (x[k] < lo) lo = x[k]; if (x[k] > hi) hi = x[k]; } vp_close(bb.min()[k], lo, 1e-12, "lower corner of the mesh's bounding box"); vp_close(bb.max()[k], hi, 1e-12, "upper corner of the mesh's bounding box"); } }
VP_H(P10_convex) { disk::generic_mesh<T,2> msh; std::vector<P2> p{V2(0,0),V2(1,0.1),pt2("c",0.7,0.6,0.5),V2(-0.1,0.9)}; build_poly(msh, p, {{0,1,2,3}}); T m = 1; for (int i = 0; i < 4; i++) { T a = cross2(p[i],p[(i+1)%4],p[(i+2)%4]); if (a < m) m = a; } if (m > 1e-6 || m < -1e-6) vp_check(disk::is_convex(msh, *msh.cells_begin()) == (m >= 0), "convexity of a counterclockwise quadrilateral"); }
VP_H(P10_boundary) { disk::simplicial_mesh<T,2> msh; std::vector<P2> p{V2(0,0),V2(4,0),V2(2,4),V2(1.9,1),V2(2.1,1),V2(2,1.5)}; build_tri(msh, p, {{0,1,3},{1,3,4},{1,2,4},{2,4,5},{0,2,5},{0,3,5},{3,4,5}});
    for (auto& cl : msh) { auto q = cl.point_ids(); int n = 0; for (auto x : q) if (x < 3) n++; vp_check(disk::has_faces_on_boundary(msh, cl) == (n == 2), "cells touching the boundary"); } vp_print("x", vp_real("x",0,1)); }
VP_H(P10_axes) { disk::generic_mesh<T,2> msh; std::vector<P2> p{V2(0,0),V2(1,0.1),pt2("c",1.2,1,0.15),V2(-0.1,0.9)}; build_poly(msh, p, {{0,1,2,3}}); auto a = disk::element_local_axes(msh, *msh.cells_begin()); vp_close(a(0,0)*a(0,1)+a(1,0)*a(1,1), 0, 1e-9, "local axes orthogonal"); T d = diameter(msh, *msh.cells_begin()); vp_close(4*(a(0,0)*a(0,0)+a(1,0)*a(1,0)), d*d, 1e-8, "first local axis has half the diameter"); }
