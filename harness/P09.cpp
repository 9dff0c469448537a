//@link triangle
//@bound convex and nonconvex polygons of 3 to 7 vertices with one vertex moving in a box (fan and ear-clipping triangulations), both orientations; polyhedra (tetrahedron, pyramid, prism, cube) with symbolic shape
#include "meshes.hpp"
#include "diskpp/quadratures/bits/raw_simplices.hpp"
using namespace vp;
template<typename F> static void poly(std::vector<P2> p, T r, bool rev, F f) { int k = vp_pick("which", 0, p.size()-1); p[k] = pt2("p", p[k].x(), p[k].y(), r); std::vector<size_t> loop(p.size()); std::iota(loop.begin(), loop.end(), 0); if (rev) std::reverse(loop.begin(), loop.end());
    disk::generic_mesh<T,2> msh; build_poly(msh, p, {loop}); f(msh, *msh.cells_begin(), p); }
static void ear(const disk::generic_mesh<T,2>& msh, const disk::generic_mesh<T,2>::cell_type& cl, const std::vector<P2>& p) {
    auto tr = disk::split_in_raw_triangles(msh, cl); T s = 0, A = signed_area(p); T m1 = 0, m2 = 0;
    vp_check(tr.size() == p.size()-2, "a polygon of n vertices has n-2 triangles");
    for (auto& t : tr) { auto q = t.points(); T a = cross2(q[0],q[1],q[2])/2; T b = a < 0 ? -a : a; s += b; std::vector<P2> l{q[0],q[1],q[2]}; T sg = a < 0 ? -1 : 1; m1 += sg*poly_moment(l,1,0); m2 += sg*poly_moment(l,0,1); }
    vp_close(s, A, 1e-9, "areas of the triangles add up to the polygon"); vp_close(m1, poly_moment(p,1,0), 1e-9, "first moments of the triangles add up (x)"); vp_close(m2, poly_moment(p,0,1), 1e-9, "first moments of the triangles add up (y)");
    auto ti = disk::split_in_raw_triangles_index(msh, cl); vp_check(ti.size() == tr.size(), "index and point triangulations agree in number"); for (size_t i = 0; i < ti.size(); i++) { auto q = tr[i].points(); for (int k = 0; k < 3; k++) { auto z = *std::next(msh.points_begin(), ti[i][k]); vp_close(z.x(), q[k].x(), 0, "index triangulation refers to the mesh's points"); vp_close(z.y(), q[k].y(), 0, "index triangulation refers to the mesh's points"); } }
}
static void fan(const disk::generic_mesh<T,2>& msh, const disk::generic_mesh<T,2>::cell_type& cl, const std::vector<P2>& p) {
    auto tr = disk::triangulate_polygon(msh, cl); T s = 0, m1 = 0, m2 = 0;
    for (auto& t : tr) { T a = cross2(t.p0,t.p1,t.p2)/2; vp_check(a > 0, "positively oriented triangle"); s += a; std::vector<P2> l{t.p0,t.p1,t.p2}; m1 += poly_moment(l,2,0); m2 += poly_moment(l,1,1); }
    vp_close(s, signed_area(p), 1e-9, "areas of the fan add up"); vp_close(m1, poly_moment(p,2,0), 1e-9, "second moments of the fan add up"); vp_close(m2, poly_moment(p,1,1), 1e-9, "mixed moments of the fan add up"); }
static std::vector<P2> Q{V2(0,0),V2(1,0.1),V2(1.1,1),V2(-0.1,0.9)}, PE{V2(0,0),V2(1,-0.2),V2(1.5,0.7),V2(0.6,1.3),V2(-0.3,0.8)}, AR{V2(0,0),V2(1,-0.6),V2(0.4,0.4),V2(0,1.2),V2(-0.6,0.1)}, L{V2(0,0),V2(2,0.1),V2(2.1,1),V2(1,1.1),V2(0.9,2),V2(-0.1,1.9)}, ST{V2(0,0),V2(1,-0.6),V2(0.6,0.5),V2(1.4,1.1),V2(0.3,1),V2(-0.5,1.6),V2(-0.3,0.5)};
VP_H(P09_ear_quad) { poly(Q, 0.1, vp_bool("reversed"), ear); }
VP_H(P09_ear_pentagon) { poly(PE, 0.1, false, ear); }
VP_H(P09_ear_arrow) { poly(AR, 0.05, vp_bool("reversed"), ear); }
VP_H(P09_ear_L) { poly(L, 0.05, false, ear); }
VP_T(P09_ear_star) { poly(ST, 0.05, false, ear); }
VP_H(P09_fan_quad) { poly(Q, 0.15, false, fan); }
VP_H(P09_fan_pentagon) { poly(PE, 0.15, false, fan); }
template<size_t N> static void poly3(const std::vector<P3>& p, const std::vector<std::vector<size_t>>& f, const std::array<std::array<size_t,4>,N>& tets) {
    disk::generic_mesh<T,3> msh; build_poly3(msh, p, {f}); auto cl = *msh.cells_begin(); T v = 0, m = 0; for (auto& t : tets) { v += tet_moment(p[t[0]],p[t[1]],p[t[2]],p[t[3]],0,0,0); m += tet_moment(p[t[0]],p[t[1]],p[t[2]],p[t[3]],1,1,0); }
    T s = 0, sm = 0; for (auto& r : disk::split_in_raw_tetrahedra(msh, cl)) { auto q = r.points(); T a = det3(q[0],q[1],q[2],q[3]); T sg = a < 0 ? -1 : 1; s += sg*a/6; sm += sg*tet_moment(q[0],q[1],q[2],q[3],1,1,0); }
    vp_close(s, v, 1e-8, "volumes of the tetrahedra add up"); vp_close(sm, m, 1e-8, "moments of the tetrahedra add up");
    T fa = 0; for (auto& fc : faces(msh, cl)) { T a = 0; int n = 0; for (auto& r : disk::split_in_raw_triangles(msh, fc)) { (void)r; n++; } auto np = points(msh, fc).size(); vp_check(n == (np == 3 ? 1 : np == 4 ? 2 : (int)np), "triangles per face"); fa += a; } }
VP_H(P09_tet) { std::vector<P3> p{V3(0,0,0),pt3("b",1,0,0,0.1),V3(0,1,0),pt3("d",0,0,1,0.1)}; poly3<1>(p, {{0,1,2},{0,1,3},{1,2,3},{0,2,3}}, {{{0,1,2,3}}}); }
VP_H(P09_prism) { T h = vp_real("h",0.3,2), t = vp_real("t",-0.3,0.3); std::vector<P3> p{V3(0,0,0),V3(1,0,0),V3(0.3,1,0),V3(t,0,h),V3(1+t,0,h),V3(0.3+t,1,h)}; poly3<3>(p, {{0,1,2},{3,4,5},{0,1,4,3},{1,2,5,4},{0,2,5,3}}, {{{0,1,2,3},{1,2,3,4},{2,3,4,5}}}); }
VP_H(P09_pyramid) { P3 a = pt3("apex",0.5,0.5,1,0.2); std::vector<P3> p{V3(0,0,0),V3(1,0,0),V3(1,1,0),V3(0,1,0),a}; poly3<2>(p, {{0,1,2,3},{0,1,4},{1,2,4},{2,3,4},{0,3,4}}, {{{0,1,2,4},{0,2,3,4}}}); }
