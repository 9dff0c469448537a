//@bound tetrahedra with all vertices in boxes of half-width 0.08 around a reference tetrahedron, both orientations; boxes with symbolic sides and position; prisms, pyramids and cubes as generic cells with symbolic height, shear and one moving apex; planar polygonal faces with 3 to 6 vertices in planes of four slopes
#include "meshes.hpp"
using namespace vp;
VP_H(P08_tet) { disk::simplicial_mesh<T,3> msh; std::vector<P3> p{pt3("a",0,0,0,0.08),pt3("b",1,0,0,0.08),pt3("c",0,1,0,0.08),pt3("d",0,0,1,0.08)}; if (vp_bool("mirror")) std::swap(p[1],p[2]); build_tet(msh, p, {{0,1,2,3}}); auto cl = *msh.cells_begin();
    T v = det3(p[0],p[1],p[2],p[3])/6, m = measure(msh, cl); vp_check(m > 0, "volume positive"); vp_close(m*m, v*v, 1e-9, "volume of a tetrahedron");
    T ms = measure(msh, cl, true); vp_close(ms, v, 1e-9, "signed volume of a tetrahedron");
    auto b = barycenter(msh, cl); vp_close(4*b.x(), p[0].x()+p[1].x()+p[2].x()+p[3].x(), 1e-12, "barycenter x"); vp_close(4*b.z(), p[0].z()+p[1].z()+p[2].z()+p[3].z(), 1e-12, "barycenter z"); }
static T cross_norm2(const P3& a, const P3& b, const P3& c) { T u[3] = {b.x()-a.x(),b.y()-a.y(),b.z()-a.z()}, v[3] = {c.x()-a.x(),c.y()-a.y(),c.z()-a.z()}; T x = u[1]*v[2]-u[2]*v[1], y = u[2]*v[0]-u[0]*v[2], z = u[0]*v[1]-u[1]*v[0]; return x*x+y*y+z*z; }
VP_H(P08_tet_face) { disk::simplicial_mesh<T,3> msh; std::vector<P3> p{V3(0,0,0),pt3("b",1,0,0,0.2),pt3("c",0,1,0,0.2),V3(0.3,0.3,1)}; build_tet(msh, p, {{0,1,2,3}});
    auto fc = *msh.faces_begin(); auto q = points(msh, fc); T m = measure(msh, fc); vp_check(m > 0, "face area positive"); vp_close(4*m*m, cross_norm2(q[0],q[1],q[2]), 1e-8, "area of a triangular face"); }
VP_H(P08_box) { disk::cartesian_mesh<T,3> msh; P3 o = pt3("o",0,0,0,2); T a = vp_real("a",0.1,3), b = vp_real("b",0.1,3), c = vp_real("c",0.1,3);
    std::vector<P3> p; for (int i = 0; i < 8; i++) p.push_back(V3(o.x()+(i&1?a:0), o.y()+(i&2?b:0), o.z()+(i&4?c:0))); build_cart(msh, p, {{0,1,2,3,4,5,6,7}}); auto cl = *msh.cells_begin();
    vp_close(measure(msh, cl), a*b*c, 1e-9, "volume of a box"); auto g = barycenter(msh, cl); vp_close(g.x(), o.x()+a/2, 1e-9, "centre x"); vp_close(g.y(), o.y()+b/2, 1e-9, "centre y"); vp_close(g.z(), o.z()+c/2, 1e-9, "centre z");
    T s = 0; for (auto& fc : faces(msh, cl)) s += measure(msh, fc); vp_close(s, 2*(a*b+b*c+a*c), 1e-9, "areas of the faces of a box"); vp_check(howmany_faces(msh, cl) == 6, "six faces"); }
template<size_t N> static void gen(const std::vector<P3>& p, const std::vector<std::vector<size_t>>& f, const std::array<std::array<size_t,4>,N>& tets) {
    disk::generic_mesh<T,3> msh; build_poly3(msh, p, {f}); auto cl = *msh.cells_begin(); T v = 0; for (auto& t : tets) v += det3(p[t[0]],p[t[1]],p[t[2]],p[t[3]])/6;
    T m = measure(msh, cl); vp_close(m, v, 1e-8, "volume of a polyhedron"); vp_check(faces(msh, cl).size() == f.size(), "number of faces"); vp_check(points(msh, cl).size() == p.size(), "number of points"); }
VP_H(P08_prism) { T h = vp_real("h",0.3,2), t = vp_real("t",-0.3,0.3), u = vp_real("u",-0.4,0.4); std::vector<P3> p{V3(0,0,0),V3(1,0,0),V3(0.3+t,1,0),V3(u,0,h),V3(1+u,0,h),V3(0.3+t+u,1,h)};
    gen<3>(p, {{0,1,2},{3,4,5},{0,1,4,3},{1,2,5,4},{0,2,5,3}}, {{{0,1,2,3},{1,2,3,4},{2,3,4,5}}}); }
VP_H(P08_pyramid) { P3 a = pt3("apex",0.5,0.5,1,0.3); std::vector<P3> p{V3(0,0,0),V3(1,0,0),V3(1,1,0),V3(0,1,0),a}; gen<2>(p, {{0,1,2,3},{0,1,4},{1,2,4},{2,3,4},{0,3,4}}, {{{0,1,2,4},{0,2,3,4}}}); }
VP_H(P08_gtet) { std::vector<P3> p{V3(0,0,0),pt3("b",1,0,0,0.2),V3(0,1,0),pt3("d",0,0,1,0.2)}; gen<1>(p, {{0,1,2},{0,1,3},{1,2,3},{0,2,3}}, {{{0,1,2,3}}}); }
VP_H(P08_cube) { T a = vp_real("a",0.2,2), b = vp_real("b",0.2,2), c = vp_real("c",0.2,2); std::vector<P3> p; for (int i = 0; i < 8; i++) p.push_back(V3(i&1?a:0, i&2?b:0, i&4?c:0)); disk::generic_mesh<T,3> msh; build_poly3(msh, p, {hex_faces()}); vp_close(measure(msh, *msh.cells_begin()), a*b*c, 1e-8, "volume of a generic cube"); }
// convex planar polygonal faces (one moving vertex, out-of-plane direction symbolic) seen as a face of a pyramid
VP_H(P08_face) { int n = vp_pick("n",3,6); T al = vp_pick("slope",-1,2)*0.5; std::vector<P2> q; for (int i = 0; i < n; i++) q.push_back(V2(std::cos(2*M_PI*i/n), std::sin(2*M_PI*i/n))); int k = vp_tier() ? vp_pick("which",0,n-1) : 1; T dx = vp_real("dx",-0.1,0.1); q[k] = V2(q[k].x()+dx, q[k].y());
    std::vector<P3> p; for (auto& x : q) p.push_back(V3(x.x(), x.y(), al*x.x())); p.push_back(V3(0,0,3)); std::vector<std::vector<size_t>> f(1); for (int i = 0; i < n; i++) { f[0].push_back(i); f.push_back({(size_t)i,(size_t)((i+1)%n),(size_t)n}); }
    disk::generic_mesh<T,3> msh; build_poly3(msh, p, {f}); T A = signed_area(q); for (auto itor = msh.faces_begin(); itor != msh.faces_end(); itor++) { auto fc = *itor; auto pts = points(msh, fc); bool base = true; for (auto& z : pts) if (!vp_is_sym(z.z()) && z.z() == 3) base = false; if (!base || (n == 3 && pts.size() != 3)) continue; T m = measure(msh, fc); vp_check(m > 0, "area of a planar face positive"); vp_close(m*m, A*A*(1+al*al), 1e-7, "area of a planar polygonal face"); } }
