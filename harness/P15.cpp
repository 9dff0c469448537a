//@bound convex and nonconvex polygons with one symbolic vertex (degree <= 3) and fully symbolic polynomials on fixed polygons (degree <= 8); polyhedra (prism, pyramid, box, wedge with pentagonal faces) with symbolic height or apex (degree <= 3) and symbolic polynomials on fixed shapes (degree <= 4), and their faces
//@link jb
//@link triangle
#include "meshes.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace vp;
static std::vector<P2> PE{V2(0,0),V2(1,-0.2),V2(1.5,0.7),V2(0.6,1.3),V2(-0.3,0.8)}, AR{V2(0,0),V2(1,-0.6),V2(0.4,0.4),V2(0,1.2),V2(-0.6,0.1)}, L{V2(0,0),V2(2,0.1),V2(2.1,1),V2(1,1.1),V2(0.9,2),V2(-0.1,1.9)}, DART{V2(0,0),V2(1.5,0.3),V2(0.5,0.6),V2(0.3,1.6)};
// one-parameter deformations that move both coordinates of every vertex: a part that stays concrete is rounded to a double, and the area is then no longer the exact root of a square
static void shape(std::vector<P2> p, T r, int dmax) { T m = vp_real("m", -r, r); int k = vp_pick("deformation",0,2); for (auto& q : p) q = k == 0 ? P2(q.x()+m*q.y(), q.y()*(1+m)) : k == 1 ? P2(q.x()*(1-m), q.y()+m*q.x()) : P2(q.x()*(1+m)+m*q.y(), q.y()+m*q.x()); int d = vp_pick("degree",0,dmax); std::vector<size_t> l(p.size()); std::iota(l.begin(), l.end(), 0); disk::generic_mesh<T,2> msh; build_poly(msh, p, {l});
    auto q = disk::integrate(msh, *msh.cells_begin(), d); for (int i = 0; i <= d; i++) { T s = 0; for (auto& x : q) s += x.weight()*ipow(x.point().x(),i)*ipow(x.point().y(),d-i); vp_close(s, poly_moment(p,i,d-i), 1e-8, "polygon rule integrates x^i y^j exactly"); } }
static void pol(const std::vector<P2>& p, int d) { std::vector<size_t> l(p.size()); std::iota(l.begin(), l.end(), 0); disk::generic_mesh<T,2> msh; build_poly(msh, p, {l}); Pol2 f("c", d); T s = 0; for (auto& x : disk::integrate(msh, *msh.cells_begin(), d)) s += x.weight()*f(x.point()); vp_close(s, f.integral(p), 1e-8*(1+d), "exact on all polynomials over a polygon"); }
VP_H(P15_pentagon) { shape(PE, 0.3, 3); }
VP_H(P15_nonconvex_pol) { int k = vp_pick("shape",0,2); pol(k == 0 ? AR : k == 1 ? L : DART, vp_pick("degree",0,8)); }
VP_H(P15_pentagon_pol) { pol(PE, vp_pick("degree",0,8)); }
VP_H(P15_dart_shape) { shape(DART, 0.05, 2); }
struct Sh { std::vector<P3> p; std::vector<std::vector<size_t>> f; std::vector<std::array<size_t,4>> t; };
static Sh prism(T h, T t) { return {{V3(0,0,0),V3(1,0,0),V3(0.3,1,0),V3(t,0,h),V3(1+t,0,h),V3(0.3+t,1,h)}, {{0,1,2},{3,4,5},{0,1,4,3},{1,2,5,4},{0,2,5,3}}, {{0,1,2,3},{1,2,3,4},{2,3,4,5}}}; }
static Sh pyramid(P3 a) { return {{V3(0,0,0),V3(1,0,0),V3(1,1,0),V3(0,1,0),a}, {{0,1,2,3},{0,1,4},{1,2,4},{2,3,4},{0,3,4}}, {{0,1,2,4},{0,2,3,4}}}; }
static Sh pentaprism(T h) { Sh s; for (int z = 0; z < 2; z++) for (auto& q : PE) s.p.push_back(P3(q.x(),q.y(),z ? h : T(0))); s.f = {{0,1,2,3,4},{5,6,7,8,9}}; for (size_t i = 0; i < 5; i++) s.f.push_back({i,(i+1)%5,(i+1)%5+5,i+5}); for (size_t i = 1; i < 4; i++) { size_t b[3] = {0,i,i+1}; s.t.push_back({b[0],b[1],b[2],b[0]+5}); s.t.push_back({b[1],b[2],b[0]+5,b[1]+5}); s.t.push_back({b[2],b[0]+5,b[1]+5,b[2]+5}); } return s; }
static T mom(const Sh& s, int i, int j, int k) { T r = 0; for (auto& t : s.t) { T m = det3(s.p[t[0]],s.p[t[1]],s.p[t[2]],s.p[t[3]]); r += (m < 0 ? -1 : 1)*tet_moment(s.p[t[0]],s.p[t[1]],s.p[t[2]],s.p[t[3]],i,j,k); } return r; }
static void shape3(const Sh& s, int d) { disk::generic_mesh<T,3> msh; build_poly3(msh, s.p, {s.f}); auto q = disk::integrate(msh, *msh.cells_begin(), d); for (int i = 0; i <= d; i++) for (int j = 0; j <= d-i; j++) { T v = 0; for (auto& x : q) v += x.weight()*ipow(x.point().x(),i)*ipow(x.point().y(),j)*ipow(x.point().z(),d-i-j); vp_close(v, mom(s,i,j,d-i-j), 1e-7, "polyhedron rule integrates x^i y^j z^k exactly"); } }
VP_H(P15_prism) { T h = vp_real("h",0.3,2), t = vp_real("t",-0.3,0.3); shape3(prism(h,t), vp_pick("degree",0,3)); }
VP_H(P15_pyramid) { shape3(pyramid(pt3("apex",0.5,0.5,1,0.2)), vp_pick("degree",0,2)); }
VP_H(P15_pentaprism) { shape3(pentaprism(vp_real("h",0.3,2)), vp_pick("degree",0,2)); }
VP_H(P15_polyhedra_pol) { int k = vp_pick("shape",0,2), d = vp_pick("degree",0,4); Sh s = k == 0 ? prism(0.8,0.1) : k == 1 ? pyramid(V3(0.4,0.6,1.1)) : pentaprism(0.7); disk::generic_mesh<T,3> msh; build_poly3(msh, s.p, {s.f}); Pol3 f("c", d); T v = 0, e = 0; for (auto& x : disk::integrate(msh, *msh.cells_begin(), d)) v += x.weight()*f(x.point()); for (size_t q = 0; q < f.e.size(); q++) e += f.c[q]*mom(s,f.e[q][0],f.e[q][1],f.e[q][2]); vp_close(v, e, 1e-7, "exact on all polynomials over a polyhedron"); }
VP_H(P15_faces_pol) { int k = vp_pick("shape",0,2), d = vp_pick("degree",0,5); Sh s = k == 0 ? prism(0.8,0.1) : k == 1 ? pyramid(V3(0.4,0.6,1.1)) : pentaprism(0.7); disk::generic_mesh<T,3> msh; build_poly3(msh, s.p, {s.f}); Pol3 f("c", d);
    for (auto it = msh.faces_begin(); it != msh.faces_end(); it++) { auto fc = *it; auto p = points(msh, fc); T v = 0, e = 0; for (auto& x : disk::integrate(msh, fc, d)) v += x.weight()*f(x.point()); for (size_t i = 1; i+1 < p.size(); i++) { T A = disk::area_triangle_kahan(p[0],p[i],p[i+1]); for (size_t q = 0; q < f.e.size(); q++) e += f.c[q]*A*tri_mean_moment(p[0],p[i],p[i+1],f.e[q][0],f.e[q][1],f.e[q][2]); } vp_close(v, e, 1e-7, "exact on all polynomials over a face"); } }
