//@bound generic convex quadrilaterals with one symbolic vertex (degree <= 4) and fixed non-parallelogram quadrilaterals with fully symbolic polynomials (degree <= 12), both orientations; cartesian rectangles and boxes of any size in a box (degree <= 3), fixed ones with fully symbolic polynomials up to degree 12 (rectangles) and 6 (boxes); all faces of a box
//@link triangle
#include "meshes.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace vp;
static std::vector<P2> Q{V2(0,0),V2(1.2,0.1),V2(1.0,0.9),V2(-0.1,1.3)};
static void quad(disk::generic_mesh<T,2>& msh, const std::vector<P2>& p, bool rev) { std::vector<size_t> l{0,1,2,3}; if (rev) std::reverse(l.begin(), l.end()); build_poly(msh, p, {l}); }
VP_H(P13_quad_shape) { auto p = Q; int k = vp_pick("vertex",0,3); p[k] = pt2("v", p[k].x(), p[k].y(), 0.2); int d = vp_pick("degree",0,4); disk::generic_mesh<T,2> msh; quad(msh, p, false);
    auto q = disk::integrate(msh, *msh.cells_begin(), d); for (int i = 0; i <= d; i++) { T s = 0; for (auto& x : q) s += x.weight()*ipow(x.point().x(),i)*ipow(x.point().y(),d-i); vp_close(s, poly_moment(p,i,d-i), 1e-9, "quadrilateral rule integrates x^i y^j exactly"); } }
VP_H(P13_quad_pol) { int d = vp_pick("degree",0,12); disk::generic_mesh<T,2> msh; quad(msh, Q, false); Pol2 f("c", d); T s = 0; for (auto& x : disk::integrate(msh, *msh.cells_begin(), d)) { s += x.weight()*f(x.point()); vp_check(x.weight() > 0, "positive weights"); } vp_close(s, f.integral(Q), 1e-8*(1+d), "exact on all polynomials over a quadrilateral"); }
VP_H(P13_rect) { T x0 = vp_real("x0",-2,2), y0 = vp_real("y0",-2,2), a = vp_real("w",0.1,2), b = vp_real("h",0.1,2); int d = vp_pick("degree",0,3); disk::cartesian_mesh<T,2> msh; build_cart(msh, {P2(x0,y0),P2(x0+a,y0),P2(x0,y0+b),P2(x0+a,y0+b)}, {{0,1,2,3}}); std::vector<P2> l{P2(x0,y0),P2(x0+a,y0),P2(x0+a,y0+b),P2(x0,y0+b)};
    auto q = disk::integrate(msh, *msh.cells_begin(), d); for (int i = 0; i <= d; i++) { T s = 0; for (auto& x : q) s += x.weight()*ipow(x.point().x(),i)*ipow(x.point().y(),d-i); T e = (ipow(x0+a,i+1)-ipow(x0,i+1))/(i+1)*(ipow(y0+b,d-i+1)-ipow(y0,d-i+1))/(d-i+1); vp_close(s, e, 1e-7, "rectangle rule integrates x^i y^j exactly"); } }
VP_H(P13_rect_pol) { int d = vp_pick("degree",0,12); disk::cartesian_mesh<T,2> msh; std::vector<P2> l{V2(-0.3,0.2),V2(0.9,0.2),V2(0.9,1.1),V2(-0.3,1.1)}; build_cart(msh, {l[0],l[1],l[3],l[2]}, {{0,1,2,3}}); Pol2 f("c", d); T s = 0; for (auto& x : disk::integrate(msh, *msh.cells_begin(), d)) s += x.weight()*f(x.point()); vp_close(s, f.integral(l), 1e-9*(1+d), "exact on all polynomials over a rectangle"); }
VP_H(P13_parallelogram) { P2 a = pt2("a",0,0,0.2), u = pt2("u",1,0.2,0.2), v = pt2("v",0.2,1,0.2); int d = vp_pick("degree",0,3); std::vector<P2> p{a,a+u,a+u+v,a+v}; for (int i = 0; i <= d; i++) { T s = 0; for (auto& x : disk::quadrature::tensorized_gauss_legendre(d, p[0],p[1],p[2],p[3])) s += x.weight()*ipow(x.point().x(),i)*ipow(x.point().y(),d-i); vp_close(s, poly_moment(p,i,d-i), 1e-9, "exact over a parallelogram"); } }
static void box(disk::cartesian_mesh<T,3>& msh, P3 o, T a, T b, T c) { std::vector<P3> p; for (int k = 0; k < 8; k++) p.push_back(P3(o.x()+(k&1?a:T(0)), o.y()+(k&2?b:T(0)), o.z()+(k&4?c:T(0)))); build_cart(msh, p, {{0,1,2,3,4,5,6,7}}); }
static T bm(T x, T l, int n) { return (ipow(x+l,n+1)-ipow(x,n+1))/(n+1); }
VP_H(P13_box) { P3 o = pt3("o",0,0,0,1); T a = vp_real("a",0.1,2), b = vp_real("b",0.1,2), c = vp_real("c",0.1,2); int d = vp_pick("degree",0,3); disk::cartesian_mesh<T,3> msh; box(msh,o,a,b,c); auto q = disk::integrate(msh, *msh.cells_begin(), d);
    for (int i = 0; i <= d; i++) for (int j = 0; j <= d-i; j++) { int k = d-i-j; T s = 0; for (auto& x : q) s += x.weight()*ipow(x.point().x(),i)*ipow(x.point().y(),j)*ipow(x.point().z(),k); vp_close(s, bm(o.x(),a,i)*bm(o.y(),b,j)*bm(o.z(),c,k), 1e-6, "box rule integrates x^i y^j z^k exactly"); } }
VP_H(P13_box_pol) { int d = vp_pick("degree",0,6); disk::cartesian_mesh<T,3> msh; box(msh, V3(-0.3,0.1,0.2), 0.7,0.9,1.1); Pol3 f("c", d); T s = 0, e = 0; for (auto& x : disk::integrate(msh, *msh.cells_begin(), d)) s += x.weight()*f(x.point()); for (size_t q = 0; q < f.e.size(); q++) e += f.c[q]*bm(-0.3,0.7,f.e[q][0])*bm(0.1,0.9,f.e[q][1])*bm(0.2,1.1,f.e[q][2]); vp_close(s, e, 1e-9*(1+d), "exact on all polynomials over a box"); }
VP_H(P13_box_faces) { T a = vp_real("a",0.3,2), b = vp_real("b",0.3,2); int d = vp_pick("degree",0,3); disk::cartesian_mesh<T,3> msh; P3 o = V3(-0.3,0.1,0.2); T L[3] = {a,b,T(1.1)}, O[3] = {-0.3,0.1,0.2}; box(msh,o,a,b,1.1);
    for (auto it = msh.faces_begin(); it != msh.faces_end(); it++) { auto fc = *it; auto p = points(msh, fc); int ax = -1; for (int k = 0; k < 3; k++) { bool same = true; for (auto& z : p) same = same && !(z.at(k)-p[0].at(k) > 0.2) && !(p[0].at(k)-z.at(k) > 0.2); if (same) ax = k; } vp_check(ax >= 0, "a box face is axis aligned"); auto q = disk::integrate(msh, fc, d); int u = (ax+1)%3, v = (ax+2)%3;
        for (int i = 0; i <= d; i++) { T s = 0; for (auto& x : q) s += x.weight()*ipow(x.point().at(u),i)*ipow(x.point().at(v),d-i); vp_close(s, bm(O[u],L[u],i)*bm(O[v],L[v],d-i), 1e-7, "integral over a face of a box"); T z = 0; for (auto& x : q) z += x.weight()*x.point().at(ax); vp_close(z, p[0].at(ax)*L[u]*L[v], 1e-7, "face points lie on the face"); } } }
VP_H(P13_limits) { int d = vp_pick("degree",37,50); T x = vp_real("x",0,1); bool r = false; try { auto q = disk::quadrature::tensorized_gauss_legendre(d, P2(x,0.0),P2(x+1,0.0),P2(x+1,1.0),P2(x,1.0)); T s = 0; for (auto& p : q) s += p.weight(); vp_close(s, 1, 1e-9, "sum of weights"); } catch (const std::invalid_argument&) { r = true; } vp_check(r == (d > 39), "unsupported degrees are rejected"); }
