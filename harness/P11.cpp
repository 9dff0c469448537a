//@bound every supported degree (Gauss 0..39, Gauss-Lobatto 0..37, old-interface Gauss 0..30) with polynomials of that degree and symbolic coefficients on two fixed segments; symbolic segments (anywhere in the line, plane and space, either direction) up to degree 7
//@link jb
#include "meshes.hpp"
#include "diskpp/quadratures/quadratures.hpp"
#include "diskpp/quadratures/bits/quad_raw_gauss_lobatto.hpp"
using namespace vp;
static T mono(T a, T b, int k) { return (ipow(b,k+1)-ipow(a,k+1))/(k+1); }
template<typename Q> static void exact_on(const Q& q, T a, T b, int d, const char* l) {
    std::vector<T> c; for (int k = 0; k <= d; k++) c.push_back(vp_real("c", -1, 1));
    T s = 0, e = 0; for (auto& qp : q) { T v = 0; for (int k = 0; k <= d; k++) v += c[k]*ipow(qp.point().x(), k); s += qp.weight()*v; } for (int k = 0; k <= d; k++) e += c[k]*mono(a,b,k); vp_close(s, e, 1e-9*(d+1), l); }
VP_H(P11_gauss) { int d = vp_pick("degree", 0, 39); exact_on(disk::quadrature::gauss_legendre(d, -1.0, 1.0), -1, 1, d, "Gauss rule exact on [-1,1]"); exact_on(disk::quadrature::gauss_legendre(d, 0.3, 1.1), 0.3, 1.1, d, "Gauss rule exact on a segment"); T w = 0; for (auto& q : disk::quadrature::gauss_legendre(d, -1.0, 1.0)) { vp_check(q.weight() > 0, "Gauss weights positive"); vp_check(q.point().x() > -1 && q.point().x() < 1, "Gauss points inside"); w += q.weight(); } vp_close(w, 2, 1e-12, "Gauss weights sum to the length"); }
VP_H(P11_lobatto) { int d = vp_pick("degree", 0, 37); exact_on(disk::quadrature::gauss_lobatto(d, -1.0, 1.0), -1, 1, d, "Gauss-Lobatto rule exact on [-1,1]"); auto q = disk::quadrature::gauss_lobatto(d, 0.3, 1.1); exact_on(q, 0.3, 1.1, d, "Gauss-Lobatto rule exact on a segment"); vp_close(q.front().point().x(), 0.3, 1e-12, "first Lobatto point is an end point"); vp_close(q.back().point().x(), 1.1, 1e-12, "last Lobatto point is an end point"); }
VP_H(P11_old) { int d = vp_pick("degree", 0, 30); T a[40]; for (int k = 0; k <= d; k++) a[k] = vp_real("c",-1,1); T s = 0, e = 0; for (auto& q : disk::edge_quadrature<T>(d)) { T v = 0; for (int k = 0; k <= d; k++) v += a[k]*ipow(q.first.x(),k); s += q.second*v; } for (int k = 0; k <= d; k++) e += a[k]*mono(-1,1,k); vp_close(s, e, 1e-9*(d+1), "edge rule exact"); }
VP_H(P11_segment) { T a = vp_real("a",-2,2), b = vp_real("b",-2,2); int d = vp_pick("degree",0,7); for (int r = 0; r < 2; r++) { auto q = r ? disk::quadrature::gauss_lobatto(d, a, b) : disk::quadrature::gauss_legendre(d, a, b); for (int k = 0; k <= d; k++) { T s = 0; for (auto& x : q) s += x.weight()*ipow(x.point().x(),k); vp_close(s, mono(a,b,k), 1e-8, "rule on any segment, either direction"); } } }
VP_H(P11_segment2d) { P2 a = pt2("a",0,0,0.4), b = pt2("b",1,0.5,0.4); int d = vp_pick("degree",0,5); T L = disk::distance(a,b); vp_check(L > 0, "length positive"); for (int r = 0; r < 2; r++) { auto q = r ? disk::quadrature::gauss_lobatto(d, a, b) : disk::quadrature::gauss_legendre(d, a, b); for (int i = 0; i <= d; i++) { T s = 0; for (auto& x : q) s += x.weight()/L*ipow(x.point().x(),i)*ipow(x.point().y(),d-i); vp_close(s, seg_mean_moment(a,b,i,d-i), 1e-8, "rule on any plane segment"); } } }
VP_H(P11_segment3d) { P3 a = pt3("a",0,0,0,0.5), b = pt3("b",1,0.5,-0.3,0.3); int d = vp_pick("degree",0,3); T L = disk::distance(a,b); auto q = disk::quadrature::gauss_legendre(d, a, b); for (int i = 0; i <= d; i++) { T s = 0; for (auto& x : q) s += x.weight()/L*ipow(x.point().x(),i)*ipow(x.point().z(),d-i); vp_close(s, simplex_mean_moment<2>({a3(a),a3(b)}, {i,0,d-i}), 1e-8, "rule on any space segment"); } }
VP_H(P11_mesh1d) { disk::generic_mesh<T,1> msh; T a = vp_real("a",-2,2), l = vp_real("l",0.1,2); build_1d(msh, {a, a+l, a+l+1}); int d = vp_pick("degree",0,7); T s = 0; for (auto& cl : msh) for (auto& q : disk::integrate(msh, cl, d)) s += q.weight()*ipow(q.point().x(), d); vp_close(s, mono(a, a+l+1, d), 1e-7, "integral over a 1D mesh"); auto fq = disk::integrate(msh, *msh.faces_begin(), d); vp_check(fq.size() == 1, "one point"); vp_close(fq[0].weight(), 1, 0, "weight of a point"); vp_close(fq[0].point().x(), a, 1e-12, "a 1D face is its point"); }
VP_H(P11_mesh_faces) { int k = vp_pick("mesh",0,2), d = vp_pick("degree",0,4); std::vector<P2> p{pt2("a",0,0,0.2),pt2("b",1,0.1,0.2),V2(0.2,1)}; 
    auto go = [&](auto& msh) { for (auto it = msh.faces_begin(); it != msh.faces_end(); it++) { auto fc = *it; auto q = points(msh, fc); T L = measure(msh, fc); for (int i = 0; i <= d; i++) { T s = 0; for (auto& x : disk::integrate(msh, fc, d)) s += x.weight()/L*ipow(x.point().x(),i)*ipow(x.point().y(),d-i); vp_close(s, seg_mean_moment(q[0],q[1],i,d-i), 1e-8, "integral over a face"); } } };
    if (k == 0) { disk::simplicial_mesh<T,2> msh; build_tri(msh, p, {{0,1,2}}); go(msh); } else if (k == 1) { disk::generic_mesh<T,2> msh; build_poly(msh, p, {{0,1,2}}); go(msh); } else { disk::cartesian_mesh<T,2> msh; T a = vp_real("w",0.1,2), b = vp_real("h",0.1,2); build_cart(msh, {V2(0,0),V2(a,0),V2(0,b),V2(a,b)}, {{0,1,2,3}}); go(msh); } }
VP_H(P11_limits) { int d = vp_pick("degree", 38, 60); bool g = false, l = false; T x = vp_real("x",0,1); try { auto q = disk::quadrature::gauss_legendre(d, x, x+1); T s = 0; for (auto& p : q) s += p.weight(); vp_close(s, 1, 1e-9, "sum"); } catch (const std::invalid_argument&) { g = true; } try { disk::quadrature::gauss_lobatto(d, x, x+1); } catch (const std::invalid_argument&) { l = true; } vp_check(g == (d > 39), "unsupported Gauss degrees are rejected"); vp_check(l, "unsupported Gauss-Lobatto degrees are rejected"); }
