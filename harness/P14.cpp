//@bound tetrahedra with one symbolic vertex in a box, either orientation (degree <= 3); a fixed tetrahedron with fully symbolic polynomials up to degree 8 and symbolic top-degree parts up to degree 15 (arbq) and 12 (Grundmann-Moeller); symbolic parallelepipeds
//@link jb
#include "meshes.hpp"
#include "diskpp/quadratures/quadratures.hpp"
#include "diskpp/quadratures/bits/quad_raw_tetra.hpp"
using namespace vp;
static std::vector<P3> TT{V3(0.1,-0.1,0),V3(1.1,0.2,0.1),V3(0.2,1.2,-0.1),V3(0.1,0.3,1.1)};
static T vol(const std::vector<P3>& p) { return det3(p[0],p[1],p[2],p[3])/6; }
VP_H(P14_shape) { auto p = TT; int k = vp_pick("vertex",0,3); p[k] = pt3("v",p[k].x(),p[k].y(),p[k].z(),0.2); if (vp_bool("mirrored")) std::swap(p[0],p[1]); int d = vp_pick("degree",0,3); disk::simplicial_mesh<T,3> msh; build_tet(msh, p, {{0,1,2,3}}); T V = vol(p); if (V < 0) V = -V;
    auto q = disk::integrate(msh, *msh.cells_begin(), d); for (int i = 0; i <= d; i++) for (int j = 0; j <= d-i; j++) { T s = 0; for (auto& x : q) s += x.weight()*ipow(x.point().x(),i)*ipow(x.point().y(),j)*ipow(x.point().z(),d-i-j); vp_close(s, V*simplex_mean_moment<4>({a3(p[0]),a3(p[1]),a3(p[2]),a3(p[3])},{i,j,d-i-j}), 1e-9, "tetrahedron rule integrates x^i y^j z^k exactly"); } }
template<typename Q> static void top(const Q& q, int d, int lo, T V, T tol, const char* l) { T s = 0, e = 0; for (int t = lo; t <= d; t++) for (int i = 0; i <= t; i++) for (int j = 0; j <= t-i; j++) { T c = vp_real("c",-1,1), v = 0; for (auto& x : q) v += x.weight()*ipow(x.point().x(),i)*ipow(x.point().y(),j)*ipow(x.point().z(),t-i-j); s += c*v; e += c*V*simplex_mean_moment<4>({a3(TT[0]),a3(TT[1]),a3(TT[2]),a3(TT[3])},{i,j,t-i-j}); } vp_close(s, e, tol, l); }
VP_H(P14_arbq) { int d = vp_pick("degree",0,8); disk::simplicial_mesh<T,3> msh; build_tet(msh, TT, {{0,1,2,3}}); auto q = disk::integrate(msh, *msh.cells_begin(), d); top(q, d, 0, std::abs(vol(TT)), 1e-9*(1+d), "exact on all polynomials over a tetrahedron"); T w = 0; for (auto& x : q) w += x.weight(); vp_close(w, std::abs(vol(TT)), 1e-10, "weights sum to the volume"); }
VP_H(P14_arbq_high) { int d = vp_pick("degree",9,15); auto q = disk::quadrature::arbq(d, V3(0,0,0),V3(1,0,0),V3(0,1,0),V3(0,0,1)); T s = 0, e = 0; for (int t = d-1; t <= d; t++) for (int i = 0; i <= t; i++) for (int j = 0; j <= t-i; j++) { T c = vp_real("c",-1,1), v = 0; for (auto& x : q) v += x.weight()*ipow(x.point().x(),i)*ipow(x.point().y(),j)*ipow(x.point().z(),t-i-j); s += c*v; e += c*factd(i)*factd(j)*factd(t-i-j)/factd(t+3); } vp_close(s, e, 1e-9, "exact on the two top degrees"); }
VP_H(P14_gm) { int d = vp_pick("degree",0,9); top(disk::quadrature::grundmann_moeller(d, TT[0],TT[1],TT[2],TT[3]), d, d > 4 ? d : 0, std::abs(vol(TT)), 1e-7, "Grundmann-Moeller rule exact"); }
VP_H(P14_gm_shape) { auto p = TT; p[3] = pt3("v",p[3].x(),p[3].y(),p[3].z(),0.3); int d = vp_pick("degree",1,3); T V = vol(p); if (V < 0) V = -V; auto q = disk::quadrature::grundmann_moeller(d, p[0],p[1],p[2],p[3]); for (int i = 0; i <= d; i++) { T s = 0; for (auto& x : q) s += x.weight()*ipow(x.point().x(),i)*ipow(x.point().z(),d-i); vp_close(s, V*simplex_mean_moment<4>({a3(p[0]),a3(p[1]),a3(p[2]),a3(p[3])},{i,0,d-i}), 1e-8, "Grundmann-Moeller rule exact on any tetrahedron"); } }
VP_H(P14_parallelepiped) { P3 o = V3(0.1,0.2,-0.1), u = V3(1,0.2,0.1), v = V3(-0.1,1,0.2), w = pt3("w",0.1,0.2,1,0.2); int d = vp_pick("degree",0,3); std::array<P3,8> p{o,o+u,o+u+v,o+v,o+w,o+u+w,o+u+v+w,o+v+w}; auto q = disk::quadrature::tensorized_gauss_legendre(d, p); size_t t[6][4] = {{0,1,2,6},{0,2,3,6},{0,3,7,6},{0,7,4,6},{0,4,5,6},{0,5,1,6}};
    for (int i = 0; i <= d; i++) { T s = 0, e = 0; for (auto& x : q) s += x.weight()*ipow(x.point().x(),i)*ipow(x.point().z(),d-i); for (auto& z : t) e += tet_moment(p[z[0]],p[z[1]],p[z[2]],p[z[3]],i,0,d-i); vp_close(s, e, 1e-8, "exact over a parallelepiped"); } }
