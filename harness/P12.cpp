//@bound triangles with all vertices anywhere within 0.25 of a reference triangle, either orientation (degree <= 3); fixed triangles with fully symbolic polynomials of the full degree up to 20, symbolic homogeneous parts of the two top degrees up to degree 33 (above 30 the collapsed product rule is used); triangles in the plane and in space
//@link jb
#include "meshes.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace vp;
VP_H(P12_sym_tri) {
    disk::simplicial_mesh<T,2> msh;
    std::vector<P2> p{pt2("a",0,0,0.25), pt2("b",1,0.1,0.25), pt2("c",0.2,1,0.25)};
    build_tri(msh, p, {{0,1,2}});
    auto cl = *msh.cells_begin();
    int d = vp_pick("degree", 0, 3);
    auto qps = disk::integrate(msh, cl, d);
    for (int k = 0; k <= d; k++) for (int i = 0; i <= k; i++) {
        T s = 0; for (auto& qp : qps) s += qp.weight()*ipow(qp.point().x(), i)*ipow(qp.point().y(), k-i);
        vp_close(s, poly_moment(p, i, k-i), 1e-13, "triangle rule integrates x^i y^j exactly");
    }
}
VP_H(P12_pol) {
    int d = vp_pick("degree", 0, 20);
    disk::simplicial_mesh<T,2> msh;
    std::vector<P2> p{V2(0.1,0.2), V2(1.3,0.4), V2(0.5,1.1)};
    if (vp_bool("clockwise")) std::swap(p[1], p[2]);
    build_tri(msh, p, {{0,1,2}});
    auto cl = *msh.cells_begin(); T sg = signed_area(p) < 0 ? -1 : 1;
    Pol2 f("c", d);
    T s = 0; for (auto& qp : disk::integrate(msh, cl, d)) s += qp.weight()*f(qp.point());
    vp_close(s, sg*f.integral(p), 1e-12*(1+d), "exact on all polynomials");
}
VP_H(P12_high) {
    int d = vp_pick("degree", 21, 33);
    std::vector<P2> p{V2(-0.3,-0.4), V2(0.9,-0.1), V2(0.1,0.8)};
    auto qps = disk::quadrature::triangle_gauss(d, p[0], p[1], p[2]);
    T s = 0, e = 0, w = 0;
    for (int k = d-1; k <= d; k++) for (int i = 0; i <= k; i++) { T c = vp_real("c",-1,1); T v = 0; for (auto& q : qps) v += q.weight()*ipow(q.point().x(),i)*ipow(q.point().y(),k-i); s += c*v; e += c*poly_moment(p,i,k-i); }
    for (auto& q : qps) w += q.weight();
    vp_close(s, e, 1e-8, "exact on the two top degrees"); vp_close(w, signed_area(p), 1e-12, "weights sum to the area");
}
VP_H(P12_space) { P3 a = pt3("a",0,0,0,0.1), b = V3(1,0.2,0.3), c = V3(0.1,1,-0.2); int d = vp_pick("degree",0,4); auto q = disk::quadrature::triangle_gauss(d, a, b, c); T A = disk::area_triangle_kahan(a,b,c);
    for (int i = 0; i <= d; i++) { T s = 0; for (auto& x : q) s += x.weight()/A*ipow(x.point().x(),i)*ipow(x.point().z(),d-i); vp_close(s, tri_mean_moment(a,b,c,i,0,d-i), 1e-11, "rule on a triangle in space"); } }
VP_H(P12_tet_face) { disk::simplicial_mesh<T,3> msh; std::vector<P3> p{V3(0,0,0),V3(1,0,0),V3(0.1,1,0),V3(0.2,0.1,1)}; build_tet(msh, p, {{0,1,2,3}}); int d = vp_pick("degree",0,8); Pol3 f("c", d);
    for (auto it = msh.faces_begin(); it != msh.faces_end(); it++) { auto fc = *it; auto r = points(msh, fc); T A = measure(msh, fc), s = 0, e = 0; for (auto& x : disk::integrate(msh, fc, d)) s += x.weight()*f(x.point()); for (size_t q = 0; q < f.e.size(); q++) e += f.c[q]*A*tri_mean_moment(r[0],r[1],r[2],f.e[q][0],f.e[q][1],f.e[q][2]); vp_close(s, e, 1e-12*(1+d), "integral over a face of a tetrahedron"); } }
VP_H(P12_gm) { int d = vp_pick("degree",0,12); std::vector<P2> p{V2(-0.3,-0.4), V2(0.9,-0.1), V2(0.1,0.8)}; Pol2 f("c", d); T s = 0; for (auto& q : disk::quadrature::grundmann_moeller(d, p[0],p[1],p[2])) s += q.weight()*f(q.point()); vp_close(s, f.integral(p), 1e-10*(1+d), "Grundmann-Moeller rule exact"); }
VP_H(P12_dunavant) { int d = vp_pick("degree",0,20); std::vector<P2> p{V2(-0.3,-0.4), V2(0.9,-0.1), V2(0.1,0.8)}; Pol2 f("c", d); T s = 0; for (auto& q : disk::quadrature::dunavant(d, p[0],p[1],p[2])) s += q.weight()*f(q.point()); vp_close(s, f.integral(p), 1e-12*(1+d), "Dunavant rule exact"); }
