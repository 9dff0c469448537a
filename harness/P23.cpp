//@bound every kind of cell, one fixed shape each; face degree 0..3 (2D), 0..2 (3D; 0..1 on the prism), cell degree equal, one more, one less, reconstruction degree equal to the face degree, one more or one less; every vector of unknowns, every polynomial field and every evaluation point in a box of side 2
//@link jb
//@link triangle
#include "hho.hpp"
using namespace vp;
// (D v, q) = -(v_T, grad q) + sum_F (v_F . n, q) for every polynomial q of the reconstruction degree
template<typename M, typename C> static void divergence(const M& m, const C& cl, size_t cd, size_t fd, size_t gd, int var) {
    const size_t D = M::dimension; disk::hho_degree_info h(cd, fd, gd); disk::CellDegreeInfo<M> ci(m, cl, cd, fd, gd); disk::MeshDegreeInfo<M> mi(m, cd, fd, gd);
    auto od = var == 0 ? disk::make_hho_divergence_reconstruction(m, cl, h) : var == 1 ? disk::make_hho_divergence_reconstruction(m, cl, ci) : disk::make_hho_divergence_reconstruction(m, cl, mi);
    Mat rr = var == 0 ? disk::make_hho_divergence_reconstruction_rhs(m, cl, h) : var == 1 ? disk::make_hho_divergence_reconstruction_rhs(m, cl, ci) : disk::make_hho_divergence_reconstruction_rhs(m, cl, mi);
    auto fcs = faces(m, cl); size_t n = vsdim<M>(cd) + fcs.size()*vfdim<M>(fd); vp_check(size_t(od.first.rows()) == sdim<M>(gd) && size_t(od.first.cols()) == n, "size of the operator");
    Vec v = symvec("v", n); VectorDofs<M,C> s(m, cl, cd, fd, v); auto b = disk::make_scalar_monomial_basis(m, cl, gd); size_t r = b.size();
    Mat S = Mat::Zero(r, r); Vec rhs = Vec::Zero(r);
    for (auto& q : disk::integrate(m, cl, 2*gd + cd)) { auto x = q.point(); Vec e = b.eval_functions(x); Mat g = b.eval_gradients(x); Vec u = s.cell(x);
        for (size_t i = 0; i < r; i++) { for (size_t j = 0; j < r; j++) S(i,j) += q.weight()*e(i)*e(j); T t = 0; for (size_t a = 0; a < D; a++) t += g(i,a)*u(a); rhs(i) -= q.weight()*t; } }
    for (size_t f = 0; f < fcs.size(); f++) { auto nn = normal(m, cl, fcs[f]); for (auto& q : disk::integrate(m, fcs[f], gd + fd)) { auto x = q.point(); Vec e = b.eval_functions(x), u = s.face(f, x); T un = 0; for (size_t a = 0; a < D; a++) un += u(a)*nn(a); for (size_t i = 0; i < r; i++) rhs(i) += q.weight()*un*e(i); } }
    Vec lhs = mul(S, mul(od.first, v)), l2 = mul(rr, v); for (size_t i = 0; i < r; i++) { vp_close(lhs(i), rhs(i), 1e-7, "the divergence is the weak divergence"); vp_close(l2(i), rhs(i), 1e-7, "the right-hand side is the weak divergence form"); }
    close_mat(od.second, od.first.transpose()*S*od.first, 1e-6, "the local matrix is the energy of the divergence");
}
static size_t recdeg(int g, size_t fd) { return g == 0 ? fd : g == 1 ? fd+1 : fd ? fd-1 : 0; }
VP_H(P23_define2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,3), md = vp_pick("mode",0,2), g = vp_pick("rec",0,2); size_t cd = celdeg(md, fd); with_cell2(k, [&](auto& m, auto cl) { divergence(m, cl, cd, fd, recdeg(g, fd), (k+md+g)%3); }); }
VP_H(P23_define3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,k == 2 ? 1 : 2), md = vp_pick("mode",0,2); size_t cd = celdeg(md, fd); with_cell3(k, [&](auto& m, auto cl) { divergence(m, cl, cd, fd, recdeg((k+md)%2, fd), md); }); }
// commutation: the reconstruction of the interpolate of a field is the projection of its divergence; exact when the divergence has the reconstruction degree
template<typename M, typename C> static void exact(const M& m, const C& cl, size_t cd, size_t fd, size_t gd, size_t pd) {
    const size_t D = M::dimension; typedef disk::point<T,D> P; std::vector<decltype(poly("", 0, P()))> p; for (size_t a = 0; a < D; a++) p.push_back(poly("c", pd, P()));
    disk::hho_degree_info h(cd, fd, gd);
    Vec I = disk::project_function(m, cl, h, [&](const P& y) { Eigen::Matrix<T,D,1> r; for (size_t a = 0; a < D; a++) r(a) = p[a](y); return r; }, 2);
    Vec c = mul(disk::make_hho_divergence_reconstruction(m, cl, h).first, I); auto b = disk::make_scalar_monomial_basis(m, cl, gd); P x = sympt<D>("x", 1);
    T dv = 0; for (size_t a = 0; a < D; a++) dv += diff(p[a], a)(x); vp_close(dot(c, Vec(b.eval_functions(x))), dv, 1e-6, "the divergence of the interpolate of a polynomial field is exact");
}
// the interpolate carries enough when the cell degree is at least gd-1 and the face degree at least gd
VP_H(P23_exact2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,3); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { exact(m, cl, cd, fd, fd, fd+1); }); }
VP_H(P23_exact3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,k == 2 ? 1 : 2); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell3(k, [&](auto& m, auto cl) { exact(m, cl, cd, fd, fd, fd+1); }); }
