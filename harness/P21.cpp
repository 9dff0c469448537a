//@bound every kind of cell, one fixed shape each; face degree 0..3 (2D; exactness 0..4) and 0..2 (3D; 0..1 on box and prism), cell degree equal, one more, one less; every vector of unknowns, every polynomial of the reconstruction degree and every evaluation point in a box of side 2; diffusion tensor one fixed symmetric matrix
//@link jb
//@link triangle
#include "hho.hpp"
using namespace vp;
// (K grad R v, grad w) = -(v_T, div K grad w) + sum (v_F, K grad w . n) for every w of the reconstruction basis; data is the energy of the reconstruction
template<typename M, typename C, typename RB, typename OD> static void defining(const M& m, const C& cl, size_t cd, size_t fd, size_t rd, const RB& rb, const OD& od, const Eigen::Matrix<T,M::dimension,M::dimension>& K, bool proj) {
    const size_t D = M::dimension; size_t nf = faces(m, cl).size(), n = sdim<M>(cd) + nf*fdim<M>(fd); const Mat& op = od.first; const Mat& data = od.second; size_t r = rb.size() - 1;
    vp_check(size_t(op.rows()) == r && size_t(op.cols()) == n && size_t(data.rows()) == n && size_t(data.cols()) == n, "operator sizes");
    Vec v = symvec("v", n); ScalarDofs<M,C> s(m, cl, cd, fd, v); Mat S = Mat::Zero(r, r); Vec rhs = Vec::Zero(r);
    for (auto& q : disk::integrate(m, cl, 2*rd+1)) { auto x = q.point(); Mat g = rb.eval_gradients(x); Mat h = g*K.transpose(); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < r; j++) for (size_t a = 0; a < D; a++) S(i,j) += q.weight()*h(i+1,a)*g(j+1,a);
        Vec lap = Vec::Zero(r+1); for (size_t a = 0; a < D; a++) lap += deriv(x, a, rd, [&](const disk::point<T,D>& y) { Mat gy = rb.eval_gradients(y); return Vec((gy*K.transpose()).col(a)); });
        T u = s.cell(x); for (size_t i = 0; i < r; i++) rhs(i) -= q.weight()*lap(i+1)*u; }
    auto fcs = faces(m, cl);
    for (size_t f = 0; f < nf; f++) { auto nn = normal(m, cl, fcs[f]); Vec pr; if (proj) pr = disk::project_function(m, fcs[f], fd, [&](const disk::point<T,D>& y) { return s.cell(y); }, 2); auto fb = disk::make_scalar_monomial_basis(m, fcs[f], fd);
        for (auto& q : disk::integrate(m, fcs[f], rd + std::max(cd,fd) + 1)) { auto x = q.point(); Mat g = rb.eval_gradients(x); Mat h = g*K.transpose(); T u = s.face(f, x); if (proj) u += s.cell(x) - dot(pr, Vec(fb.eval_functions(x)));
            for (size_t i = 0; i < r; i++) { T d = 0; for (size_t a = 0; a < D; a++) d += h(i+1,a)*nn(a); rhs(i) += q.weight()*d*u; } } }
    Vec lhs = mul(S, mul(op, v)); for (size_t i = 0; i < r; i++) vp_close(lhs(i), rhs(i), 1e-7, "the reconstruction solves its defining problem");
    close_mat(data, op.transpose()*S*op, 1e-6, "the local matrix is the energy of the reconstructed gradient");
}
template<typename M, typename C, typename OD> static void exact(const M& m, const C& cl, size_t cd, size_t fd, size_t rd, size_t pd, const OD& od) {
    const size_t D = M::dimension; auto p = poly("c", pd, typename M::point_type()); typename M::point_type x = sympt<D>("x", 1);
    Vec I = disk::project_function(m, cl, disk::hho_degree_info(cd, fd), [&](const typename M::point_type& y) { return p(y); }, 2);
    auto rb = disk::make_scalar_monomial_basis(m, cl, rd); Vec c = mul(od.first, I); Mat g = rb.eval_gradients(x);
    for (size_t a = 0; a < D; a++) { T s = 0; for (int i = 0; i < c.size(); i++) s += c(i)*g(i+1,a); vp_close(s, diff(p, a)(x), 1e-5, "the reconstruction of the interpolate of a polynomial is the polynomial"); }
}
static disk::hho_degree_info hdi(size_t cd, size_t fd) { return disk::hho_degree_info(cd, fd); }
static Eigen::Matrix<T,2,2> K2() { Eigen::Matrix<T,2,2> K; K << 2, 0.5, 0.5, 1; return K; }
static Eigen::Matrix<T,3,3> K3() { Eigen::Matrix<T,3,3> K; K << 2, 0.5, 0, 0.5, 1, 0.25, 0, 0.25, 1.5; return K; }
VP_H(P21_define2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,3); size_t cd = celdeg(vp_pick("mode",0,2), fd); auto h = hdi(cd, fd); with_cell2(k, [&](auto& m, auto cl) { auto rb = disk::make_scalar_monomial_basis(m, cl, fd+1); defining(m, cl, cd, fd, fd+1, rb, disk::make_scalar_hho_laplacian(m, cl, h), Eigen::Matrix<T,2,2>::Identity(), false); }); }
VP_H(P21_tensor2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,2); size_t cd = celdeg(vp_pick("mode",0,2), fd); auto h = hdi(cd, fd); with_cell2(k, [&](auto& m, auto cl) { auto rb = disk::make_scalar_monomial_basis(m, cl, fd+1); defining(m, cl, cd, fd, fd+1, rb, disk::make_scalar_hho_laplacian(m, cl, h, K2()), K2(), false); }); }
VP_H(P21_infos2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,2); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { typedef std::decay_t<decltype(m)> M; disk::MeshDegreeInfo<M> mi(m, cd, fd, fd); auto rb = disk::make_scalar_monomial_basis(m, cl, fd+1); defining(m, cl, cd, fd, fd+1, rb, disk::make_scalar_hho_laplacian(m, cl, mi), Eigen::Matrix<T,2,2>::Identity(), false); }); }
VP_H(P21_define3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,k == 0 ? 2 : 1); size_t cd = celdeg(vp_pick("mode",0,2), fd); bool inf = vp_bool("infos"); auto h = hdi(cd, fd); with_cell3(k, [&](auto& m, auto cl) { typedef std::decay_t<decltype(m)> M; auto rb = disk::make_scalar_monomial_basis(m, cl, fd+1); if (inf) { disk::MeshDegreeInfo<M> mi(m, cd, fd, fd); defining(m, cl, cd, fd, fd+1, rb, disk::make_scalar_hho_laplacian(m, cl, mi), Eigen::Matrix<T,3,3>::Identity(), false); } else defining(m, cl, cd, fd, fd+1, rb, disk::make_scalar_hho_laplacian(m, cl, h, K3()), K3(), false); }); }
VP_H(P21_face_projection) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,2); size_t cd = celdeg(vp_pick("mode",0,2), fd); bool t = vp_bool("tensor"); auto h = hdi(cd, fd); with_cell2(k, [&](auto& m, auto cl) { auto rb = disk::make_scalar_monomial_basis(m, cl, fd+1); Eigen::Matrix<T,2,2> I = Eigen::Matrix<T,2,2>::Identity(); if (t) defining(m, cl, cd, fd, fd+1, rb, disk::make_shl_face_proj(m, cl, h, K2()), K2(), true); else defining(m, cl, cd, fd, fd+1, rb, disk::make_shl_face_proj(m, cl, h), I, true); }); }
VP_H(P21_exact2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,4); size_t cd = celdeg(vp_pick("mode",0,2), fd); int v = vp_pick("variant",0,2); auto h = hdi(cd, fd); with_cell2(k, [&](auto& m, auto cl) { typedef std::decay_t<decltype(m)> M; disk::MeshDegreeInfo<M> mi(m, cd, fd, fd); exact(m, cl, cd, fd, fd+1, fd+1, v == 0 ? disk::make_scalar_hho_laplacian(m, cl, h) : v == 1 ? disk::make_scalar_hho_laplacian(m, cl, h, K2()) : disk::make_scalar_hho_laplacian(m, cl, mi)); }); }
VP_H(P21_exact3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,2); size_t cd = celdeg(vp_pick("mode",0,2), fd); auto h = hdi(cd, fd); with_cell3(k, [&](auto& m, auto cl) { exact(m, cl, cd, fd, fd+1, fd+1, disk::make_scalar_hho_laplacian(m, cl, h)); }); }
VP_H(P21_exact_projected) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,2); auto h = hdi(fd, fd); with_cell2(k, [&](auto& m, auto cl) { exact(m, cl, fd, fd, fd+1, fd, disk::make_shl_face_proj(m, cl, h)); }); }
