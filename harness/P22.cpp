//@bound every kind of cell, one fixed shape each; face degree 0..3 (2D; 0..2 for the reconstruction based term), 0..2 (tetrahedron), 0..1 (box, prism), cell degree equal, one more, one less; every vector of unknowns and every polynomial of the reconstruction degree; both length scales
//@link jb
//@link triangle
#include "hho.hpp"
using namespace vp;
static disk::hho_degree_info hdi(size_t cd, size_t fd) { return disk::hho_degree_info(cd, fd); }
template<typename M, typename C> static disk::CellDegreeInfo<M> infos(const M& m, const C& cl, size_t cd, size_t fd) { return disk::CellDegreeInfo<M>(m, cl, cd, fd, fd); }
// sum over the faces of w_F * || P_F g - v_F ||^2 where g is a function of the unknowns on the cell
template<typename M, typename C, typename G, typename W> static T facesum(const M& m, const C& cl, const ScalarDofs<M,C>& s, size_t deg, size_t pd, G g, W w) {
    const size_t D = M::dimension; T r = 0; auto fcs = faces(m, cl);
    for (size_t f = 0; f < fcs.size(); f++) { auto fb = disk::make_scalar_monomial_basis(m, fcs[f], pd); Vec pr = disk::project_function(m, fcs[f], pd, [&](const disk::point<T,D>& y) { return g(y); }, deg);
        for (auto& q : disk::integrate(m, fcs[f], 2*std::max(pd, s.fd))) { T e = dot(pr, Vec(fb.eval_functions(q.point()))) - s.face(f, q.point()); r += q.weight()*w(f)*e*e; } }
    return r;
}
static void posdef(const Mat& S, const Vec& v) { for (int i = 0; i < S.rows(); i++) for (int j = 0; j < i; j++) vp_close(S(i,j), S(j,i), 1e-8, "symmetric"); vp_check(is_psd(S, 1e-7), "positive semidefinite"); }
// Lehrenfeld-Schoberl: || P_F u_T - u_F ||^2 / h
template<typename M, typename C> static void hdg(const M& m, const C& cl, size_t cd, size_t fd) {
    int var = vp_pick("interface",0,fd == 0 ? 2 : 0); bool hF = fd == 2 ? true : vp_bool("face scale"); disk::MeshDegreeInfo<M> mi(m, cd, fd, fd);
    Mat S = var == 0 ? disk::make_scalar_hdg_stabilization(m, cl, hdi(cd,fd), hF) : var == 1 ? disk::make_scalar_hdg_stabilization(m, cl, infos(m,cl,cd,fd), hF) : disk::make_scalar_hdg_stabilization(m, cl, mi, hF);
    auto fcs = faces(m, cl); size_t n = sdim<M>(cd) + fcs.size()*fdim<M>(fd); vp_check(size_t(S.rows()) == n && size_t(S.cols()) == n, "size"); Vec v = symvec("v", n); ScalarDofs<M,C> s(m, cl, cd, fd, v); posdef(S, v);
    vp_close(quad(v, S, v), facesum(m, cl, s, cd, fd, [&](auto& y) { return s.cell(y); }, [&](size_t f) { return 1/(hF ? diameter(m, fcs[f]) : diameter(m, cl)); }), 1e-6, "the HDG stabilization is the scaled projected jump");
}
VP_H(P22_hdg2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,3); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { hdg(m, cl, cd, fd); }); }
VP_H(P22_hdg3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,k == 0 ? 2 : 1); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell3(k, [&](auto& m, auto cl) { hdg(m, cl, cd, fd); }); }
template<typename M, typename C> static void dg(const M& m, const C& cl, size_t cd, size_t fd) {
    bool hF = fd == 2 ? false : vp_bool("face scale"); Mat S = (fd == 0 ? vp_bool("interface") : fd == 2) ? disk::make_scalar_dg_stabilization(m, cl, hdi(cd,fd), hF) : disk::make_scalar_dg_stabilization(m, cl, infos(m,cl,cd,fd), hF);
    auto fcs = faces(m, cl); size_t n = sdim<M>(cd) + fcs.size()*fdim<M>(fd); Vec v = symvec("v", n); ScalarDofs<M,C> s(m, cl, cd, fd, v); posdef(S, v); T r = 0;
    for (size_t f = 0; f < fcs.size(); f++) for (auto& q : disk::integrate(m, fcs[f], 2*std::max(cd,fd))) { T e = s.cell(q.point()) - s.face(f, q.point()); r += q.weight()*e*e/(hF ? diameter(m, fcs[f]) : diameter(m, cl)); }
    vp_close(quad(v, S, v), r, 1e-6, "the DG stabilization is the scaled jump");
}
VP_H(P22_dg) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,3); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { dg(m, cl, cd, fd); }); }
VP_H(P22_dg3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,1); size_t cd = celdeg(vp_pick("mode",0,1), fd); with_cell3(k, [&](auto& m, auto cl) { dg(m, cl, cd, fd); }); }
// the HHO stabilization: || P_F (u_T + (1 - P_T) R u) - u_F ||^2 / h
template<typename M, typename C> static void hho(const M& m, const C& cl, size_t cd, size_t fd) {
    const size_t D = M::dimension; int var = vp_pick("interface",0,3); bool hF = var == 3 ? false : fd ? var == 1 : vp_bool("face scale"); disk::MeshDegreeInfo<M> mi(m, cd, fd, fd); Eigen::Matrix<T,D,D> K = Eigen::Matrix<T,D,D>::Identity(); K(0,0) = 2; K(0,1) = K(1,0) = 0.5;
    Mat R = disk::make_scalar_hho_laplacian(m, cl, hdi(cd,fd)).first;
    Mat S = var == 0 ? disk::make_scalar_hho_stabilization(m, cl, R, hdi(cd,fd), hF) : var == 1 ? disk::make_scalar_hho_stabilization(m, cl, R, infos(m,cl,cd,fd), hF) : var == 2 ? disk::make_scalar_hho_stabilization(m, cl, R, mi, hF) : disk::make_scalar_hho_stabilization2(m, cl, R, hdi(cd,fd), K);
    auto fcs = faces(m, cl); size_t n = sdim<M>(cd) + fcs.size()*fdim<M>(fd); vp_check(size_t(S.rows()) == n && size_t(S.cols()) == n, "size"); Vec v = symvec("v", n); ScalarDofs<M,C> s(m, cl, cd, fd, v); posdef(S, v);
    auto rb = disk::make_scalar_monomial_basis(m, cl, fd+1); auto cb = disk::make_scalar_monomial_basis(m, cl, cd); Vec r = mul(R, v);
    auto rec = [&](const disk::point<T,D>& y) { Vec e = rb.eval_functions(y); T t = 0; for (int i = 0; i < r.size(); i++) t += r(i)*e(i+1); return t; };
    Vec pr = disk::project_function(m, cl, cd, rec, 2);
    vp_close(quad(v, S, v), facesum(m, cl, s, 2, fd, [&](auto& y) { return s.cell(y) + rec(y) - dot(pr, Vec(cb.eval_functions(y))); }, [&](size_t f) { auto nn = normal(m, cl, fcs[f]); return (var == 3 ? nn.dot(K*nn) : 1)/(hF ? diameter(m, fcs[f]) : diameter(m, cl)); }), 1e-6, "the HHO stabilization is the scaled projected high order jump");
}
VP_H(P22_hho2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,2); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { hho(m, cl, cd, fd); }); }
VP_H(P22_hho3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,1); size_t cd = celdeg(vp_pick("mode",0,1), fd); with_cell3(k, [&](auto& m, auto cl) { hho(m, cl, cd, fd); }); }
// consistency: the stabilization of the interpolate of a polynomial of degree k+1 vanishes (HHO), of the cell degree (HDG); and with the reconstruction it controls everything but constants
template<typename M, typename C> static void consistent(const M& m, const C& cl, size_t cd, size_t fd) {
    const size_t D = M::dimension; auto h = hdi(cd, fd); auto p = poly("c", fd+1, typename M::point_type()), q = poly("d", cd, typename M::point_type());
    Vec I = disk::project_function(m, cl, h, [&](const disk::point<T,D>& y) { return p(y); }, 2), J = disk::project_function(m, cl, h, [&](const disk::point<T,D>& y) { return q(y); }, 2);
    auto R = disk::make_scalar_hho_laplacian(m, cl, h); Mat S = disk::make_scalar_hho_stabilization(m, cl, R.first, h), H = disk::make_scalar_hdg_stabilization(m, cl, h);
    Vec a = mul(S, I), b = mul(H, J); for (int i = 0; i < a.size(); i++) { vp_close(a(i), 0, 1e-6, "the HHO stabilization vanishes on polynomials of degree k+1"); vp_close(b(i), 0, 1e-6, "the HDG stabilization vanishes on polynomials of the cell degree"); }
    Mat A = R.second + S; int n = A.rows(); for (int i = 0; i < n; i++) vp_close(mul(A, disk::project_function(m, cl, h, [&](const disk::point<T,D>&) { return T(1); }))(i), 0, 1e-8, "constants are in the kernel of the stabilized operator");
    vp_check(is_psd(A.block(1,1,n-1,n-1), -1e-5), "only constants are in the kernel of the stabilized operator");
    if (fd == 0 && cd == 0) { Vec w = symvec("w", n); Vec r = mul(A, w); for (int i = 0; i < n; i++) vp_assume(r(i) < 1e-7 && r(i) > -1e-7); vp_assume(w(0) < 1e-12 && w(0) > -1e-12); for (int i = 0; i < n; i++) vp_close(w(i), 0, 1e-3, "a vector without energy is constant"); }
}
VP_H(P22_consistent2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,3); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { consistent(m, cl, cd, fd); }); }
VP_H(P22_consistent3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,k ? 1 : 2); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell3(k, [&](auto& m, auto cl) { consistent(m, cl, cd, fd); }); }
// the tensor weighted HDG stabilization
VP_H(P22_hdg_tensor) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,1); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { typedef std::decay_t<decltype(m)> M; Eigen::Matrix<T,2,2> K; T z = vp_real("K00", 1, 3); K << z, 0.5, 0.5, 1; Mat S = disk::make_scalar_hdg_stabilization2(m, cl, hdi(cd,fd), K); auto fcs = faces(m, cl); size_t n = sdim<M>(cd) + fcs.size()*fdim<M>(fd); Vec v = symvec("v", n); ScalarDofs<M,std::decay_t<decltype(cl)>> s(m, cl, cd, fd, v);
    vp_close(quad(v, S, v), facesum(m, cl, s, cd, fd, [&](auto& y) { return s.cell(y); }, [&](size_t f) { auto nn = normal(m, cl, fcs[f]); return (nn(0)*(z*nn(0)+0.5*nn(1)) + nn(1)*(0.5*nn(0)+nn(1)))/diameter(m, cl); }), 1e-6, "the tensor HDG stabilization"); }); }
// difference operator and the factorisation of the stabilizations through it
VP_H(P22_difference) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,1); size_t cd = celdeg(vp_pick("mode",0,1), fd); bool hF = vp_bool("face scale"); with_cell2(k, [&](auto& m, auto cl) { Mat D = disk::make_scalar_hho_difference(m, cl, hdi(cd,fd)), H = disk::make_scalar_hdg_stabilization(m, cl, hdi(cd,fd), hF), B = disk::make_scalar_hdg_stabilization_diff(m, cl, hdi(cd,fd), hF); vp_check(D.rows() == B.rows() && D.cols() == H.cols(), "sizes"); Vec v = symvec("v", H.rows()); Vec d = mul(D, v); vp_close(quad(d, B, d), quad(v, H, v), 1e-6, "the HDG stabilization factors through the difference operator"); }); }
// the flux form: s(u, v) = sum_F 1/h (F(u), v_F - v_T)_F for every u and v
template<typename M, typename C> static void flux(const M& m, const C& cl, size_t cd, size_t fd) {
    bool hF = vp_bool("face scale"), di = vp_bool("uniform degrees"); Mat R = disk::make_scalar_hho_laplacian(m, cl, hdi(cd,fd)).first; auto ci = infos(m, cl, cd, fd); Mat S = disk::make_scalar_hho_stabilization(m, cl, R, ci, hF), F = di ? disk::make_scalar_hho_stabilization_fluxes(m, cl, R, hdi(cd,fd), hF) : disk::make_scalar_hho_stabilization_fluxes(m, cl, R, ci, hF);
    auto fcs = faces(m, cl); size_t nf = fdim<M>(fd), nT = sdim<M>(cd), n = nT + fcs.size()*nf; vp_check(size_t(F.rows()) == fcs.size()*nf && size_t(F.cols()) == n, "flux size"); Vec u = symvec("u", n); Vec v = Vec::Zero(n); v(vp_pick("test", 0, n-1)) = 1; ScalarDofs<M,C> s(m, cl, cd, fd, v); Vec fl = mul(F, u); T t = 0;
    for (size_t f = 0; f < fcs.size(); f++) { auto fb = disk::make_scalar_monomial_basis(m, fcs[f], fd); for (auto& q : disk::integrate(m, fcs[f], std::max(cd,fd)+fd)) t += q.weight()*dot(Vec(fl.segment(f*nf, nf)), Vec(fb.eval_functions(q.point())))*(s.face(f, q.point()) - s.cell(q.point()))/(hF ? diameter(m, fcs[f]) : diameter(m, cl)); }
    vp_close(t, quad(u, S, v), 1e-6, "the flux of the stabilization");
}
VP_H(P22_flux2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,1); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { flux(m, cl, cd, fd); }); }
VP_H(P22_flux3) { int k = vp_pick("cell",0,2); size_t cd = celdeg(vp_pick("mode",0,1), 0); with_cell3(k, [&](auto& m, auto cl) { flux(m, cl, cd, 0); }); }
