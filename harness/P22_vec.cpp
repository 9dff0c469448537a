//@bound vector stabilizations: every kind of cell, one fixed shape each; face degree 1..2 in 2D (0 when the interface allows it), 0..1 in 3D, cell degree equal or one more; every vector of unknowns and every polynomial field
//@link jb
//@link triangle
#include "hho.hpp"
using namespace vp;
static disk::hho_degree_info hdi(size_t cd, size_t fd) { return disk::hho_degree_info(cd, fd); }
static void posdef(const Mat& S) { for (int i = 0; i < S.rows(); i++) for (int j = 0; j < i; j++) vp_close(S(i,j), S(j,i), 1e-8, "symmetric"); vp_check(is_psd(S, 1e-7), "positive semidefinite"); }
// component a of the vector unknowns as scalar unknowns
template<typename M, typename C> static ScalarDofs<M,C> comp(const M& m, const C& cl, size_t cd, size_t fd, const Vec& v, size_t a) { const size_t D = M::dimension; size_t n = v.size()/D; Vec w(n); for (size_t i = 0; i < n; i++) w(i) = v(i*D + a); return ScalarDofs<M,C>(m, cl, cd, fd, w); }
template<typename M, typename C> static void hdg(const M& m, const C& cl, size_t cd, size_t fd, bool dgs) {
    const size_t D = M::dimension; bool hF = vp_bool("face scale"), inf = vp_bool("infos"); disk::MeshDegreeInfo<M> mi(m, cd, fd, fd);
    Mat S = dgs ? (inf ? disk::make_vector_dg_stabilization(m, cl, mi, hF) : disk::make_vector_dg_stabilization(m, cl, hdi(cd,fd), hF)) : inf ? disk::make_vector_hdg_stabilization(m, cl, mi, hF) : disk::make_vector_hdg_stabilization(m, cl, hdi(cd,fd), hF);
    auto fcs = faces(m, cl); size_t n = vsdim<M>(cd) + fcs.size()*vfdim<M>(fd); vp_check(size_t(S.rows()) == n && size_t(S.cols()) == n, "size"); posdef(S);
    Vec v = symvec("v", n); VectorDofs<M,C> s(m, cl, cd, fd, v); T r = 0;
    for (size_t f = 0; f < fcs.size(); f++) { auto fb = disk::make_scalar_monomial_basis(m, fcs[f], fd); std::vector<Vec> pr; for (size_t a = 0; a < D; a++) pr.push_back(disk::project_function(m, fcs[f], fd, [&](const disk::point<T,D>& y) { return s.cell(y)(a); }, 2));
        for (auto& q : disk::integrate(m, fcs[f], 2*std::max(cd,fd))) { Vec u = s.face(f, q.point()), t = s.cell(q.point()); Vec e = fb.eval_functions(q.point()); for (size_t a = 0; a < D; a++) { T d = (dgs ? t(a) : dot(pr[a], e)) - u(a); r += q.weight()*d*d/(hF ? diameter(m, fcs[f]) : diameter(m, cl)); } } }
    vp_close(quad(v, S, v), r, 1e-6, dgs ? "the vector DG stabilization is the scaled jump" : "the vector HDG stabilization is the scaled projected jump");
}
VP_H(P22_vector_hdg2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,2); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { hdg(m, cl, cd, fd, false); }); }
VP_H(P22_vector_dg2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,1); size_t cd = celdeg(vp_pick("mode",0,1), fd); with_cell2(k, [&](auto& m, auto cl) { hdg(m, cl, cd, fd, true); }); }
VP_H(P22_vector_hdg3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,k ? 0 : 1); size_t cd = celdeg(vp_pick("mode",0,1), fd); with_cell3(k, [&](auto& m, auto cl) { hdg(m, cl, cd, fd, false); }); }
// || P_F (u_T + (1 - P_T) R u) - u_F ||^2 / h with the vector reconstruction (the first D basis functions, the constants, are left out of it)
template<typename M, typename C> static void hho(const M& m, const C& cl, size_t cd, size_t fd, int rv) {
    const size_t D = M::dimension; bool hF = vp_bool("face scale"); int var = vp_pick("interface",0,2); disk::MeshDegreeInfo<M> mi(m, cd, fd, fd); disk::CellDegreeInfo<M> ci(m, cl, cd, fd, fd); auto h = hdi(cd, fd);
    Mat R = rv ? disk::make_vector_hho_laplacian(m, cl, h).first : disk::make_vector_hho_symmetric_laplacian(m, cl, h).first;
    if (!rv) { Mat Z = disk::make_vector_hho_laplacian(m, cl, h).first; R = R.bottomRows(Z.rows()).eval(); }
    Mat S = var == 0 ? disk::make_vector_hho_stabilization(m, cl, R, h, hF) : var == 1 ? disk::make_vector_hho_stabilization(m, cl, R, ci, hF) : disk::make_vector_hho_stabilization(m, cl, R, mi, hF);
    auto fcs = faces(m, cl); size_t n = vsdim<M>(cd) + fcs.size()*vfdim<M>(fd); vp_check(size_t(S.rows()) == n, "size"); posdef(S); Vec v = symvec("v", n); VectorDofs<M,C> s(m, cl, cd, fd, v);
    auto rb = disk::make_vector_monomial_basis(m, cl, fd+1); auto cb = disk::make_scalar_monomial_basis(m, cl, cd); Vec r = mul(R, v); vp_check(size_t(R.rows()) == rb.size() - D, "rows of the reconstruction");
    auto rec = [&](const disk::point<T,D>& y) { Mat e = rb.eval_functions(y); Vec t = Vec::Zero(D); for (int i = 0; i < r.size(); i++) for (size_t a = 0; a < D; a++) t(a) += r(i)*e(i+D,a); return t; };
    T sum = 0; for (size_t a = 0; a < D; a++) { Vec pr = disk::project_function(m, cl, cd, [&](const disk::point<T,D>& y) { return rec(y)(a); }, 2);
        for (size_t f = 0; f < fcs.size(); f++) { auto fb = disk::make_scalar_monomial_basis(m, fcs[f], fd); Vec pf = disk::project_function(m, fcs[f], fd, [&](const disk::point<T,D>& y) { return s.cell(y)(a) + rec(y)(a) - dot(pr, Vec(cb.eval_functions(y))); }, 2);
            for (auto& q : disk::integrate(m, fcs[f], 2*fd)) { T d = dot(pf, Vec(fb.eval_functions(q.point()))) - s.face(f, q.point())(a); sum += q.weight()*d*d/(hF ? diameter(m, fcs[f]) : diameter(m, cl)); } } }
    vp_close(quad(v, S, v), sum, 1e-6, "the vector HHO stabilization is the scaled projected high order jump");
    if (rv) { Mat Rs = disk::make_scalar_hho_laplacian(m, cl, h).first; Mat O = var == 2 ? disk::make_vector_hho_stabilization_optim(m, cl, Rs, mi, hF) : disk::make_vector_hho_stabilization_optim(m, cl, Rs, h, hF); vp_check(O.rows() == S.rows() && O.cols() == S.cols(), "size of the optimised stabilization"); close_mat(O, S, 1e-7, "the optimised vector HHO stabilization is the vector HHO stabilization"); }
}
VP_H(P22_vector_hho2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,1); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { hho(m, cl, cd, fd, 1); }); }
VP_H(P22_vector_hho_sym2) { int k = vp_pick("cell",0,3), fd = 1; size_t cd = celdeg(vp_pick("mode",0,1), fd); with_cell2(k, [&](auto& m, auto cl) { hho(m, cl, cd, fd, 0); }); }
VP_H(P22_vector_hho3) { int k = vp_pick("cell",0,2); size_t cd = celdeg(vp_pick("mode",0,1), 0); with_cell3(k, [&](auto& m, auto cl) { hho(m, cl, cd, 0, 1); }); }
// consistency on polynomial fields of degree k+1
template<typename M, typename C> static void consistent(const M& m, const C& cl, size_t cd, size_t fd) {
    const size_t D = M::dimension; typedef disk::point<T,D> P; auto h = hdi(cd, fd); std::vector<decltype(poly("", 0, P()))> p, q; for (size_t a = 0; a < D; a++) { p.push_back(poly("c", fd+1, P())); q.push_back(poly("d", cd, P())); }
    auto vec = [&](auto& z) { return [&](const P& y) { Eigen::Matrix<T,D,1> r; for (size_t a = 0; a < D; a++) r(a) = z[a](y); return r; }; };
    Vec I = disk::project_function(m, cl, h, vec(p), 2), J = disk::project_function(m, cl, h, vec(q), 2);
    Vec a = mul(disk::make_vector_hho_stabilization(m, cl, disk::make_vector_hho_laplacian(m, cl, h).first, h), I), b = mul(disk::make_vector_hdg_stabilization(m, cl, h), J);
    for (int i = 0; i < a.size(); i++) { vp_close(a(i), 0, 1e-6, "the vector HHO stabilization vanishes on fields of degree k+1"); vp_close(b(i), 0, 1e-6, "the vector HDG stabilization vanishes on fields of the cell degree"); }
}
VP_H(P22_vector_consistent) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,2); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { consistent(m, cl, cd, fd); }); }
VP_H(P22_vector_consistent3) { int k = vp_pick("cell",0,2); size_t cd = celdeg(vp_pick("mode",0,1), 0); with_cell3(k, [&](auto& m, auto cl) { consistent(m, cl, cd, 0); }); }
