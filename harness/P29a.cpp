//@bound every kind of cell, one fixed shape each; face degree 0..2 (2D), 0..1 (3D, 0 on the prism), cell degree equal, one more, one less; every vector of unknowns and every polynomial of the reconstruction degree
//@link jb
//@link triangle
#include "hho.hpp"
#include "diskpp/methods/hho_slapl.hpp"
using namespace vp; namespace SL = disk::hho::slapl; namespace B = disk::basis;
template<typename M> using Sp = SL::hho_space<M>;
// unknowns as functions
template<typename M, typename C> struct SDofs { const M& m; const C& cl; SL::degree_info di; Vec u; 
    template<typename P> T cell(const P& x) const { typename Sp<M>::cell_basis_type b(m, cl, di.cell); return dot(Vec(b(x)), Vec(u.head(b.size()))); }
    template<typename P> T face(size_t i, const P& x) const { auto fc = faces(m, cl)[i]; typename Sp<M>::face_basis_type b(m, fc, di.face); return dot(Vec(b(x)), Vec(u.segment(sdim<M>(di.cell) + i*b.size(), b.size()))); } };
template<typename M, typename C> struct SOne { const SDofs<M,C>& s; template<typename P> Vec cell(const P& x) const { Vec r(1); r(0) = s.cell(x); return r; } template<typename P> Vec face(size_t i, const P& x) const { Vec r(1); r(0) = s.face(i, x); return r; } };
static SL::degree_info info(size_t cd, size_t fd) { if (cd == fd) return SL::degree_info(fd); return SL::degree_info(cd, fd); }
template<typename M, typename C> static void defining(const M& m, const C& cl, size_t cd, size_t fd) { auto di = info(cd, fd); vp_check(di.cell == cd && di.face == fd && di.reco == fd+1, "degrees"); auto [a, b, c] = SL::space_dimensions<Sp<M>>(di); vp_check(a == sdim<M>(cd) && b == fdim<M>(fd) && c == sdim<M>(fd+1), "dimensions");
    auto [R, A] = SL::local_operator(m, cl, di); size_t nf = faces(m, cl).size(), n = a + nf*b; vp_check(size_t(R.rows()) == c-1 && size_t(R.cols()) == n && size_t(A.rows()) == n && size_t(A.cols()) == n, "operator sizes"); typename Sp<M>::reco_basis_type rb(m, cl, di.reco); SDofs<M,C> s{m, cl, di, symvec("v", n)};
    Mat S = weak_gradient(m, cl, di.reco, std::max(cd, fd), [&](const typename M::point_type& x) { return tail(one(Mat(rb.grad(x))), 1); }, R, SOne<M,C>{s}, s.u, "the reconstruction solves its defining problem"); close_mat(A, R.transpose()*S*R, 1e-6, "the local matrix is the energy of the reconstructed gradient"); }
// the interpolate, with quadrature that is exact for the polynomial
template<typename M, typename C, typename P> static Vec interp(const M& m, const C& cl, const SL::degree_info& di, const P& p) { auto fcs = faces(m, cl); size_t a = sdim<M>(di.cell), b = fdim<M>(di.face); Vec I(a + fcs.size()*b); auto pr = [&](const auto& e, const auto& bs, size_t d, size_t o) { Mat A = Mat::Zero(bs.size(), bs.size()); Vec r = Vec::Zero(bs.size()); for (auto& q : disk::integrate(m, e, d + std::max(d, di.reco))) { Vec f = bs(q.point()); A += q.weight()*f*f.transpose(); r += q.weight()*p(q.point())*f; } I.segment(o, bs.size()) = A.ldlt().solve(r); };
    pr(cl, typename Sp<M>::cell_basis_type(m, cl, di.cell), di.cell, 0); for (size_t f = 0; f < fcs.size(); f++) pr(fcs[f], typename Sp<M>::face_basis_type(m, fcs[f], di.face), di.face, a + f*b); return I; }
template<typename M, typename C> static void exact(const M& m, const C& cl, size_t cd, size_t fd) { const size_t D = M::dimension; auto di = info(cd, fd); auto p = poly("c", fd+1, typename M::point_type()); auto x = sympt<D>("x", 1); auto [R, A] = SL::local_operator(m, cl, di); Vec I = interp(m, cl, di, p); typename Sp<M>::reco_basis_type rb(m, cl, di.reco); vp_check(I.size() == R.cols(), "reduction size"); Vec c = mul(R, I); Mat g = rb.grad(x);
    for (size_t a = 0; a < D; a++) { T s = 0; for (int i = 0; i < c.size(); i++) s += c(i)*g(i+1,a); vp_close(s, diff(p, a)(x), 1e-5, "the reconstruction of the interpolate of a polynomial is the polynomial"); }
    Vec z = mul(SL::local_stabilization(m, cl, di, R), I); for (int i = 0; i < z.size(); i++) vp_close(z(i), 0, 1e-6, "the stabilization vanishes on interpolates of polynomials"); }
// || P_F ( v_T - P_T R v + R v ) - v_F ||^2 / h, where R v is the reconstruction with any constant
template<typename M, typename C> static void stab(const M& m, const C& cl, size_t cd, size_t fd) { const size_t D = M::dimension; typedef disk::point<T,D> P; auto di = info(cd, fd); auto [R, A] = SL::local_operator(m, cl, di); Mat S = SL::local_stabilization(m, cl, di, R); size_t n = R.cols(); vp_check(size_t(S.rows()) == n && size_t(S.cols()) == n, "stabilization size"); close_mat(S, S.transpose(), 1e-8, "symmetric"); vp_check(is_psd(S, 1e-7), "positive semidefinite"); SDofs<M,C> s{m, cl, di, symvec("v", n)}; typename Sp<M>::reco_basis_type rb(m, cl, di.reco); Vec r = mul(R, s.u); auto rv = [&](const P& y) { Vec f = rb(y); T t = 0; for (int i = 0; i < r.size(); i++) t += r(i)*f(i+1); return t; };
    auto tb = disk::make_scalar_monomial_basis(m, cl, cd); Vec pt = disk::project_function(m, cl, cd, rv, 2); auto g = [&](const P& y) { return s.cell(y) - dot(pt, Vec(tb.eval_functions(y))) + rv(y); }; T e = 0; auto fcs = faces(m, cl); for (size_t f = 0; f < fcs.size(); f++) { auto fb = disk::make_scalar_monomial_basis(m, fcs[f], fd); Vec pf = disk::project_function(m, fcs[f], fd, g, 2); for (auto& q : disk::integrate(m, fcs[f], 2*fd)) { T d = dot(pf, Vec(fb.eval_functions(q.point()))) - s.face(f, q.point()); e += q.weight()*d*d; } } vp_close(quad(s.u, S, s.u), e/diameter(m, cl), 1e-5, "the stabilization is the scaled projected jump"); }
// the reduction: errors of the cell and face parts are orthogonal to their spaces
template<typename M, typename C> static void reduce(const M& m, const C& cl, size_t cd, size_t fd) { const size_t D = M::dimension; auto di = info(cd, fd); auto p = poly("c", std::max(cd, fd), typename M::point_type()); SDofs<M,C> s{m, cl, di, SL::local_reduction(m, cl, di, [&](const typename M::point_type& y) { return p(y); })}; typename Sp<M>::cell_basis_type tb(m, cl, cd); Vec r = Vec::Zero(tb.size()); for (auto& q : disk::integrate(m, cl, cd + std::max(cd, fd))) r += q.weight()*(p(q.point()) - s.cell(q.point()))*Vec(tb(q.point())); for (int i = 0; i < r.size(); i++) vp_close(r(i), 0, 1e-7, "the error of the cell part is orthogonal");
    auto fcs = faces(m, cl); for (size_t f = 0; f < fcs.size(); f++) { typename Sp<M>::face_basis_type fb(m, fcs[f], fd); Vec r = Vec::Zero(fb.size()); for (auto& q : disk::integrate(m, fcs[f], fd + std::max(cd, fd))) r += q.weight()*(p(q.point()) - s.face(f, q.point()))*Vec(fb(q.point())); for (int i = 0; i < r.size(); i++) vp_close(r(i), 0, 1e-7, "the error of the face part is orthogonal"); } }
VP_H(P29_define2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,2); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { defining(m, cl, cd, fd); }); }
VP_H(P29_define3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,k == 2 ? 0 : 1); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell3(k, [&](auto& m, auto cl) { defining(m, cl, cd, fd); }); }
VP_H(P29_exact2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,2); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { exact(m, cl, cd, fd); }); }
VP_H(P29_exact3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,k == 2 ? 0 : 1); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell3(k, [&](auto& m, auto cl) { exact(m, cl, cd, fd); }); }
VP_H(P29_stab2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,2); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { stab(m, cl, cd, fd); }); }
VP_H(P29_stab3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,0); size_t cd = celdeg(vp_pick("mode",0,1), fd); with_cell3(k, [&](auto& m, auto cl) { stab(m, cl, cd, fd); }); }
VP_H(P29_reduce2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,2); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { reduce(m, cl, cd, fd); }); }
VP_H(P29_reduce3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,1); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell3(k, [&](auto& m, auto cl) { reduce(m, cl, cd, fd); }); }
// the HDG stabilization || P_F v_T - v_F ||^2, not scaled
template<typename M, typename C> static void hdg(const M& m, const C& cl, size_t cd, size_t fd) { auto di = info(cd, fd); Mat S = SL::local_stabilization_hdg(m, cl, di); size_t n = sdim<M>(cd) + faces(m, cl).size()*fdim<M>(fd); vp_check(size_t(S.rows()) == n && size_t(S.cols()) == n, "stabilization size"); SDofs<M,C> s{m, cl, di, symvec("v", n)}; T e = 0; auto fcs = faces(m, cl); for (size_t f = 0; f < fcs.size(); f++) { auto fb = disk::make_scalar_monomial_basis(m, fcs[f], fd); Vec pf = disk::project_function(m, fcs[f], fd, [&](const auto& y) { return s.cell(y); }, 2); for (auto& q : disk::integrate(m, fcs[f], 2*fd)) { T d = dot(pf, Vec(fb.eval_functions(q.point()))) - s.face(f, q.point()); e += q.weight()*d*d; } } vp_close(quad(s.u, S, s.u), e, 1e-5, "the HDG stabilization is the projected jump"); close_mat(S, S.transpose(), 1e-8, "symmetric"); }
VP_H(P29_hdg2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,1); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { hdg(m, cl, cd, fd); }); }
// static condensation: the condensed system and the recovered solution solve the local system
VP_H(P29_schur) { int k = vp_pick("cell",0,3); size_t cd = vp_pick("deg",0,1); with_cell2(k, [&](auto& m, auto cl) { typedef std::decay_t<decltype(m)> M; typename Sp<M>::cell_basis_type tb(m, cl, cd); size_t t = tb.size(), f = 3, n = t + f; disk::dynamic_matrix<T> L = symmat("l", n, n); for (size_t i = 0; i < t; i++) for (size_t j = 0; j < t; j++) L(i,j) = i == j ? 2. : i + j == 2 ? 0.5 : 0.25; disk::dynamic_vector<T> R = symvec("r", n), x = symvec("x", f); auto [Lc, Rc] = disk::hho::schur(L, R, tb); vp_check(size_t(Lc.rows()) == f && size_t(Lc.cols()) == f && size_t(Rc.size()) == f, "condensed sizes"); disk::dynamic_vector<T> y = disk::hho::deschur(L, R, x, tb); vp_check(size_t(y.size()) == n, "solution size"); Vec res = mul(L, y) - R, rc = mul(Lc, x) - Rc; for (size_t i = 0; i < t; i++) vp_close(res(i), 0, 1e-8, "the cell equations hold"); for (size_t i = 0; i < f; i++) { vp_close(res(t+i), rc(i), 1e-8, "the face equations are the condensed equations"); vp_close(y(t+i), x(i), 0, "the face unknowns are kept"); } }); }
// assembly of condensed systems without the Dirichlet faces
template<typename M> static void assembly(M& m, size_t fd, int mode) { SL::degree_info di(fd); using FB = typename Sp<M>::face_basis_type; std::vector<bool> dir; size_t nf = m.faces_size(), i = 0; for (auto& fc : faces(m)) { auto bi = m.boundary_info(fc); dir.push_back(mode == 0 ? bi.is_boundary() : mode == 1 ? i % 2 == 0 : false); i++; } auto as = mode == 0 ? SL::make_assembler(m, di) : disk::hho::basic_condensed_assembler<M,FB>(m, fd, dir); size_t b = fdim<M>(fd), free = 0; std::vector<int> pos(nf, -1); for (size_t i = 0; i < nf; i++) if (!dir[i]) pos[i] = free++; vp_check(as.dofs() == free*b && size_t(as.RHS.size()) == free*b && size_t(as.LHS.rows()) == free*b, "system size");
    size_t c = 0; Mat E = Mat::Zero(free*b, free*b); Vec r = Vec::Zero(free*b); Vec g = symvec("g", free*b); for (auto& cl : m) { auto ids = faces_id(m, cl); size_t n = ids.size()*b; Mat L = Mat::Zero(n, n); Vec R(n); for (size_t i = 0; i < n; i++) { R(i) = vp_real("r", -1, 1); for (size_t j = 0; j < n; j++) L(i,j) = vp_real("l", -1, 1); } as.assemble(m, cl, L, R); for (size_t i = 0; i < n; i++) { int p = pos[ids[i/b]]; if (p < 0) continue; r(p*b + i%b) += R(i); for (size_t j = 0; j < n; j++) { int q = pos[ids[j/b]]; if (q >= 0) E(p*b + i%b, q*b + j%b) += L(i,j); } }
        Vec u = as.take_local_solution(m, cl, g); vp_check(size_t(u.size()) == n, "local solution size"); for (size_t i = 0; i < n; i++) { int p = pos[ids[i/b]]; vp_close(u(i), p < 0 ? 0. : g(p*b + i%b), 0, "local solution"); } }
    as.finalize(); Mat A = as.LHS; close_mat(A, E, 1e-9, "the matrix is the sum of the local matrices"); for (int i = 0; i < r.size(); i++) vp_close(as.RHS(i), r(i), 1e-9, "the right-hand side is the sum of the local ones"); }
VP_H(P29_assembly2) { int k = vp_pick("mesh",0,3), d = vp_pick("deg",0,1), o = vp_pick("dirichlet",0,2); with_mesh2(k, [&](auto& m) { assembly(m, d, o); }); }
VP_H(P29_assembly3) { int k = vp_pick("mesh",0,2), o = vp_pick("dirichlet",0,1); with_mesh3(k, [&](auto& m) { assembly(m, 0, o); }); }
