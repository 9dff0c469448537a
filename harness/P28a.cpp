//@bound every kind of 2D cell, and the tetrahedron, box and prism, one fixed shape each; face degree 0..2 (2D), 0..1 (3D; exactness of the curl reconstruction 0 on box and prism; full polynomials to 2 on the tetrahedron), cell degree equal, one more, one less, reconstruction degree the face degree or one more (cell degree at most the reconstruction degree where the operator asks for it); every vector of unknowns, every polynomial field
//@link jb
//@link triangle
#include "hho.hpp"
#include "diskpp/methods/implementation_hho/curl.hpp"
using namespace vp;
typedef Eigen::Matrix<T,3,1> V3d;
static disk::hho_degree_info hdi(size_t cd, size_t fd, size_t rd) { return disk::hho_degree_info(disk::priv::hdi_named_args{.rd = rd, .cd = cd, .fd = fd}); }
static V3d cross(const V3d& a, const V3d& b) { return V3d(a(1)*b(2)-a(2)*b(1), a(2)*b(0)-a(0)*b(2), a(0)*b(1)-a(1)*b(0)); }
// rows are the curls of the functions of a 3D vector basis
template<typename B> static Mat curls(const B& b, const P3& x, int deg) { std::vector<Mat> d; for (int a = 0; a < 3; a++) d.push_back(deriv(x, a, std::max(deg,1), [&](const P3& y) { Mat m = b.eval_functions(y); return m; })); Mat r(d[0].rows(), 3); for (int i = 0; i < r.rows(); i++) { r(i,0) = d[1](i,2)-d[2](i,1); r(i,1) = d[2](i,0)-d[0](i,2); r(i,2) = d[0](i,1)-d[1](i,0); } return r; }
static V3d comb(const Mat& f, const Vec& c, int o) { V3d r(0,0,0); for (int i = 0; i < f.rows(); i++) for (int a = 0; a < 3; a++) r(a) += c(o+i)*f(i,a); return r; }
static T in3(const Mat& f, int i, const V3d& v) { return f(i,0)*v(0) + f(i,1)*v(1) + f(i,2)*v(2); }
template<bool N, typename M, typename F> static auto fbasis(const M& m, const F& fc, size_t d) { if constexpr (N) return disk::make_vector_monomial_nedelec_tangential_basis(m, fc, d); else return disk::make_vector_monomial_tangential_basis(m, fc, d); }
static size_t tsize(bool n, size_t d) { return n ? d*(d+1)+d+2 : (d+1)*(d+2); }
static size_t dof3(size_t cd, size_t nf, bool n, size_t fd) { return (cd+1)*(cd+2)*(cd+3)/2 + nf*tsize(n, fd); }
template<typename M, typename C> static void define(const M& m, const C& cl, size_t cd, size_t fd, size_t rd) {
    auto od = disk::curl_reconstruction(m, cl, hdi(cd,fd,rd)); auto rb = disk::make_vector_monomial_basis(m, cl, rd); auto cb = disk::make_vector_monomial_basis(m, cl, cd); auto fcs = faces(m, cl); int r = rb.size(), n = dof3(cd, fcs.size(), false, fd); vp_check(od.first.rows() == r-3 && od.first.cols() == n && od.second.rows() == n && od.second.cols() == n, "sizes");
    Vec v = symvec("v", n); Vec R = mul(od.first, v); Vec rhs = Vec::Zero(r); Mat S = Mat::Zero(r, r); for (auto& q : disk::integrate(m, cl, 2*rd)) { Mat w = curls(rb, q.point(), rd), c = curls(cb, q.point(), cd); V3d cv = comb(c, v, 0); for (int i = 0; i < r; i++) { rhs(i) += q.weight()*in3(w, i, cv); for (int j = 0; j < r; j++) S(i,j) += q.weight()*(w(i,0)*w(j,0)+w(i,1)*w(j,1)+w(i,2)*w(j,2)); } }
    int o = cb.size(); for (auto& fc : fcs) { auto fb = disk::make_vector_monomial_tangential_basis(m, fc, fd); auto nn = normal(m, cl, fc); for (auto& q : disk::integrate(m, fc, rd+std::max(cd,fd))) { V3d j = comb(fb.eval_functions(q.point()), v, o) - comb(cb.eval_functions(q.point()), v, 0); Mat w = curls(rb, q.point(), rd); for (int i = 0; i < r; i++) rhs(i) += q.weight()*j.dot(cross(V3d(w(i,0),w(i,1),w(i,2)), nn)); } o += fb.size(); }
    for (int i = 0; i < r; i++) { T l = 0; for (int j = 3; j < r; j++) l += S(i,j)*R(j-3); vp_close(l, rhs(i), 1e-6, "the curl reconstruction solves its problem"); } Mat E = od.first.transpose()*S.block(3,3,r-3,r-3)*od.first; close_mat(od.second, E, 1e-6, "the local matrix is the energy of the curl"); close_mat(disk::make_curl_curl_matrix(m, cl, rb), S, 1e-8, "the matrix of curls");
}
template<typename M, typename C> static void exact(const M& m, const C& cl, size_t cd, size_t fd) {
    size_t rd = fd+1; auto h = hdi(cd,fd,rd); Pol3 p[3] = {Pol3("c",rd), Pol3("d",rd), Pol3("e",rd)}; auto f = [&](const P3& y) { return V3d(p[0](y), p[1](y), p[2](y)); }; auto cf = [&](const P3& y) { return V3d(p[2].diff(1)(y)-p[1].diff(2)(y), p[0].diff(2)(y)-p[2].diff(0)(y), p[1].diff(0)(y)-p[0].diff(1)(y)); };
    Vec I = disk::project_tangent(m, cl, h, f, 2); auto rb = disk::make_vector_monomial_basis(m, cl, rd); Vec R = mul(disk::curl_reconstruction(m, cl, h).first, I); P3 x = sympt<3>("x", 1); V3d e = cf(x); Mat w = curls(rb, x, rd); V3d s(0,0,0); for (int i = 3; i < w.rows(); i++) for (int a = 0; a < 3; a++) s(a) += R(i-3)*w(i,a); for (int a = 0; a < 3; a++) vp_close(s(a), e(a), 1e-5, "the curl of the interpolate of a polynomial field is its curl");
}
VP_H(P28_curl3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,1); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell3(k, [&](auto& m, auto cl) { define(m, cl, cd, fd, fd+1); }); }
VP_H(P28_curl3_exact) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,k ? 0 : 1); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell3(k, [&](auto& m, auto cl) { exact(m, cl, cd, fd); }); }
VP_H(P28_curl2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,2); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { typedef std::decay_t<decltype(m)> M; typedef std::decay_t<decltype(cl)> C; size_t rd = fd+1; auto od = disk::curl_reconstruction(m, cl, hdi(cd,fd,rd)); auto rb = disk::make_scalar_monomial_basis(m, cl, rd); auto cb = disk::make_scalar_monomial_basis(m, cl, cd); auto fcs = faces(m, cl); int r = rb.size(), n = cb.size() + fcs.size()*(fd+1); vp_check(od.first.rows() == r-1 && od.first.cols() == n && od.second.rows() == n, "sizes"); Vec v = symvec("v", n); ScalarDofs<M,C> s(m, cl, cd, fd, v); Vec R = mul(od.first, v), rhs = Vec::Zero(r); Mat S = Mat::Zero(r, r);
    auto cu = [&](const auto& b, const P2& x, int d) { Mat q(b.size(), 2); q.col(0) = deriv(x, 1, std::max(d,1), [&](const P2& y) { Vec z = b.eval_functions(y); return z; }); q.col(1) = -deriv(x, 0, std::max(d,1), [&](const P2& y) { Vec z = b.eval_functions(y); return z; }); return q; };
    for (auto& q : disk::integrate(m, cl, 2*rd)) { Mat w = cu(rb, q.point(), rd), c = cu(cb, q.point(), cd); T a = 0, b = 0; for (int i = 0; i < c.rows(); i++) { a += v(i)*c(i,0); b += v(i)*c(i,1); } for (int i = 0; i < r; i++) { rhs(i) += q.weight()*(a*w(i,0)+b*w(i,1)); for (int j = 0; j < r; j++) S(i,j) += q.weight()*(w(i,0)*w(j,0)+w(i,1)*w(j,1)); } }
    for (size_t f = 0; f < fcs.size(); f++) { auto nn = normal(m, cl, fcs[f]); for (auto& q : disk::integrate(m, fcs[f], rd+std::max(cd,size_t(fd)))) { T j = s.face(f, q.point()) - s.cell(q.point()); Mat w = cu(rb, q.point(), rd); for (int i = 0; i < r; i++) rhs(i) += q.weight()*j*(w(i,0)*nn(1)-w(i,1)*nn(0)); } }
    for (int i = 0; i < r; i++) { T l = 0; for (int j = 1; j < r; j++) l += S(i,j)*R(j-1); vp_close(l, rhs(i), 1e-6, "the curl reconstruction solves its problem"); } close_mat(od.second, od.first.transpose()*S.block(1,1,r-1,r-1)*od.first, 1e-6, "the local matrix is the energy of the curl"); Mat Z = disk::curl_hdg_stabilization(m, cl, hdi(cd,fd,rd)), H = disk::make_scalar_hdg_stabilization(m, cl, disk::hho_degree_info(cd,fd)); close_mat(Z, H, 1e-8, "the stabilization of the plane problem is the scalar one"); }); }
// the curl as an element of the full polynomials: (Cv, w) = (v_T, curl w) + (v_F, w x n)
template<bool N, typename M, typename C> static void weak(const M& m, const C& cl, size_t cd, size_t fd, size_t rd) {
    auto h = hdi(cd,fd,rd); std::pair<Mat,Mat> od; if constexpr (N) od = disk::curl_reconstruction_nedelec(m, cl, h); else od = disk::curl_reconstruction_pk(m, cl, h); auto rb = disk::make_vector_monomial_basis(m, cl, rd); auto cb = disk::make_vector_monomial_basis(m, cl, cd); auto fcs = faces(m, cl); int r = rb.size(), n = dof3(cd, fcs.size(), N, fd); vp_check(od.first.rows() == r && od.first.cols() == n && od.second.rows() == n && od.second.cols() == n, "sizes");
    Vec v = symvec("v", n); Vec R = mul(od.first, v), rhs = Vec::Zero(r); Mat S = Mat::Zero(r, r); for (auto& q : disk::integrate(m, cl, std::max(2*rd, rd+cd))) { Mat w = curls(rb, q.point(), rd), g = rb.eval_functions(q.point()); V3d u = comb(cb.eval_functions(q.point()), v, 0); for (int i = 0; i < r; i++) { rhs(i) += q.weight()*in3(w, i, u); for (int j = 0; j < r; j++) S(i,j) += q.weight()*(g(i,0)*g(j,0)+g(i,1)*g(j,1)+g(i,2)*g(j,2)); } }
    int o = cb.size(); for (auto& fc : fcs) { auto fb = fbasis<N>(m, fc, fd); auto nn = normal(m, cl, fc); for (auto& q : disk::integrate(m, fc, rd+fd+1)) { V3d j = comb(fb.eval_functions(q.point()), v, o); Mat g = rb.eval_functions(q.point()); for (int i = 0; i < r; i++) rhs(i) += q.weight()*j.dot(cross(V3d(g(i,0),g(i,1),g(i,2)), nn)); } o += fb.size(); }
    for (int i = 0; i < r; i++) { T l = 0; for (int j = 0; j < r; j++) l += S(i,j)*R(j); vp_close(l, rhs(i), 1e-6, "the discrete curl is the weak curl"); } close_mat(od.second, od.first.transpose()*S*od.first, 1e-6, "the local matrix is the energy of the discrete curl");
    // exact on polynomial fields of the face degree; the Nedelec spaces contain the gradients, whose curl vanishes
    size_t pd = std::min(cd, fd); std::vector<Pol3> p; if constexpr (N) { Pol3 z("z", pd+1); for (int a = 0; a < 3; a++) p.push_back(z.diff(a)); } else p = {Pol3("c",pd), Pol3("d",pd), Pol3("e",pd)}; auto f = [&](const P3& y) { return V3d(p[0](y), p[1](y), p[2](y)); }; Vec I; if constexpr (N) I = disk::project_tangent_nedelec(m, cl, h, f, 2); else I = disk::project_tangent(m, cl, h, f, 2); Vec c = mul(od.first, I); P3 x = sympt<3>("x", 1); V3d e(p[2].diff(1)(x)-p[1].diff(2)(x), p[0].diff(2)(x)-p[2].diff(0)(x), p[1].diff(0)(x)-p[0].diff(1)(x)), s = comb(rb.eval_functions(x), c, 0); for (int a = 0; a < 3; a++) vp_close(s(a), N ? T(0) : e(a), 1e-5, "exact on polynomial fields");
}
VP_H(P28_pk) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,k ? 1 : 2), up = vp_pick("rec",0,1); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell3(k, [&](auto& m, auto cl) { weak<false>(m, cl, cd, fd, fd+up); }); }
VP_H(P28_nedelec) { int k = vp_pick("cell",0,2), up = vp_pick("rec",0,1); size_t fd = 1, cd = celdeg(vp_pick("mode",0,2), fd); with_cell3(k, [&](auto& m, auto cl) { weak<true>(m, cl, cd, fd, fd+up); }); }
