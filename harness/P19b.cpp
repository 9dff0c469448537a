//@link jb
//@link triangle
#include "meshes.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace vp;
typedef Eigen::Matrix<T,-1,1> Vec; typedef Eigen::Matrix<T,-1,-1> Mat;
static bool independent(Mat A, T tol) { for (int j = 0; j < A.cols(); j++) { T n0 = A.col(j).norm(); for (int q = 0; q < j; q++) { T n = A.col(q).squaredNorm(); if (n > 1e-14) A.col(j) -= (A.col(q).dot(A.col(j))/n) * A.col(q); } if (!(A.col(j).norm() > tol*n0 && n0 > 0)) return false; } return true; }
template<size_t D, typename B> static void same(const B& b, size_t expect, bool sym, const disk::point<T,D>& x) {
    auto f = b.eval_functions(x); vp_check(b.size() == expect, "dimension"); vp_check(f.size() == b.size(), "as many functions as the size");
    if (sym) for (auto& a : f) for (size_t i = 0; i < D; i++) for (size_t j = 0; j < i; j++) vp_close(a(i,j), a(j,i), 0, "symmetric");
    auto tr = disk::trace(f); for (size_t i = 0; i < f.size(); i++) { T s = 0; for (size_t a = 0; a < D; a++) s += f[i](a,a); vp_close(tr(i), s, 1e-12, "trace"); }
    Mat S(40*D*D, b.size()); for (int i = 0; i < 40; i++) { disk::point<T,D> y; for (size_t a = 0; a < D; a++) y[a] = std::fmod(0.5+0.618*(i+1)*(a+1)+0.21*a*i, 1.0); auto r = b.eval_functions(y); for (size_t q = 0; q < r.size() && q < b.size(); q++) for (size_t a = 0; a < D; a++) for (size_t c = 0; c < D; c++) S(i*D*D+a*D+c, q) = r[q](a,c); } vp_check(independent(S, 1e-6), "the functions are independent");
}
template<size_t D, typename B, typename M, typename C, typename F> static void repro(const B& b, const M& m, const C& cl, F f, const disk::point<T,D>& x) {
    Mat A = disk::make_mass_matrix(m, cl, b); Vec r = disk::make_rhs(m, cl, b, f); Vec c = A.ldlt().solve(r); auto w = disk::eval(c, b.eval_functions(x)); auto o = f(x); for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) vp_close(w(i,j), o(i,j), 1e-6, "projection of matrix polynomials");
}
static auto fld2(const std::vector<Pol2>& p, bool sym) { return [&p,sym](const P2& q) { Eigen::Matrix<T,2,2> r; r << p[0](q), p[1](q), p[sym?1:2](q), p[3](q); return r; }; }
VP_H(P19_matrix2) { int k = vp_pick("cell",0,3), d = vp_pick("degree",0,2); auto x = sympt<2>("x",1); std::vector<Pol2> p{Pol2("a",d),Pol2("b",d),Pol2("c",d),Pol2("d",d)}; with_cell2(k, [&](auto& m, auto cl) { auto b = disk::make_matrix_monomial_basis(m, cl, d); same<2>(b, 4*(d+1)*(d+2)/2, false, x); repro<2>(b, m, cl, fld2(p, false), x); auto s = disk::make_sym_matrix_monomial_basis(m, cl, d); same<2>(s, 3*(d+1)*(d+2)/2, true, x); repro<2>(s, m, cl, fld2(p, true), x); }); }
VP_H(P19_matrix3) { int k = vp_pick("cell",0,2), d = vp_pick("degree",0,2); auto x = sympt<3>("x",1); int n = (d+1)*(d+2)*(d+3)/6; with_cell3(k, [&](auto& m, auto cl) { auto b = disk::make_matrix_monomial_basis(m, cl, d); same<3>(b, 9*n, false, x); auto s = disk::make_sym_matrix_monomial_basis(m, cl, d); same<3>(s, 6*n, true, x); }); }
VP_H(P19_matrix3_project) { int d = vp_pick("degree",0,1); auto x = sympt<3>("x",1); std::vector<Pol3> p; for (int i = 0; i < 9; i++) p.push_back(Pol3("a",d)); with_cell3(0, [&](auto& m, auto cl) { auto f = [&](const P3& q) { Eigen::Matrix<T,3,3> r; for (int i = 0; i < 9; i++) r(i/3,i%3) = p[i](q); return r; }; auto g = [&](const P3& q) { auto r = f(q); Eigen::Matrix<T,3,3> s = r + r.transpose(); return s; }; repro<3>(disk::make_matrix_monomial_basis(m, cl, d), m, cl, f, x); repro<3>(disk::make_sym_matrix_monomial_basis(m, cl, d), m, cl, g, x); }); }
// matrix Raviart-Thomas: rows are Raviart-Thomas fields, so A n has degree k-1 on the faces; symmetric variants stay symmetric
template<size_t D, typename M, typename C> static void rt(const M& m, const C& cl, int k, const disk::point<T,D>& x, T t) {
    size_t n1 = D == 2 ? k*(k+1)/2 : k*(k+1)*(k+2)/6, n2 = D == 2 ? (k-1)*k/2 : (k-1)*k*(k+1)/6;
    auto b = disk::make_matrix_monomial_basis_RT(m, cl, k); same<D>(b, D*D*n1 + D*(n1-n2), false, x);
    for (auto& fc : faces(m, cl)) { auto n = normal(m, cl, fc); auto p = points(m, fc); for (size_t e = 1; e < p.size(); e++) { auto y = p[0] + t*(p[1]-p[0]); Mat df = Mat::Zero(b.size(),D); T c = 1; for (int j = 0; j <= k; j++) { auto r = b.eval_functions(y + (j*0.5)*(p[e]-p[0])); for (size_t i = 0; i < r.size(); i++) df.row(i) += (c*(r[i]*n)).transpose(); c = -c*(k-j)/(j+1); } for (size_t i = 0; i < b.size(); i++) for (size_t a = 0; a < D; a++) vp_close(df(i,a), 0, 1e-8, "normal components have degree k-1 on the faces"); } }
    auto s = disk::make_sym_matrix_monomial_basis_RT(m, cl, k); same<D>(s, D*(D+1)/2*n1 + D*(n1-n2), true, x);
}
VP_H(P19_matrix_rt2) { int k = vp_pick("degree",1,3); auto x = sympt<2>("x",1); T t = vp_real("t",0,1); with_cell2(0, [&](auto& m, auto cl) { rt<2>(m, cl, k, x, t); }); }
VP_H(P19_matrix_rt3) { int k = vp_pick("degree",1,3); auto x = sympt<3>("x",1); T t = vp_real("t",0,1); with_cell3(0, [&](auto& m, auto cl) { rt<3>(m, cl, k, x, t); }); }
