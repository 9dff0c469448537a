// Helpers for the harnesses about the HHO operators.
#pragma once
#include "meshes.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/quadratures/quadratures.hpp"
#include "diskpp/methods/hho"
namespace vp {
typedef Eigen::Matrix<T,-1,1> Vec; typedef Eigen::Matrix<T,-1,-1> Mat;
inline Vec symvec(const char* n, size_t k, T r = 1) { Vec v(k); for (size_t i = 0; i < k; i++) v(i) = vp_real(n, -r, r); return v; }
inline Mat symmat(const char* n, size_t k, size_t l, T r = 1) { Mat v(k,l); for (size_t i = 0; i < k; i++) for (size_t j = 0; j < l; j++) v(i,j) = vp_real(n, -r, r); return v; }
// dot product that skips nothing and keeps the order fixed
inline T dot(const Vec& a, const Vec& b) { T s = 0; for (int i = 0; i < a.size(); i++) s += a(i)*b(i); return s; }
inline Vec mul(const Mat& A, const Vec& x) { Vec r(A.rows()); for (int i = 0; i < A.rows(); i++) { T s = 0; for (int j = 0; j < A.cols(); j++) s += A(i,j)*x(j); r(i) = s; } return r; }
inline T quad(const Vec& x, const Mat& A, const Vec& y) { return dot(x, mul(A, y)); }
inline Pol2 poly(const char* n, int d, const P2&) { return Pol2(n, d); }
inline Pol3 poly(const char* n, int d, const P3&) { return Pol3(n, d); }
inline Pol2 diff(const Pol2& p, int a) { return a ? p.dy() : p.dx(); }
inline Pol3 diff(const Pol3& p, int a) { return p.diff(a); }
template<typename M> size_t sdim(size_t d) { return disk::scalar_basis_size(d, M::dimension); }
template<typename M> size_t fdim(size_t d) { return disk::scalar_basis_size(d, M::dimension-1); }
// the cell and face parts of a vector of scalar HHO unknowns, as functions
template<typename M, typename C> struct ScalarDofs {
    const M& m; const C& cl; size_t cd, fd; Vec u;
    ScalarDofs(const M& m_, const C& c_, size_t cd_, size_t fd_, const Vec& u_) : m(m_), cl(c_), cd(cd_), fd(fd_), u(u_) {}
    template<typename P> T cell(const P& x) const { auto b = disk::make_scalar_monomial_basis(m, cl, cd); return dot(Vec(b.eval_functions(x)), Vec(u.head(b.size()))); }
    template<typename P> T face(size_t i, const P& x) const { auto fc = faces(m, cl)[i]; auto b = disk::make_scalar_monomial_basis(m, fc, fd); return dot(Vec(b.eval_functions(x)), Vec(u.segment(sdim<M>(cd) + i*b.size(), b.size()))); }
};
// positive semidefinite up to tol: A + tol*I has a Cholesky factor
inline bool is_psd(const Mat& A, T tol) { int n = A.rows(); Mat L = A; for (int i = 0; i < n; i++) L(i,i) += tol; for (int k = 0; k < n; k++) { if (!(L(k,k) > 0)) return false; for (int i = k+1; i < n; i++) { T f = L(i,k)/L(k,k); for (int j = k; j < n; j++) L(i,j) -= f*L(k,j); } } return true; }
inline void close_mat(const Mat& A, const Mat& B, T tol, const char* l) { vp_check(A.rows() == B.rows() && A.cols() == B.cols(), l); for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) vp_close(A(i,j), B(i,j), tol, l); }
// degrees: the cell degree for each choice q in 0..2 (equal, one more, one less)
inline size_t celdeg(int q, size_t fd) { return q == 0 ? fd : q == 1 ? fd+1 : fd ? fd-1 : 0; }
}
namespace vp {
template<typename M> size_t vsdim(size_t d) { return M::dimension*sdim<M>(d); }
template<typename M> size_t vfdim(size_t d) { return M::dimension*fdim<M>(d); }
template<typename M, typename C> struct VectorDofs {
    const M& m; const C& cl; size_t cd, fd; Vec u; static const size_t D = M::dimension;
    VectorDofs(const M& m_, const C& c_, size_t cd_, size_t fd_, const Vec& u_) : m(m_), cl(c_), cd(cd_), fd(fd_), u(u_) {}
    template<typename B, typename P> Vec val(const B& b, size_t o, const P& x) const { Mat e = b.eval_functions(x); Vec r = Vec::Zero(D); for (int i = 0; i < e.rows(); i++) for (size_t a = 0; a < D; a++) r(a) += u(o+i)*e(i,a); return r; }
    template<typename P> Vec cell(const P& x) const { return val(disk::make_vector_monomial_basis(m, cl, cd), 0, x); }
    template<typename P> Vec face(size_t i, const P& x) const { return val(disk::make_vector_monomial_basis(m, faces(m, cl)[i], fd), vsdim<M>(cd) + i*vfdim<M>(fd), x); }
};
// scalar unknowns seen as vectors of length one
template<typename M, typename C> struct OneDofs { ScalarDofs<M,C> s; template<typename P> Vec cell(const P& x) const { Vec r(1); r(0) = s.cell(x); return r; } template<typename P> Vec face(size_t i, const P& x) const { Vec r(1); r(0) = s.face(i, x); return r; } };
typedef std::vector<Mat, Eigen::aligned_allocator<Mat>> Mats;
inline T frob(const Mat& A, const Mat& B) { T s = 0; for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) s += A(i,j)*B(i,j); return s; }
// (G v, tau) = -(v_T, div tau) + sum_F (v_F, tau n) for every test function tau of tau(x); returns the Gram matrix of the tau
template<typename M, typename C, typename Tau, typename Dofs> Mat weak_gradient(const M& m, const C& cl, size_t deg, size_t vdeg, Tau tau, const Mat& op, const Dofs& s, const Vec& v, const char* label) {
    const size_t D = M::dimension; typedef disk::point<T,D> P; int r = op.rows(); Mat S = Mat::Zero(r, r); Vec rhs = Vec::Zero(r);
    vp_check(op.cols() == v.size(), "operator columns");
    for (auto& q : disk::integrate(m, cl, 2*deg+vdeg)) { P x = q.point(); Mats t = tau(x); vp_check(int(t.size()) == r, "operator rows"); for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) S(i,j) += q.weight()*frob(t[i], t[j]);
        int rows = t[0].rows(); Mat dv = Mat::Zero(r, rows); for (size_t a = 0; a < D; a++) dv += deriv(x, a, std::max<int>(deg,1), [&](const P& y) { Mats u = tau(y); Mat z(r, rows); for (int i = 0; i < r; i++) for (int b = 0; b < rows; b++) z(i,b) = u[i](b,a); return z; });
        Vec u = s.cell(x); for (int i = 0; i < r; i++) { T z = 0; for (int b = 0; b < rows; b++) z += dv(i,b)*u(b); rhs(i) -= q.weight()*z; } }
    auto fcs = faces(m, cl);
    for (size_t f = 0; f < fcs.size(); f++) { auto nn = normal(m, cl, fcs[f]); for (auto& q : disk::integrate(m, fcs[f], deg+vdeg+1)) { P x = q.point(); Mats t = tau(x); Vec u = s.face(f, x); for (int i = 0; i < r; i++) { T z = 0; for (int b = 0; b < t[i].rows(); b++) { T e = 0; for (size_t a = 0; a < D; a++) e += t[i](b,a)*nn(a); z += e*u(b); } rhs(i) += q.weight()*z; } } }
    Vec lhs = mul(S, mul(op, v)); for (int i = 0; i < r; i++) vp_close(lhs(i), rhs(i), 1e-6, label);
    return S;
}
inline Mats one(const Mat& A) { Mats r; for (int i = 0; i < A.rows(); i++) r.push_back(A.row(i)); return r; }
template<typename L> Mats list(const L& l) { Mats r; for (auto& x : l) r.push_back(x); return r; }
inline Mats tail(Mats a, size_t k) { return Mats(a.begin()+k, a.end()); }
inline Mat symm(const Mat& A) { return 0.5*(A + A.transpose()); }
}
