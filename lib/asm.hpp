// Oracle for the assemblers: the global system is the sum of the local ones seen through the map of the unknowns.
#pragma once
#include "hho.hpp"
#include "diskpp/boundary_conditions/boundary_conditions.hpp"
namespace vp {
const long FIXED = -1;
// what every local unknown of every cell is: a global unknown or prescribed data
template<typename M> struct Assembly {
    M& m; size_t n; std::vector<std::vector<long>> idx; std::vector<Vec> d; std::vector<Mat> K; std::vector<Vec> b; Vec g, x; std::vector<std::vector<long>> fidx;
    Assembly(M& m_, size_t n_) : m(m_), n(n_), fidx(m_.faces_size()) { x = symvec("x", n, 1); g = Vec::Zero(n); }
    // a fixed generic local matrix and a symbolic right-hand side
    Mat matrix(size_t c, size_t r, size_t s) const { Mat A(r, s); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < s; j++) A(i,j) = 0.5*std::cos(1.3*i + 2.7*j + 0.3*i*j + 5*c) + (i == j); return A; }
    Vec vector(const char* nm, size_t r) const { return symvec(nm, r); }
    // take(cell number, cell, global vector) -> local vector of nc + faces unknowns; fixed(face, i): prescribed; data(face, i): its value
    template<typename Take, typename NF, typename Fix, typename Data> void locate(size_t nc, Take take, NF nf, Fix fixed, Data data) {
        Vec magic(n); for (size_t i = 0; i < n; i++) magic(i) = 1000000.0 + i;
        std::vector<int> hit(n, 0); size_t c = 0;
        for (auto& cl : m) { Vec a = take(c, cl, magic), s = take(c, cl, x); auto ids = faces_id(m, cl); size_t tot = nc; for (auto f : ids) tot += nf(f); vp_check(size_t(a.size()) == tot && size_t(s.size()) == tot, "number of local unknowns");
            std::vector<long> ix(tot, FIXED); Vec dd = Vec::Zero(tot); size_t l = 0;
            auto free = [&](size_t l) { long i = std::lround(a(l) - 1000000.0); vp_check(i >= 0 && i < long(n), "a free unknown is an unknown of the system"); vp_close(s(l), x(i), 1e-12, "local unknowns are the global ones"); ix[l] = i; };
            for (; l < nc; l++) { free(l); vp_check(hit[ix[l]]++ == 0, "unknowns of the cells are numbered once"); }
            for (auto f : ids) { std::vector<long> here; for (size_t i = 0; i < nf(f); i++, l++) { if (fixed(f, i)) { dd(l) = data(f, i); vp_close(s(l), dd(l), 1e-8, "prescribed unknowns have the prescribed values"); } else free(l); here.push_back(ix[l]); }
                if (fidx[f].empty()) { fidx[f] = here; for (auto i : here) if (i != FIXED) vp_check(hit[i]++ == 0, "unknowns of the faces are numbered once"); } else vp_check(fidx[f] == here, "both sides of a face use the same unknowns"); }
            idx.push_back(ix); d.push_back(dd); c++; }
        for (auto h : hit) vp_check(h == 1, "every unknown of the system is used");
    }
    // residual of the local systems
    void add(size_t c, const Mat& A, const Vec& r) { Vec u(A.cols()); for (int j = 0; j < A.cols(); j++) u(j) = idx[c][j] == FIXED ? d[c](j) : x(idx[c][j]); Vec y = mul(A, u); for (int i = 0; i < A.rows(); i++) if (idx[c][i] != FIXED) g(idx[c][i]) += y(i) - (i < r.size() ? r(i) : T(0)); }
    template<typename L> void verify(const L& LHS, const Vec& RHS, const char* label) const {
        vp_check(size_t(LHS.rows()) == n && size_t(LHS.cols()) == n && size_t(RHS.size()) == n, "size of the system"); Vec r(n); for (size_t i = 0; i < n; i++) r(i) = -RHS(i);
        for (int k = 0; k < LHS.outerSize(); k++) for (typename L::InnerIterator it(LHS, k); it; ++it) r(it.row()) += it.value()*x(it.col());
        for (size_t i = 0; i < n; i++) vp_close(r(i), g(i), 1e-7, label);
    }
};
// an affine function with symbolic coefficients
template<size_t D> struct AffS { T a = 0, b[3] = {0,0,0}; void sym(const char* n) { a = vp_real(n, -1, 1); for (size_t i = 0; i < D; i++) b[i] = vp_real(n, -1, 1); } T operator()(const disk::point<T,D>& p) const { T r = a; for (size_t i = 0; i < D; i++) r += b[i]*p.at(i); return r; } };
template<size_t D> struct AffV { AffS<D> c[3]; void sym(const char* n) { for (size_t i = 0; i < D; i++) c[i].sym(n); } disk::static_vector<T,D> operator()(const disk::point<T,D>& p) const { disk::static_vector<T,D> r; for (size_t i = 0; i < D; i++) r(i) = c[i](p); return r; } };
// moments of a function against the face basis, and its projection (one component); the basis is that of P16
template<typename M> Vec face_moments(const M& m, size_t f, size_t deg, const AffS<M::dimension>& g) { auto fc = *std::next(m.faces_begin(), f); auto b = disk::make_scalar_monomial_basis(m, fc, deg); Vec r = Vec::Zero(b.size()); for (auto& q : disk::integrate(m, fc, deg+1)) { Vec e = b.eval_functions(q.point()); for (int i = 0; i < e.size(); i++) r(i) += q.weight()*e(i)*g(q.point()); } return r; }
template<typename M> Mat face_mass(const M& m, size_t f, size_t deg) { auto fc = *std::next(m.faces_begin(), f); auto b = disk::make_scalar_monomial_basis(m, fc, deg); Mat r = Mat::Zero(b.size(), b.size()); for (auto& q : disk::integrate(m, fc, 2*deg)) { Vec e = b.eval_functions(q.point()); r += q.weight()*e*e.transpose(); } return r; }
// solution of a small concrete system with any right-hand side
inline Vec solve(Mat A, Vec b) { int n = A.rows(); for (int k = 0; k < n; k++) { for (int i = k+1; i < n; i++) { T f = A(i,k)/A(k,k); for (int j = k; j < n; j++) A(i,j) -= f*A(k,j); b(i) -= f*b(k); } } for (int k = n-1; k >= 0; k--) { for (int j = k+1; j < n; j++) b(k) -= A(k,j)*b(j); b(k) /= A(k,k); } return b; }
template<typename M> Vec face_projection(const M& m, size_t f, size_t deg, const AffS<M::dimension>& g) { return solve(face_mass(m, f, deg), face_moments(m, f, deg, g)); }
template<typename M> bool on_boundary(const M& m, size_t f) { return m.backend_storage()->boundary_info[f].is_boundary(); }
template<typename M> size_t boundary_number(const M& m, size_t f) { return m.backend_storage()->boundary_info[f].id(); }
}
