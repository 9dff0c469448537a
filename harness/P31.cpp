//@bound one triangle, rectangle, pentagon and quadrilateral of fixed shape, degree 1..4; every vector of unknowns, every polynomial of the degree, polynomial loads of one degree more; condensation with up to two boundary and two inner unknowns, symbolic inner block up to 1x1
//@link jb
//@link triangle
#include "hho.hpp"
#include "diskpp/methods/vem"
using namespace vp;
typedef Eigen::Matrix<T,2,1> W;
static const T S5 = 0.44721359549995793928;
static std::vector<T> nodes(size_t k) { if (k == 1) return {0,1}; if (k == 2) return {0,0.5,1}; if (k == 3) return {0,0.5-S5/2,0.5+S5/2,1}; return {0,0.17267316464601142810,0.5,0.82732683535398857190,1}; }
static T lag(const std::vector<T>& x, size_t i, T s) { T r = 1; for (size_t j = 0; j < x.size(); j++) if (j != i) r *= (s-x[j])/(x[i]-x[j]); return r; }
// vertices around the cell, in the order of the unknowns
template<typename M, typename C> static std::vector<size_t> loop(const M& m, const C& cl) { std::vector<size_t> r; for (auto& [fc, flip] : disk::faces_ccw(m, cl)) { auto q = fc.point_ids(); r.push_back(flip ? size_t(q[1]) : size_t(q[0])); } return r; }
template<typename M> static P2 at(const M& m, size_t i) { return *std::next(m.points_begin(), i); }
template<typename M, typename C> struct Cell { const M& m; const C& cl; size_t k; std::vector<size_t> v; T area; size_t nf, lb, n; Cell(const M& m, const C& cl, size_t k) : m(m), cl(cl), k(k), v(loop(m, cl)) { nf = v.size(); lb = k*(k-1)/2; n = nf*k+lb; area = 0; for (size_t i = 0; i < nf; i++) { P2 a = at(m, v[i]), b = at(m, v[(i+1)%nf]); area += (a.x()*b.y()-a.y()*b.x())/2; } if (area < 0) area = -area; }
    P2 node(size_t i, size_t j) const { P2 a = at(m, v[i]), b = at(m, v[(i+1)%nf]); T s = nodes(k)[j]; return V2(a.x()+s*(b.x()-a.x()), a.y()+s*(b.y()-a.y())); }
    // boundary integral of g(point) trace(v) weight, with its own rule
    template<typename G> T boundary(const Vec& u, G g) const { T r = 0; auto x = nodes(k); for (size_t i = 0; i < nf; i++) { P2 a = at(m, v[i]), b = at(m, v[(i+1)%nf]); T dx = b.x()-a.x(), dy = b.y()-a.y(); auto c = barycenter(m, cl); T sg = (dy*(a.x()-c.x()) - dx*(a.y()-c.y())) > 0 ? 1 : -1; for (auto& q : disk::quadrature::gauss_legendre(2*k+2, a, b)) { T l2 = dx*dx+dy*dy, s = ((q.point().x()-a.x())*dx + (q.point().y()-a.y())*dy)/l2; T tr = 0; for (size_t j = 0; j <= k; j++) tr += u((i*k+j)%(nf*k))*lag(x, j, s); T len = std::sqrt(l2); r += q.weight()*tr*g(q.point(), W(sg*dy/len, -sg*dx/len)); } } return r; }
};
// energy of m_a against the unknowns v: boundary integral of the normal derivative minus the cell integral of the Laplacian (a polynomial of the inner moments)
template<typename M, typename C> static Vec energy(const Cell<M,C>& c, const Vec& v) { auto cb = disk::make_scalar_monomial_basis(c.m, c.cl, c.k); int n = cb.size(); Vec r = Vec::Zero(n); Mat L = Mat::Zero(n, c.lb); if (c.lb) { auto lb = disk::make_scalar_monomial_basis(c.m, c.cl, c.k-2); Mat H = Mat::Zero(c.lb, c.lb); for (auto& q : disk::integrate(c.m, c.cl, 2*c.k)) { Vec f = lb.eval_functions(q.point()); Mat gl = lb.eval_gradients(q.point()), g = cb.eval_gradients(q.point()); for (int i = 0; i < int(c.lb); i++) { for (int j = 0; j < int(c.lb); j++) H(i,j) += q.weight()*f(i)*f(j); for (int j = 0; j < n; j++) L(j,i) -= q.weight()*(gl(i,0)*g(j,0)+gl(i,1)*g(j,1)); } }
        for (auto& fc : faces(c.m, c.cl)) { auto nn = normal(c.m, c.cl, fc); for (auto& q : disk::integrate(c.m, fc, 2*c.k)) { Vec f = lb.eval_functions(q.point()); Mat g = cb.eval_gradients(q.point()); for (int i = 0; i < int(c.lb); i++) for (int j = 0; j < n; j++) L(j,i) += q.weight()*f(i)*(g(j,0)*nn(0)+g(j,1)*nn(1)); } } Mat Hi = H.inverse(); Mat X = L*Hi; L = X; }
    for (int a = 0; a < n; a++) { r(a) = c.boundary(v, [&](const P2& y, const W& nn) { Mat g = cb.eval_gradients(y); return T(g(a,0)*nn(0)+g(a,1)*nn(1)); }); for (int i = 0; i < int(c.lb); i++) r(a) -= L(a,i)*c.area*v(c.nf*c.k+i); } return r; }
template<typename F> static void cells(F f) { int t = vp_pick("cell",0,3); size_t k = vp_pick("degree",1,4); with_cell2(t, [&](auto& m, auto cl) { Cell<std::decay_t<decltype(m)>, decltype(cl)> c(m, cl, k); f(m, cl, k, c); }); }
VP_H(P31_loop) { cells([&](auto& m, auto cl, size_t k, auto& c) { if (k > 1) return; auto fs = disk::faces_ccw(m, cl); size_t n = fs.size(); vp_check(n == faces(m, cl).size(), "all faces"); for (size_t i = 0; i < n; i++) { auto q = fs[i].first.point_ids(); size_t e = fs[i].second ? size_t(q[0]) : size_t(q[1]); vp_check(e == c.v[(i+1)%n], "every face ends where the next begins"); for (size_t j = 0; j < i; j++) vp_check(c.v[i] != c.v[j], "every vertex once"); } vp_close(c.area, measure(m, cl), 1e-9, "the faces enclose the cell"); }); vp_print("x", vp_real("x",0,1)); }
VP_H(P31_unknowns) { cells([&](auto& m, auto cl, size_t k, auto& c) { Mat D = disk::vem_2d::matrix_D(m, cl, k); auto cb = disk::make_scalar_monomial_basis(m, cl, k); int nb = cb.size(); vp_check(size_t(D.rows()) == c.n && D.cols() == nb, "size"); Vec p = symvec("p", nb); Vec d = mul(D, p); auto ev = [&](const P2& y) { return T(cb.eval_functions(y).dot(p)); }; for (size_t i = 0; i < c.nf; i++) for (size_t j = 0; j < k; j++) vp_close(d(i*k+j), ev(c.node(i,j)), 1e-9, "boundary unknowns are values at the nodes"); if (c.lb) { auto lb = disk::make_scalar_monomial_basis(m, cl, k-2); Vec s = Vec::Zero(c.lb); for (auto& q : disk::integrate(m, cl, 2*k)) { Vec f = lb.eval_functions(q.point()); T e = ev(q.point()); for (int i = 0; i < int(c.lb); i++) s(i) += q.weight()*f(i)*e/c.area; } for (int i = 0; i < int(c.lb); i++) vp_close(d(c.nf*k+i), s(i), 1e-9, "inner unknowns are mean moments"); } }); }
VP_H(P31_nabla) { cells([&](auto& m, auto cl, size_t k, auto& c) { auto cb = disk::make_scalar_monomial_basis(m, cl, k); int nb = cb.size(); Mat G = disk::vem_2d::matrix_G(m, cl, k), B = disk::vem_2d::matrix_B(m, cl, k), D = disk::vem_2d::matrix_D(m, cl, k), P = disk::vem_2d::projector_nabla(m, cl, k, G); vp_check(P.rows() == nb && size_t(P.cols()) == c.n, "size"); Vec v = symvec("v", c.n), a = mul(P, v), e = energy(c, v), b = mul(B, v); Mat K = Mat::Zero(nb,nb); for (auto& q : disk::integrate(m, cl, 2*k)) { Mat g = cb.eval_gradients(q.point()); for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++) K(i,j) += q.weight()*(g(i,0)*g(j,0)+g(i,1)*g(j,1)); } Vec r = mul(K, a);
    for (int i = 1; i < nb; i++) { vp_close(b(i), e(i), 1e-7, "right hand side of the projector"); vp_close(r(i), e(i), 1e-7, "the projection has the energy of the unknowns against all polynomials"); }
    T u = 0, w = 0; auto ev = [&](const P2& y) { return T(cb.eval_functions(y).dot(a)); }; if (k == 1) for (size_t i = 0; i < c.nf; i++) { u += ev(c.node(i,0)); w += v(i); } else { for (auto& q : disk::integrate(m, cl, k)) u += q.weight()*ev(q.point()); w = c.area*v(c.nf*k); } vp_close(u, w, 1e-7, "the projection has the mean of the unknowns");
    Vec p = symvec("p", nb), d = mul(D, p), s = mul(P, d); for (int i = 0; i < nb; i++) vp_close(s(i), p(i), 1e-7, "polynomials are their own projection"); Mat GD = B*D; close_mat(GD, G, 1e-8, "the projector's matrix is consistent"); }); }
VP_H(P31_zero) { size_t more = vp_pick("more",0,1); cells([&](auto& m, auto cl, size_t k, auto& c) { size_t pd = k-1+more; auto cb = disk::make_scalar_monomial_basis(m, cl, k); auto pb = disk::make_scalar_monomial_basis(m, cl, pd); int nb = cb.size(), np = pb.size(); Mat G = disk::vem_2d::matrix_G(m, cl, k), D = disk::vem_2d::matrix_D(m, cl, k), P = disk::vem_2d::projector_nabla(m, cl, k, G), Z = disk::vem_2d::projector_zero(m, cl, k, pd, P); vp_check(Z.rows() == np && size_t(Z.cols()) == c.n, "size"); Vec v = symvec("v", c.n), z = mul(Z, v), a = mul(P, v); Vec mz = Vec::Zero(np), ma = Vec::Zero(np); for (auto& q : disk::integrate(m, cl, 2*k)) { Vec f = pb.eval_functions(q.point()), g = cb.eval_functions(q.point()); T zz = f.dot(z), aa = g.dot(a); for (int i = 0; i < np; i++) { mz(i) += q.weight()*f(i)*zz; ma(i) += q.weight()*f(i)*aa; } }
    for (int i = 0; i < np; i++) if (i < int(c.lb)) vp_close(mz(i), c.area*v(c.nf*k+i), 1e-7, "known moments are kept"); else vp_close(mz(i), ma(i), 1e-7, "other moments are those of the energy projection"); }); }
VP_H(P31_stiffness) { cells([&](auto& m, auto cl, size_t k, auto& c) { auto cb = disk::make_scalar_monomial_basis(m, cl, k); int nb = cb.size(); auto one = [](const P2&) { return T(1); }; Mat A = disk::vem_2d::compute_local(m, cl, k, one).first, D = disk::vem_2d::matrix_D(m, cl, k); vp_check(size_t(A.rows()) == c.n && size_t(A.cols()) == c.n, "size"); for (size_t i = 0; i < c.n; i++) for (size_t j = 0; j < i; j++) vp_close(A(i,j), A(j,i), 1e-8, "symmetric"); Vec v = symvec("v", c.n), e = energy(c, v), r = mul(A, v); for (int j = 0; j < nb; j++) { T s = 0; for (size_t i = 0; i < c.n; i++) s += D(i,j)*r(i); vp_close(s, e(j), 1e-7, "the stiffness is exact when one argument is a polynomial"); }
    Mat P = A; for (size_t i = 0; i < c.n; i++) for (size_t j = 0; j < c.n; j++) P(i,j) += D(i,0)*D(j,0); vp_check(is_psd(A, 1e-8), "positive semidefinite"); Mat Q = P - T(1e-6)*Mat::Identity(c.n, c.n); vp_check(is_psd(Q, 1e-9), "only constants have no energy"); }); }
VP_H(P31_load) { cells([&](auto& m, auto cl, size_t k, auto& c) { Pol2 f("f", k+1); auto F = [&](const P2& y) { return f(y); }; Vec b = disk::vem_2d::compute_local(m, cl, k, F).second; vp_check(size_t(b.size()) == c.n, "size"); auto pb = disk::make_scalar_monomial_basis(m, cl, k-1); int np = pb.size(); Mat G = disk::vem_2d::matrix_G(m, cl, k), P = disk::vem_2d::projector_nabla(m, cl, k, G), Z = disk::vem_2d::projector_zero(m, cl, k, k-1, P); Vec s = Vec::Zero(np); for (auto& q : disk::integrate(m, cl, 2*k+2)) { Vec e = pb.eval_functions(q.point()); T w = f(q.point()); for (int i = 0; i < np; i++) s(i) += q.weight()*w*e(i); } for (size_t j = 0; j < c.n; j++) { T r = 0; for (int i = 0; i < np; i++) r += Z(i,j)*s(i); vp_close(b(j), r, 1e-7, "the load is tested with the projection of the unknowns"); } }); }
// numbering
static void mapper(int t, size_t k, size_t k0) { with_mesh2(t, [&](auto& m) { disk::dof_mapper<std::decay_t<decltype(m)>> d(m, k0); if (k != k0) d.recompute(m, k); size_t np = m.points_size(), nf = 0; std::vector<char> used(np + (k-1)*m.faces_size(), 0); for (auto& fc : faces(m)) { auto q = fc.point_ids(); auto g = d.face_to_global(nf); vp_check(g.size() == k+1 && g[0] == size_t(q[0]) && g[k] == size_t(q[1]), "faces begin and end with their vertices"); for (size_t i = 1; i < k && i < g.size(); i++) { vp_check(g[i] >= np && g[i] < used.size(), "unknowns of a face follow those of the vertices"); vp_check(!used[g[i]], "no two faces share inner unknowns"); used[g[i]] = 1; } bool bnd = m.is_boundary(fc); vp_check(bnd == (d.bnd_to_global(nf).size() != 0), "boundary unknowns are those of boundary faces"); nf++; }
    size_t ci = 0; for (auto& cl : m) { auto g = d.cell_to_global(ci); auto fs = disk::faces_ccw(m, cl); vp_check(g.size() == fs.size()*k, "unknowns of a cell"); size_t i = 0; for (auto& [fc, flip] : fs) { auto l = d.face_to_global(m.lookup(fc)); if (flip) std::reverse(l.begin(), l.end()); for (size_t j = 0; j <= k; j++) vp_check(g[(i*k+j)%g.size()] == l[j], "the unknowns of a cell are those of its faces in order"); if (m.is_boundary(fc)) { auto b = d.bnd_to_global(m.lookup(fc)); vp_check(b == l, "boundary unknowns in the order of the cell"); } i++; } ci++; } }); }
VP_H(P31_numbers) { mapper(vp_pick("mesh",0,3), vp_pick("degree",1,4), vp_pick("before",1,4)); vp_print("x", vp_real("x",0,1)); }
VP_H(P31_degree_zero) { with_mesh2(vp_pick("mesh",0,3), [&](auto& m) { bool t = false; try { disk::dof_mapper<std::decay_t<decltype(m)>> d(m, 0); } catch (std::invalid_argument&) { t = true; } vp_check(t, "degree 0 is refused"); }); vp_print("x", vp_real("x",0,1)); }
VP_H(P31_condense) { int nF = vp_pick("boundary",1,2), nT = vp_pick("inner",1,2); Mat K = symmat("K", nF+nT, nF+nT); for (int i = 0; i < nT; i++) for (int j = 0; j < nT; j++) { if (nT > 1) K(nF+i,nF+j) = i == j ? 2 + i : 0.5/(i+j); else vp_assume(K(nF,nF) > 0.25); } Vec b = symvec("b", nF+nT), uF = symvec("u", nF); disk::dynamic_matrix<T> A = K; disk::dynamic_vector<T> rb = b, ru = uF; auto [C, c] = disk::vem::schur(A, rb, size_t(nF)); disk::dynamic_vector<T> u = disk::vem::deschur<int>(A, rb, ru, size_t(nF)); vp_check(C.rows() == nF && c.size() == nF && u.size() == nF+nT, "sizes"); Vec r = mul(K, Vec(u)); for (int i = 0; i < nT; i++) vp_close(r(nF+i), b(nF+i), 1e-7, "the inner equations hold"); Mat CC = C; Vec z = mul(CC, uF); for (int i = 0; i < nF; i++) { vp_close(u(i), uF(i), 1e-12, "boundary unknowns are kept"); vp_close(r(i) - b(i), z(i) - c(i), 1e-6, "the condensed system has the residual of the boundary equations"); } }
