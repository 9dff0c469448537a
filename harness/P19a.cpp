//@bound one fixed cell of every kind in 2D and 3D and all its faces; vector bases of degree 0..3 (2D) and 0..2 (3D), Raviart-Thomas degree 1..3 on a triangle and a tetrahedron, tangential and Nedelec face bases of degree 0..2 and 1..3, matrix bases of degree 0..2 (2D) and 0..1 (3D); evaluation points anywhere in a box; projected fields are polynomials with symbolic coefficients
//@assume the 3D eval_curls marked deprecated in the source is left out; eval_curls2 is what the 3D curl means here. The 2D curl of (u,v) is du/dy - dv/dx, the sign the code uses everywhere
//@link jb
//@link triangle
#include "meshes.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace vp;
typedef Eigen::Matrix<T,-1,1> Vec; typedef Eigen::Matrix<T,-1,-1> Mat;
template<size_t D> static size_t ns(int k) { return D == 2 ? (k+1)*(k+2)/2 : (k+1)*(k+2)*(k+3)/6; }
template<size_t D, typename B> static void vec_calculus(const B& b, const disk::point<T,D>& x, int d) {
    vp_check(b.size() == D*ns<D>(d), "dimension"); vp_check(b.degree() == size_t(d), "degree");
    auto f = b.eval_functions(x); auto g = b.eval_gradients(x); auto s = b.eval_sgradients(x); auto dv = b.eval_divergences(x);
    vp_check(f.rows() == b.size() && g.size() == b.size() && s.size() == b.size() && dv.size() == b.size(), "number of functions");
    std::vector<Mat> dd; for (size_t a = 0; a < D; a++) dd.push_back(deriv(x, a, d, [&](const disk::point<T,D>& q) { Mat r = b.eval_functions(q); return r; }));
    for (size_t i = 0; i < b.size(); i++) { T tr = 0; for (size_t a = 0; a < D; a++) { tr += dd[a](i,a); for (size_t c = 0; c < D; c++) { vp_close(g[i](c,a), dd[a](i,c), 1e-8, "gradients"); vp_close(s[i](c,a), (dd[a](i,c)+dd[c](i,a))/2, 1e-8, "symmetric gradients"); } } vp_close(dv(i), tr, 1e-8, "divergences"); }
    if constexpr (D == 2) { auto c = b.eval_curls(x); vp_check(c.size() == b.size(), "number of curls"); for (size_t i = 0; i < b.size(); i++) vp_close(c(i), dd[1](i,0)-dd[0](i,1), 1e-8, "2D curls"); }
    else { auto c = b.eval_curls2(x); for (size_t i = 0; i < b.size(); i++) for (int a = 0; a < 3; a++) vp_close(c(i,a), dd[(a+1)%3](i,(a+2)%3)-dd[(a+2)%3](i,(a+1)%3), 1e-8, "3D curls"); }
}
VP_H(P19_calculus2) { int k = vp_pick("cell",0,3), d = vp_pick("degree",0,3); bool in = vp_bool("inertia"); auto x = sympt<2>("x",1); with_cell2(k, [&](auto& m, auto cl) { vec_calculus<2>(disk::make_vector_monomial_basis(m, cl, d, in), x, d); }); }
VP_H(P19_calculus3) { int k = vp_pick("cell",0,2), d = vp_pick("degree",0,2); bool in = vp_bool("inertia"); auto x = sympt<3>("x",1); with_cell3(k, [&](auto& m, auto cl) { vec_calculus<3>(disk::make_vector_monomial_basis(m, cl, d, in), x, d); }); }
VP_H(P19_project2) { int k = vp_pick("cell",0,3), d = vp_pick("degree",0,3); Pol2 u("u", d), v("v", d); auto x = sympt<2>("x",1); T t = vp_real("t",0,1); with_cell2(k, [&](auto& m, auto cl) { auto F = [&](const P2& p) { Eigen::Matrix<T,2,1> r; r << u(p), v(p); return r; };
    auto b = disk::make_vector_monomial_basis(m, cl, d); Vec c = disk::project_function(m, cl, size_t(d), F); auto q = disk::eval(c, b.eval_functions(x)); vp_close(q(0), u(x), 1e-6, "projection of vector polynomials"); vp_close(q(1), v(x), 1e-6, "projection of vector polynomials");
    for (auto& fc : faces(m, cl)) { auto p = points(m, fc); auto y = p[0] + t*(p[1]-p[0]); auto fb = disk::make_vector_monomial_basis(m, fc, d); vp_check(fb.size() == size_t(2*(d+1)), "face dimension"); Vec e = disk::project_function(m, fc, fb, F); auto w = disk::eval(e, fb.eval_functions(y)); vp_close(w(0), u(y), 1e-6, "projection on edges"); vp_close(w(1), v(y), 1e-6, "projection on edges"); } }); }
VP_H(P19_project3) { int k = vp_pick("cell",0,2), d = vp_pick("degree",0,1); Pol3 u("u", d), v("v", d), z("z", d); auto x = sympt<3>("x",1); T t = vp_real("t",0,1), s = vp_real("s",0,1); with_cell3(k, [&](auto& m, auto cl) { auto F = [&](const P3& p) { Eigen::Matrix<T,3,1> r; r << u(p), v(p), z(p); return r; };
    auto b = disk::make_vector_monomial_basis(m, cl, d); Vec c = disk::project_function(m, cl, size_t(d), F); auto q = disk::eval(c, b.eval_functions(x)); auto o = F(x); for (int a = 0; a < 3; a++) vp_close(q(a), o(a), 1e-6, "projection of vector polynomials");
    for (auto& fc : faces(m, cl)) { auto p = points(m, fc); auto y = p[0] + t*(p[1]-p[0]) + s*(p[2]-p[0]); auto fb = disk::make_vector_monomial_basis(m, fc, d); vp_check(fb.size() == size_t(3*(d+1)*(d+2)/2), "face dimension"); Vec e = disk::project_function(m, fc, fb, F); auto w = disk::eval(e, fb.eval_functions(y)); auto oy = F(y); for (int a = 0; a < 3; a++) vp_close(w(a), oy(a), 1e-6, "projection on faces"); } }); }
// the gradient projection finds a field from its gradient up to a constant
VP_H(P19_project_gradient) { int k = vp_pick("cell",0,3), d = vp_pick("degree",1,2); Pol2 u("u", d), v("v", d); auto x = sympt<2>("x",1); with_cell2(k, [&](auto& m, auto cl) { auto ux = u.dx(), uy = u.dy(), vx = v.dx(), vy = v.dy(); auto G = [&](const P2& p) { Eigen::Matrix<T,2,2> r; r << ux(p), uy(p), vx(p), vy(p); return r; };
    Vec c = disk::project_gradient(m, cl, size_t(d), G); auto b = disk::make_vector_monomial_basis(m, cl, d); vp_check(c.size() == b.size()-2, "size"); auto g = b.eval_gradients(x); auto w = disk::eval(c, g, 2); auto o = G(x); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vp_close(w(i,j), o(i,j), 1e-6, "gradient of the projection"); }); }
// mass and right hand side of vector bases; with a matrix weight
VP_H(P19_mass) { int k = vp_pick("cell",0,3), d = vp_pick("degree",0,2); Pol2 u("u", d), v("v", d); with_cell2(k, [&](auto& m, auto cl) { auto b = disk::make_vector_monomial_basis(m, cl, d); Mat M = disk::make_mass_matrix(m, cl, b), K = disk::make_stiffness_matrix(m, cl, b); auto F = [&](const P2& p) { Eigen::Matrix<T,2,1> r; r << u(p), v(p); return r; }; Vec c = disk::project_function(m, cl, b, F), h = disk::make_rhs(m, cl, b, F); Vec r = M*c, w = K*c; auto ux = u.dx(), uy = u.dy(), vx = v.dx(), vy = v.dy();
    for (int i = 0; i < b.size(); i++) { vp_close(r(i), h(i), 1e-7, "mass matrix is consistent with the right hand side"); T s = 0, e = 0; for (auto& q : disk::integrate(m, cl, 2*d)) { auto p = q.point(); auto g = b.eval_gradients(p); auto f = b.eval_functions(p); s += q.weight()*(f(i,0)*u(p)+f(i,1)*v(p)); e += q.weight()*(g[i](0,0)*ux(p)+g[i](0,1)*uy(p)+g[i](1,0)*vx(p)+g[i](1,1)*vy(p)); } vp_close(h(i), s, 1e-7, "right hand side"); vp_close(w(i), e, 1e-6, "stiffness"); } }); }
template<typename A> static bool independent(const A& S, T tol) { Mat A_ = S; for (int j = 0; j < A_.cols(); j++) { T n0 = A_.col(j).norm(); for (int q = 0; q < j; q++) { T n = A_.col(q).squaredNorm(); if (n > 1e-14) A_.col(j) -= (A_.col(q).dot(A_.col(j))/n) * A_.col(q); } if (!(A_.col(j).norm() > tol*n0 && n0 > 0)) return false; } return true; }
template<size_t D, typename M, typename C> static void rt(const M& m, const C& cl, int k, const disk::point<T,D>& x, T t) {
    auto b = disk::make_vector_monomial_basis_RT(m, cl, k); vp_check(b.size() == (D == 2 ? size_t(k*(k+2)) : size_t(k*(k+1)*(k+3)/2)), "Raviart-Thomas dimension"); vp_check(b.degree() == size_t(k), "degree");
    auto f = b.eval_functions(x); auto dv = b.eval_divergences(x); Vec s = Vec::Zero(b.size());
    for (size_t a = 0; a < D; a++) { Mat q = deriv(x, a, k, [&](const disk::point<T,D>& y) { Mat r = b.eval_functions(y); return r; }); s += q.col(a); }
    for (size_t i = 0; i < b.size(); i++) vp_close(dv(i), s(i), 1e-8, "divergences are those of the functions");
    // normal components on faces are polynomials of degree k-1: their k-th differences along any line of the face vanish
    for (auto& fc : faces(m, cl)) { auto n = normal(m, cl, fc); auto p = points(m, fc); for (size_t e = 1; e < p.size(); e++) { auto y = p[0] + t*(p[1]-p[0]); Vec df = Vec::Zero(b.size()); T c = 1; for (int j = 0; j <= k; j++) { Mat r = b.eval_functions(y + (j*0.5)*(p[e]-p[0])); Vec nn = r*n; df += c*nn; c = -c*(k-j)/(j+1); } for (size_t i = 0; i < b.size(); i++) vp_close(df(i), 0, 1e-8, "normal components have degree k-1 on the faces"); } }
    Mat S(40*D, b.size()); for (int i = 0; i < 40; i++) { disk::point<T,D> y; for (size_t a = 0; a < D; a++) y[a] = std::fmod(0.5+0.618*(i+1)*(a+1)+0.21*a*i, 1.0); Mat r = b.eval_functions(y); for (size_t a = 0; a < D; a++) S.row(i*D+a) = r.col(a).transpose(); } vp_check(independent(S, 1e-6), "the functions are independent");
}
VP_H(P19_rt2) { int k = vp_pick("degree",1,3); auto x = sympt<2>("x",1); T t = vp_real("t",0,1); with_cell2(0, [&](auto& m, auto cl) { rt<2>(m, cl, k, x, t); }); bool th = false; disk::simplicial_mesh<T,2> m; build_tri(m, {V2(0,0),V2(1,0),V2(0,1)}, {{0,1,2}}); try { disk::make_vector_monomial_basis_RT(m, *m.cells_begin(), 0); } catch (const std::invalid_argument&) { th = true; } vp_check(th, "degree 0 is refused"); }
VP_H(P19_rt3) { int k = vp_pick("degree",1,3); auto x = sympt<3>("x",1); T t = vp_real("t",0,1); with_cell3(0, [&](auto& m, auto cl) { rt<3>(m, cl, k, x, t); }); }
VP_H(P19_tangential) { int k = vp_pick("cell",0,2), d = vp_pick("degree",0,2); Pol2 u("u", d), v("v", d); T t = vp_real("t",0,1), s = vp_real("s",0,1); with_cell3(k, [&](auto& m, auto cl) { for (auto& fc : faces(m, cl)) { auto b = disk::make_vector_monomial_tangential_basis(m, fc, d); vp_check(b.size() == size_t((d+1)*(d+2)), "tangential dimension"); auto n = normal(m, fc); auto p = points(m, fc); auto e = (p[1]-p[0]).to_vector(), g = (p[2]-p[0]).to_vector(); auto y = p[0] + t*(p[1]-p[0]) + s*(p[2]-p[0]); Mat f = b.eval_functions(y); Vec fn = f*n; for (int i = 0; i < fn.size(); i++) vp_close(fn(i), 0, 1e-10, "tangential functions have no normal component");
    Eigen::Matrix<T,2,3> E; E.row(0) = e.transpose(); E.row(1) = g.transpose(); Eigen::Matrix<T,2,2> G = (E*E.transpose()).inverse(); auto loc = [&](const P3& q) { Eigen::Matrix<T,3,1> w = (q - p[0]).to_vector(); Eigen::Matrix<T,2,1> c = G*(E*w); return P2(c(0), c(1)); };
    auto F = [&](const P3& q) { auto c = loc(q); Eigen::Matrix<T,3,1> r = e*u(c) + g*v(c); return r; }; Vec c = disk::project_function(m, fc, b, F); auto w = disk::eval(c, b.eval_functions(y)); auto o = F(y); for (int a = 0; a < 3; a++) vp_close(w(a), o(a), 1e-6, "projection of tangential polynomials"); } }); }
VP_H(P19_nedelec) { int k = vp_pick("cell",0,2), d = vp_pick("degree",1,3); T t = vp_real("t",0,1), s = vp_real("s",0,1); with_cell3(k, [&](auto& m, auto cl) { for (auto& fc : faces(m, cl)) { auto b = disk::make_vector_monomial_nedelec_tangential_basis(m, fc, d); vp_check(b.size() == size_t(d*(d+1)+d+2) && disk::nedelec_tangential_basis_size(d) == b.size(), "Nedelec dimension"); auto n = normal(m, fc); auto p = points(m, fc); auto y = p[0] + t*(p[1]-p[0]) + s*(p[2]-p[0]); Mat f = b.eval_functions(y); Vec fn = f*n; for (int i = 0; i < fn.size(); i++) vp_close(fn(i), 0, 1e-10, "no normal component");
    // the functions above the full vector polynomials are gradients of homogeneous polynomials: their rotation on the face vanishes
    auto e = (p[1]-p[0]), g = (p[2]-p[0]); auto dd = [&](const P3& v) { Mat r = Mat::Zero(b.size(),3); static const T w[3][3] = {{1./2},{2./3,-1./12},{3./4,-3./20,1./60}}; for (int i = 0; i < 3; i++) { Mat a = b.eval_functions(y + (0.5*(i+1))*v), c = b.eval_functions(y - (0.5*(i+1))*v); r += (a-c)*(w[2][i]/0.5); } return r; }; Mat de = dd(e), dg = dd(g); for (int i = d*(d+1); i < int(b.size()); i++) { T r = 0; for (int a = 0; a < 3; a++) r += de(i,a)*g[a] - dg(i,a)*e[a]; vp_close(r, 0, 1e-8, "gradient part has no rotation"); }
    Mat S(60, b.size()); for (int i = 0; i < 20; i++) { T a1 = std::fmod(0.618*(i+1), 1.0), a2 = std::fmod(0.37*(i+1), 1.0); Mat r = b.eval_functions(p[0] + a1*e + a2*g); for (int a = 0; a < 3; a++) S.row(3*i+a) = r.col(a).transpose(); } vp_check(independent(S, 1e-6), "the functions are independent"); } }); }
