//@bound the Legendre polynomials of degree 0..10 and their derivatives at any point of [-1.5,1.5]; Legendre bases on fixed cells of every kind up to degree 4 (2D) and 3 (3D), any evaluation point in a box; orthonormality on rectangles, boxes and their faces
//@link jb
//@link triangle
#include "meshes.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace vp;
VP_H(P17_1d) { disk::legendre_1D<T> l(10); vp_check(l.size() == 11, "eleven functions"); T x = vp_real("x",-1.5,1.5); auto f = l.eval_functions(x), g = l.eval_gradients(x); T p0 = 0, p1 = 1, d0 = 0, d1 = 0;
    for (int n = 0; n <= 10; n++) { T s = std::sqrt(2.0/(2*n+1)); vp_close(f(n)*s, p1, 1e-8, "Legendre polynomial"); vp_close(g(n)*s, d1, 1e-8, "derivative of a Legendre polynomial"); T p2 = ((2*n+1)*x*p1 - n*p0)/(n+1), d2 = ((2*n+1)*(p1+x*d1) - n*d0)/(n+1); p0 = p1; p1 = p2; d0 = d1; d1 = d2; } }
template<typename B, size_t D> static void grads(const B& b, const disk::point<T,D>& x, int deg, const char* l) { auto g = b.eval_gradients(x); for (size_t a = 0; a < D; a++) { auto d = deriv(x, a, deg, [&](const disk::point<T,D>& q) { return b.eval_functions(q); }); for (size_t i = 0; i < b.size(); i++) vp_close(g(i,a), d(i), 1e-7, l); } }
VP_H(P17_grad2) { int k = vp_pick("cell",0,3), d = vp_pick("degree",0,4); auto x = sympt<2>("x", 1); with_cell2(k, [&](auto& m, auto cl) { auto b = disk::make_scalar_legendre_basis(m, cl, d); vp_check(b.size() == size_t((d+1)*(d+2)/2), "basis size"); grads(b, x, d, "gradients are the derivatives of the functions"); }); }
VP_H(P17_grad3) { int k = vp_pick("cell",0,2), d = vp_pick("degree",0,3); auto x = sympt<3>("x", 1); with_cell3(k, [&](auto& m, auto cl) { auto b = disk::make_scalar_legendre_basis(m, cl, d); grads(b, x, d, "gradients are the derivatives of the functions"); }); }
VP_H(P17_project2) { int k = vp_pick("cell",0,3), d = vp_pick("degree",0,4); Pol2 f("c", d); auto x = sympt<2>("x", 1); with_cell2(k, [&](auto& m, auto cl) { auto b = disk::make_scalar_legendre_basis(m, cl, d); Eigen::Matrix<T,-1,1> u = disk::project_function(m, cl, b, [&](const P2& p) { return f(p); }); vp_close(u.dot(b.eval_functions(x)), f(x), 1e-6, "the basis spans the polynomials"); for (auto& fc : faces(m, cl)) { auto p = points(m, fc); auto c = disk::make_scalar_legendre_basis(m, fc, d); Eigen::Matrix<T,-1,1> v = disk::project_function(m, fc, c, [&](const P2& q) { return f(q); }); auto y = p[0] + x.x()*(p[1]-p[0]); vp_close(v.dot(c.eval_functions(y)), f(y), 1e-6, "the face basis spans the polynomials"); } }); }
VP_H(P17_orthonormal) { int k = vp_pick("cell",0,1), d = vp_pick("degree",0,3); T t = vp_real("w",-1,1); auto chk = [&](auto& m, auto cl) { auto b = disk::make_scalar_legendre_basis(m, cl, d); auto M = disk::make_mass_matrix(m, cl, b); for (size_t i = 0; i < b.size(); i++) for (size_t j = 0; j < b.size(); j++) vp_close(t*M(i,j), i == j ? t : T(0), 1e-9, "orthonormal on rectangles and boxes"); for (auto& fc : faces(m, cl)) { auto c = disk::make_scalar_legendre_basis(m, fc, d); auto N = disk::make_mass_matrix(m, fc, c); for (size_t i = 0; i < c.size(); i++) for (size_t j = 0; j < c.size(); j++) vp_close(t*N(i,j), i == j ? t : T(0), 1e-9, "orthonormal on faces"); } }; if (k == 0) with_cell2(1, chk); else with_cell3(1, chk); }
VP_H(P17_limit) { int d = vp_pick("degree",9,20); bool r = false; T x = vp_real("x",-1,1); try { disk::legendre_1D<T> l(d); vp_close(l.eval_functions(x)(0), 1/std::sqrt(2.0), 1e-12, "first"); } catch (const std::invalid_argument&) { r = true; } vp_check(r == (d > 10), "degrees above ten are rejected"); }
