//@bound every kind of cell and face, one fixed shape each plus a triangle with a symbolic vertex; scalar monomial basis (with and without inertia axes) up to degree 4 (2D) and 3 (3D), evaluation points anywhere in a box of side 2; projections of polynomials with symbolic coefficients up to degree 4 (2D), 2 (3D)
//@link jb
//@link triangle
#include "meshes.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace vp;
template<typename B, size_t D> static void grads(const B& b, const disk::point<T,D>& x, int deg, const char* l) { auto g = b.eval_gradients(x); for (size_t a = 0; a < D; a++) { auto d = deriv(x, a, deg, [&](const disk::point<T,D>& q) { return b.eval_functions(q); }); for (size_t i = 0; i < b.size(); i++) vp_close(g(i,a), d(i), 1e-8, l); } }
VP_H(P16_grad2) { int k = vp_pick("cell",0,3), d = vp_pick("degree",0,4); bool in = vp_bool("inertia"); auto x = sympt<2>("x", 1); with_cell2(k, [&](auto& m, auto cl) { auto b = disk::make_scalar_monomial_basis(m, cl, d, in); vp_check(b.size() == size_t((d+1)*(d+2)/2), "basis size"); vp_check(b.degree() == size_t(d), "basis degree"); vp_close(b.eval_functions(x)(0), 1, 0, "first function is one"); grads(b, x, d, "gradients are the derivatives of the functions"); }); }
VP_H(P16_grad3) { int k = vp_pick("cell",0,2), d = vp_pick("degree",0,3); bool in = vp_bool("inertia"); auto x = sympt<3>("x", 1); with_cell3(k, [&](auto& m, auto cl) { auto b = disk::make_scalar_monomial_basis(m, cl, d, in); vp_check(b.size() == size_t((d+1)*(d+2)*(d+3)/6), "basis size"); vp_close(b.eval_functions(x)(0), 1, 0, "first function is one"); grads(b, x, d, "gradients are the derivatives of the functions"); }); }
VP_H(P16_grad1) { int d = vp_pick("degree",0,6); disk::generic_mesh<T,1> m; T a = vp_real("a",-1,1), h = vp_real("h",0.5,2); build_1d(m, {a,a+h}); P1 x(vp_real("x",-1,1)); auto b = disk::make_scalar_monomial_basis(m, *m.cells_begin(), d); auto g = b.eval_gradients(x); auto dd = deriv(x, 0, d, [&](const P1& q) { return b.eval_functions(q); }); for (int i = 0; i <= d; i++) vp_close(g(i), dd(i), 1e-7, "1D derivatives"); auto e = b.eval_functions(P1(a)), f = b.eval_functions(P1(a+h)); for (int i = 0; i <= d; i++) { vp_close(f(i), 1, 1e-12, "scaled to one at the right end"); vp_close(e(i), i % 2 ? -1 : 1, 1e-12, "scaled to minus one at the left end"); } auto fb = disk::make_scalar_monomial_basis(m, *m.faces_begin(), d); vp_check(fb.size() == 1, "a point has one function"); vp_close(fb.eval_functions(x)(0), 1, 0, "and it is one"); }
VP_H(P16_sym_cell) { disk::simplicial_mesh<T,2> m; std::vector<P2> p{V2(0,0),V2(1,0.1),pt2("v",0.3,0.9,0.3)}; build_tri(m, p, {{0,1,2}}); int d = vp_pick("degree",1,2); auto x = sympt<2>("x", 1); auto b = disk::make_scalar_monomial_basis(m, *m.cells_begin(), d, false); grads(b, x, d, "gradients on any triangle"); auto c = b.eval_functions(P2((p[0].x()+p[1].x()+p[2].x())/3,(p[0].y()+p[1].y()+p[2].y())/3)); for (size_t i = 1; i < b.size(); i++) vp_close(c(i), 0, 1e-12, "the other functions vanish at the barycenter"); }
VP_H(P16_project2) { int k = vp_pick("cell",0,3), d = vp_pick("degree",0,4); bool old = vp_bool("inertia"); Pol2 f("c", d); auto x = sympt<2>("x", 1); with_cell2(k, [&](auto& m, auto cl) { auto b = disk::make_scalar_monomial_basis(m, cl, d, old); Eigen::Matrix<T,-1,1> u = disk::project_function(m, cl, b, [&](const P2& p) { return f(p); }); vp_close(u.dot(b.eval_functions(x)), f(x), 1e-6, "projection reproduces polynomials"); auto q = disk::eval(u, b.eval_functions(x)); vp_close(q, f(x), 1e-6, "eval of the projection"); }); }
VP_H(P16_project3) { int k = vp_pick("cell",0,2), d = vp_pick("degree",0,2); Pol3 f("c", d); auto x = sympt<3>("x", 1); with_cell3(k, [&](auto& m, auto cl) { auto b = disk::make_scalar_monomial_basis(m, cl, d); Eigen::Matrix<T,-1,1> u = disk::project_function(m, cl, size_t(d), [&](const P3& p) { return f(p); }); vp_close(u.dot(b.eval_functions(x)), f(x), 1e-6, "projection reproduces polynomials"); }); }
VP_H(P16_faces2) { int k = vp_pick("cell",0,3), d = vp_pick("degree",0,4); Pol2 f("c", d); T t = vp_real("t",0,1); with_cell2(k, [&](auto& m, auto cl) { for (auto& fc : faces(m, cl)) { auto p = points(m, fc); auto x = p[0] + t*(p[1]-p[0]); auto b = disk::make_scalar_monomial_basis(m, fc, d); vp_check(b.size() == size_t(d+1), "face basis size"); Eigen::Matrix<T,-1,1> u = disk::project_function(m, fc, size_t(d), [&](const P2& q) { return f(q); }); vp_close(u.dot(b.eval_functions(x)), f(x), 1e-6, "face projection reproduces traces of polynomials"); } }); }
VP_H(P16_faces3) { int k = vp_pick("cell",0,2), d = vp_pick("degree",0,2); bool in = vp_bool("inertia"); Pol3 f("c", d); T t = vp_real("t",0,1), s = vp_real("s",0,1); with_cell3(k, [&](auto& m, auto cl) { for (auto& fc : faces(m, cl)) { auto p = points(m, fc); auto x = p[0] + t*(p[1]-p[0]) + s*(p[2]-p[0]); auto b = disk::make_scalar_monomial_basis(m, fc, d, in); vp_check(b.size() == size_t((d+1)*(d+2)/2), "face basis size"); Eigen::Matrix<T,-1,1> u = disk::project_function(m, fc, b, [&](const P3& q) { return f(q); }); vp_close(u.dot(b.eval_functions(x)), f(x), 1e-6, "face projection reproduces traces of polynomials"); } }); }
VP_H(P16_orthogonal) { int k = vp_pick("cell",0,3), d = vp_pick("degree",0,2); Pol2 f("c", d+2); with_cell2(k, [&](auto& m, auto cl) { auto b = disk::make_scalar_monomial_basis(m, cl, d); Eigen::Matrix<T,-1,1> u = disk::project_function(m, cl, size_t(d), [&](const P2& p) { return f(p); }, 2); std::vector<T> r(b.size(), T(0)); for (auto& q : disk::integrate(m, cl, 2*d+2)) { auto ph = b.eval_functions(q.point()); T e = f(q.point()) - u.dot(ph); for (size_t i = 0; i < b.size(); i++) r[i] += q.weight()*e*ph(i); } for (auto& z : r) vp_close(z, 0, 1e-8, "the projection error is orthogonal to the basis"); }); }
VP_H(P16_stiffness) { int k = vp_pick("cell",0,3); Pol2 f("c", 3), g("e", 3); with_cell2(k, [&](auto& m, auto cl) { auto b = disk::make_scalar_monomial_basis(m, cl, 3); auto K = disk::make_stiffness_matrix(m, cl, b); auto M = disk::make_mass_matrix(m, cl, b); Eigen::Matrix<T,-1,1> u = disk::project_function(m, cl, size_t(3), [&](const P2& p) { return f(p); }), v = disk::project_function(m, cl, size_t(3), [&](const P2& p) { return g(p); }); auto pp = points(m, cl); std::vector<P2> l(pp.begin(), pp.end()); if (k == 1) std::swap(l[2], l[3]); T s = 0, z = 0; auto fx = f.dx(), fy = f.dy(); auto gx = g.dx(), gy = g.dy(); for (auto& q : disk::integrate(m, cl, 6)) { auto p = q.point(); s += q.weight()*(fx(p)*gx(p)+fy(p)*gy(p)); z += q.weight()*f(p)*g(p); } 
    T a = 0, c = 0; for (int i = 0; i < u.size(); i++) for (int j = 0; j < v.size(); j++) { a += K(i,j)*u(i)*v(j); c += M(i,j)*u(i)*v(j); } vp_close(a, s, 1e-5, "stiffness matrix is the integral of grad.grad"); vp_close(c, z, 1e-5, "mass matrix is the integral of the product"); }); }
