//@bound one fixed cell of every kind in 1D, 2D and 3D and all its faces (1D: any segment; 2D: also triangles with a symbolic vertex); scaled monomial bases of degree 0..4 (1D, 2D), 0..2 (3D) and every rescaling strategy; evaluation points anywhere in a box; projected functions are polynomials with symbolic coefficients
//@assume material tensors are symmetric
//@link jb
//@link triangle
#include "meshes.hpp"
#include "diskpp/mesh/meshgen.hpp"
#include "diskpp/quadratures/quadratures.hpp"
#include "diskpp/bases/bases_new.hpp"
#include "diskpp/bases/bases_operations.hpp"
using namespace vp;
namespace B = disk::basis;
typedef Eigen::Matrix<T,-1,1> Vec; typedef Eigen::Matrix<T,-1,-1> Mat;
static B::rescaling_strategy strategy() { int r = vp_pick("rescaling",0,2); return r == 0 ? B::rescaling_strategy::none : r == 1 ? B::rescaling_strategy::gram_schmidt : B::rescaling_strategy::inertial; }
template<size_t D, typename Ba> static void grads(const Ba& b, const disk::point<T,D>& x, int deg) {
    Mat g = b.grad(x); vp_check(g.rows() == (long)b.size() && g.cols() == (long)D, "one gradient for every function");
    for (size_t a = 0; a < D; a++) { auto d = deriv(x, a, deg, [&](const disk::point<T,D>& q) { return b(q); }); for (size_t i = 0; i < b.size(); i++) vp_close(g(i,a), d(i), 1e-7, "gradients are the derivatives of the functions"); }
    Mat h = B::grad(b)(x); vp_check(h.rows() == g.rows() && h.cols() == g.cols(), "grad operator: size"); for (int i = 0; i < g.rows(); i++) for (int j = 0; j < g.cols(); j++) vp_close(h(i,j), g(i,j), 0, "grad operator"); }
VP_H(P20_basis1) { int d = vp_pick("degree",0,4); disk::generic_mesh<T,1> m; T a = vp_real("a",-1,1), h = vp_real("h",0.5,2); build_1d(m, {a,a+h}); P1 x(vp_real("x",-1,1)); auto b = B::scaled_monomial_basis(m, *m.cells_begin(), d); vp_check(b.size() == size_t(d+1) && b.degree() == size_t(d) && b.size_of_degree(d) == b.size(), "size and degree"); vp_close(b.scalefactor(), 2, 0, "scale"); grads<1>(b, x, d);
    auto v = b(P1(a+h)), w = b(P1(a)); for (int i = 0; i <= d; i++) { vp_close(v(i), 1, 1e-9, "one at the right end"); vp_close(w(i), i % 2 ? -1 : 1, 1e-9, "plus or minus one at the left end"); } }
VP_H(P20_scale1) { int d = vp_pick("degree",0,3); disk::generic_mesh<T,1> m; T a = vp_real("a",-1,1), s = vp_real("s",0.5,4); build_1d(m, {a,a+0.75}); P1 x(vp_real("x",-1,1)); auto b = B::scaled_monomial_basis(m, *m.cells_begin(), d); b.scalefactor(s); vp_close(b.scalefactor(), s, 0, "scale is kept"); grads<1>(b, x, d); }
VP_H(P20_project1) { int d = vp_pick("degree",0,4); Pol2 f("c", d); disk::generic_mesh<T,1> m; build_1d(m, {-0.2,0.7}); T y = vp_real("x",-1,1); auto cl = *m.cells_begin(); auto b = B::scaled_monomial_basis(m, cl, d); auto F = [&](const P1& p) { return f(P2(p.x(), 0)); }; B::L2_projector P(m, cl, b); Vec u = P(F); vp_close(B::eval(P1(y), u, b), f(P2(y,0)), 1e-6, "projection reproduces polynomials"); }
VP_H(P20_basis2) { int k = vp_pick("cell",0,3), d = vp_pick("degree",0,4); auto r = strategy(); auto x = sympt<2>("x", 1); with_cell2(k, [&](auto& m, auto cl) { auto b = B::scaled_monomial_basis(m, cl, d, r); vp_check(b.size() == size_t((d+1)*(d+2)/2) && b.degree() == size_t(d) && b.size_of_degree(d) == b.size(), "size and degree"); vp_close(b(x)(0), 1, 0, "the first function is one"); grads<2>(b, x, d); }); }
VP_H(P20_basis3) { int k = vp_pick("cell",0,2), d = vp_pick("degree",0,3); auto x = sympt<3>("x", 1); with_cell3(k, [&](auto& m, auto cl) { auto b = B::scaled_monomial_basis(m, cl, d); vp_check(b.size() == size_t((d+1)*(d+2)*(d+3)/6) && b.degree() == size_t(d) && b.size_of_degree(d) == b.size(), "size and degree"); vp_close(b(x)(0), 1, 0, "the first function is one"); grads<3>(b, x, d); }); }
VP_H(P20_sym_cell) { disk::simplicial_mesh<T,2> m; std::vector<P2> p{V2(0,0),V2(1,0.1),pt2("v",0.3,0.9,0.3)}; build_tri(m, p, {{0,1,2}}); int d = vp_pick("degree",1,2), g = vp_pick("rescaling",0,1); auto x = sympt<2>("x", 1); auto b = B::scaled_monomial_basis(m, *m.cells_begin(), d, g ? B::rescaling_strategy::gram_schmidt : B::rescaling_strategy::none); grads<2>(b, x, d); auto c = b(P2((p[0].x()+p[1].x()+p[2].x())/3,(p[0].y()+p[1].y()+p[2].y())/3)); for (size_t i = 1; i < b.size(); i++) vp_close(c(i), 0, 1e-9, "the other functions vanish at the barycenter"); }
VP_H(P20_project2) { int k = vp_pick("cell",0,3), d = vp_pick("degree",0,3); auto r = strategy(); Pol2 f("c", d); auto x = sympt<2>("x", 1); with_cell2(k, [&](auto& m, auto cl) { auto b = B::scaled_monomial_basis(m, cl, d, r); B::L2_projector P(m, cl, b); auto F = [&](const P2& p) { return f(p); }; Vec u = P(F); vp_close(B::eval(x, u, b), f(x), 1e-6, "projection reproduces polynomials"); Vec v = B::L2_project(m, cl, B::fun<decltype(b)>(F), b); vp_close(v.dot(b(x)), f(x), 1e-6, "L2_project reproduces polynomials"); }); }
VP_H(P20_project3) { int k = vp_pick("cell",0,2), d = vp_pick("degree",0,2); Pol3 f("c", d); auto x = sympt<3>("x", 1); with_cell3(k, [&](auto& m, auto cl) { auto b = B::scaled_monomial_basis(m, cl, d); B::L2_projector P(m, cl, b); Vec u = P([&](const P3& p) { return f(p); }); vp_close(B::eval(x, u, b), f(x), 1e-6, "projection reproduces polynomials"); }); }
// the projection error is orthogonal to the basis for functions beyond it, and the projection of another basis is made of the projections of its functions
VP_H(P20_orthogonal) { int k = vp_pick("cell",0,3), d = vp_pick("degree",0,2), e = vp_pick("other",0,4); auto r = strategy(); with_cell2(k, [&](auto& m, auto cl) { auto b = B::scaled_monomial_basis(m, cl, d, r); auto o = B::scaled_monomial_basis(m, cl, e); B::L2_projector P(m, cl, b); Mat A = P.basis(o); vp_check(A.rows() == (long)b.size() && A.cols() == (long)o.size(), "size of the projector"); Vec c(o.size()); for (size_t i = 0; i < o.size(); i++) c(i) = vp_real("c", -1, 1); Vec u = A*c;
    Vec s = Vec::Zero(b.size()); for (auto& q : disk::integrate(m, cl, d+e)) { auto ph = b(q.point()); s += q.weight()*(o(q.point()).dot(c) - ph.dot(u))*ph; } for (size_t i = 0; i < b.size(); i++) vp_close(s(i), 0, 1e-7, "the projection error of the other basis is orthogonal to the basis"); }); }
VP_H(P20_faces2) { int k = vp_pick("cell",0,3), d = vp_pick("degree",0,4); Pol2 f("c", d); T t = vp_real("t",0,1); with_cell2(k, [&](auto& m, auto cl) { for (auto& fc : faces(m, cl)) { auto p = points(m, fc); auto x = p[0] + t*(p[1]-p[0]); auto b = B::scaled_monomial_basis(m, fc, d); vp_check(b.size() == size_t(d+1) && b.degree() == size_t(d), "face basis size"); auto F = [&](const P2& q) { return f(q); }; B::L2_projector P(m, fc, b); Vec u = P(F); vp_close(u.dot(b(x)), f(x), 1e-6, "face projection reproduces traces of polynomials"); Vec v = B::L2_project(m, fc, B::fun<decltype(b)>(F), b); vp_close(v.dot(b(x)), f(x), 1e-6, "L2_project on faces"); } }); }
VP_H(P20_faces3) { int k = vp_pick("cell",0,2), d = vp_pick("degree",0,2); Pol3 f("c", d); T t = vp_real("t",0,1), s = vp_real("s",0,1); with_cell3(k, [&](auto& m, auto cl) { for (auto& fc : faces(m, cl)) { auto p = points(m, fc); auto e1 = p[1]-p[0], e2 = p[2]-p[0]; auto x = p[0] + t*e1 + s*e2; auto b = B::scaled_monomial_basis(m, fc, d); vp_check(b.size() == size_t((d+1)*(d+2)/2) && b.degree() == size_t(d), "face basis size"); B::L2_projector P(m, fc, b); Vec u = P([&](const P3& q) { return f(q); }); vp_close(u.dot(b(x)), f(x), 1e-6, "face projection reproduces traces of polynomials");
    // tangential derivatives
    Mat g = b.grad(x); auto dir = [&](const P3& v) { static const T w[3] = {3./4,-3./20,1./60}; Vec r = Vec::Zero(b.size()); for (int i = 0; i < 3; i++) { Vec a = b(x + (0.5*(i+1))*v), c = b(x - (0.5*(i+1))*v); r += (a-c)*(w[i]/0.5); } return r; }; Vec d1 = dir(e1), d2 = dir(e2); auto n = normal(m, fc); for (size_t i = 0; i < b.size(); i++) { vp_close(g(i,0)*e1.x()+g(i,1)*e1.y()+g(i,2)*e1.z(), d1(i), 1e-7, "tangential derivatives"); vp_close(g(i,0)*e2.x()+g(i,1)*e2.y()+g(i,2)*e2.z(), d2(i), 1e-7, "tangential derivatives"); vp_close(g(i,0)*n(0)+g(i,1)*n(1)+g(i,2)*n(2), 0, 1e-7, "gradients are tangential"); } } }); }
// integrals of basis functions, gradients, fluxes and weighted gradients
VP_H(P20_products) { int k = vp_pick("cell",0,3), d = vp_pick("degree",0,2), e = vp_pick("other",0,2); auto r = strategy(); T k11 = vp_real("k11",1,2), k12 = vp_real("k12",-0.5,0.5), k22 = vp_real("k22",1,2); with_cell2(k, [&](auto& m, auto cl) { auto b = B::scaled_monomial_basis(m, cl, d, r); auto o = B::scaled_monomial_basis(m, cl, e); Mat M = B::integrate(m, cl, b, o), G = B::integrate(m, cl, B::grad(b), B::grad(o)); Eigen::Matrix<T,2,2> K; K << k11, k12, k12, k22; auto gb = B::grad(b); auto go = B::grad(o); Mat S = B::integrate(m, cl, K*gb, go);
    B::variable_material_tensor<decltype(gb)> V = [&](P2 p) { Eigen::Matrix<T,2,2> r = K*(1+p.x()); return r; }; auto vg = V*gb; T vx = 0.3, vy = -0.2; Mat W = vg(P2(vx,vy)), Q = gb(P2(vx,vy)); for (size_t i = 0; i < b.size(); i++) { vp_close(W(i,0), (1+vx)*(k11*Q(i,0)+k12*Q(i,1)), 1e-9, "variable material"); vp_close(W(i,1), (1+vx)*(k12*Q(i,0)+k22*Q(i,1)), 1e-9, "variable material"); }
    vp_check(M.rows() == (long)o.size() && M.cols() == (long)b.size(), "rows are tests, columns are trials"); Mat m0 = Mat::Zero(o.size(), b.size()), g0 = m0, s0 = m0; for (auto& q : disk::integrate(m, cl, d+e)) { Vec x = b(q.point()), y = o(q.point()); Mat u = b.grad(q.point()), v = o.grad(q.point()); for (size_t i = 0; i < o.size(); i++) for (size_t j = 0; j < b.size(); j++) { m0(i,j) += q.weight()*y(i)*x(j); g0(i,j) += q.weight()*(v(i,0)*u(j,0)+v(i,1)*u(j,1)); s0(i,j) += q.weight()*(v(i,0)*(k11*u(j,0)+k12*u(j,1))+v(i,1)*(k12*u(j,0)+k22*u(j,1))); } }
    for (size_t i = 0; i < o.size(); i++) for (size_t j = 0; j < b.size(); j++) { vp_close(M(i,j), m0(i,j), 1e-8, "integral of the products"); vp_close(G(i,j), g0(i,j), 1e-8, "integral of the products of the gradients"); vp_close(S(i,j), s0(i,j), 1e-8, "integral with a material tensor"); }
    for (auto& fc : faces(m, cl)) { auto n = normal(m, cl, fc); auto fb = B::scaled_monomial_basis(m, fc, e); Mat F = B::integrate(m, fc, B::grad(b).dot(n), fb), H = B::integrate(m, fc, (K*gb).dot(n), fb), Z = B::integrate(m, fc, b, fb); Mat f0 = Mat::Zero(fb.size(), b.size()), h0 = f0, z0 = f0; for (auto& q : disk::integrate(m, fc, d+e)) { Vec y = fb(q.point()), x = b(q.point()); Mat u = b.grad(q.point()); for (size_t i = 0; i < fb.size(); i++) for (size_t j = 0; j < b.size(); j++) { z0(i,j) += q.weight()*y(i)*x(j); f0(i,j) += q.weight()*y(i)*(u(j,0)*n(0)+u(j,1)*n(1)); h0(i,j) += q.weight()*y(i)*((k11*u(j,0)+k12*u(j,1))*n(0)+(k12*u(j,0)+k22*u(j,1))*n(1)); } }
        for (size_t i = 0; i < fb.size(); i++) for (size_t j = 0; j < b.size(); j++) { vp_close(Z(i,j), z0(i,j), 1e-8, "traces"); vp_close(F(i,j), f0(i,j), 1e-8, "normal fluxes"); vp_close(H(i,j), h0(i,j), 1e-8, "normal fluxes with a material tensor"); } } }); }
VP_H(P20_integrals) { int k = vp_pick("cell",0,3), d = vp_pick("degree",0,3); Pol2 f("c", d); with_cell2(k, [&](auto& m, auto cl) { T a = B::integrate(m, cl, size_t(d), [&](const P2& p) { return f(p); }); T s = 0; for (auto& q : disk::integrate(m, cl, d)) s += q.weight()*f(q.point()); vp_close(a, s, 1e-9, "integral of a function"); auto b = B::scaled_monomial_basis(m, cl, d); Vec r = B::integrate(m, cl, B::fun<decltype(b)>([&](const P2& p) { return f(p); }), b); Vec h = Vec::Zero(b.size()); for (auto& q : disk::integrate(m, cl, 2*d)) h += q.weight()*f(q.point())*b(q.point()); for (size_t i = 0; i < b.size(); i++) vp_close(r(i), h(i), 1e-8, "right hand side");
    auto gb = B::grad(b); auto fx = f.dx(), fy = f.dy(); auto V = B::integrate(m, cl, B::fun<decltype(gb)>([&](const P2& p) { Eigen::Matrix<T,2,1> v; v << fx(p), fy(p); return v; }), gb); Vec g = Vec::Zero(b.size()); for (auto& q : disk::integrate(m, cl, 2*d)) { Mat u = b.grad(q.point()); for (size_t i = 0; i < b.size(); i++) g(i) += q.weight()*(u(i,0)*fx(q.point())+u(i,1)*fy(q.point())); } for (size_t i = 0; i < b.size(); i++) vp_close(V(i), g(i), 1e-8, "right hand side with gradients"); }); }
VP_H(P20_ranges) { int d = vp_pick("degree",0,4), lo = vp_pick("from",0,4), hi = vp_pick("to",0,4); if (lo > hi || hi > d) return; disk::generic_mesh<T,1> m; build_1d(m, {-0.2,0.7}); P1 x(vp_real("x",-1,1)); auto b = B::scaled_monomial_basis(m, *m.cells_begin(), d); Vec v = b(x), w = b(x, B::degs(lo, hi)), z = b(x, B::degs(lo, B::_)), g = b.grad(x), h = b.grad(x, B::degs(lo, hi)), e = B::grad(b)(x, B::degs(lo, B::_)); vp_check(w.size() == hi-lo+1 && h.size() == hi-lo+1 && z.size() == d-lo+1 && e.size() == d-lo+1, "number of functions of a range of degrees"); for (int i = 0; i <= hi-lo; i++) { vp_close(w(i), v(lo+i), 0, "functions of a range of degrees"); vp_close(h(i), g(lo+i), 0, "gradients of a range of degrees"); } for (int i = 0; i <= d-lo; i++) { vp_close(z(i), v(lo+i), 0, "functions from a degree on"); vp_close(e(i), g(lo+i), 0, "gradients from a degree on"); } }
