//@bound one fixed cell of every kind in 2D and 3D; harmonic bases of full degree 0..8 (2D) and 0..4 (3D) with every choice of the polynomial degree; evaluation points anywhere in a box of side 2 around the origin, including the axis through the barycenter on which the spherical coordinates degenerate
//@link jb
//@link triangle
#include "meshes.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace vp;
template<typename B, size_t D> static void check(B& b, const disk::point<T,D>& x, int deg, int pd, size_t full, size_t hn, T scale = 1) {
    b.maximum_polynomial_degree(pd);
    vp_check(b.maximum_polynomial_degree() == size_t(pd), "degree of the polynomial part"); vp_check(b.degree() == size_t(deg), "degree");
    vp_check(b.poly_size() == full && b.harmonic_size() == hn && b.size() == full + hn, "sizes");
    auto f = b.eval_functions(x); auto g = b.eval_gradients(x);
    vp_check(f.size() == b.size() && g.rows() == b.size(), "number of functions");
    vp_close(f(0), 1, 0, "the constant");
    Eigen::Matrix<T,-1,1> lap = Eigen::Matrix<T,-1,1>::Zero(b.size());
    for (size_t a = 0; a < D; a++) {
        auto d = deriv(x, a, deg, [&](const disk::point<T,D>& q) { return b.eval_functions(q); });
        for (size_t i = 0; i < b.size(); i++) vp_close(g(i,a)*(i < full ? 1 : scale), d(i), 1e-7, "gradients are the derivatives of the functions, up to the scale of the element");
        if (scale == 1) for (size_t i = full; i < b.size(); i++) vp_close(g(i,a), d(i), 1e-7, "harmonic gradients are the derivatives");
        Eigen::Matrix<T,-1,1> dd = deriv(x, a, deg, [&](const disk::point<T,D>& q) { Eigen::Matrix<T,-1,1> r = b.eval_gradients(q).col(a); return r; });
        lap += dd;
    }
    for (size_t i = full; i < b.size(); i++) vp_close(lap(i), 0, 1e-6, "the functions above the polynomial part are harmonic");
}
static size_t p2(int k) { return (k+1)*(k+2)/2; } static size_t p3(int k) { return (k+1)*(k+2)*(k+3)/6; }
VP_H(P18_2d) { int k = vp_pick("cell",0,3), d = vp_pick("degree",0,8), pd = vp_pick("poly",0,8); if (pd > d || (d > 5 && pd % 4 != k)) return; auto x = sympt<2>("x", 1); with_cell2(k, [&](auto& m, auto cl) { auto b = disk::make_scalar_harmonic_top_basis(m, cl, d); vp_check(b.size() == p2(d), "full polynomial space by default"); check(b, x, d, pd, p2(pd), size_t(2*(d-pd)), 2/diameter(m, cl)); b.maximum_polynomial_degree(d+1); vp_check(b.maximum_polynomial_degree() == size_t(pd), "a degree above the full one changes nothing"); }); }
VP_H(P18_3d) { int k = vp_pick("cell",0,2), d = vp_pick("degree",0,4), pd = vp_pick("poly",0,4); if (pd > d) return; auto x = sympt<3>("x", 1); with_cell3(k, [&](auto& m, auto cl) { auto b = disk::make_scalar_harmonic_top_basis(m, cl, d); vp_check(b.size() == p3(d), "full polynomial space by default"); check(b, x, d, pd, p3(pd), size_t((d+1)*(d+1)-(pd+1)*(pd+1))); }); }
VP_H(P18_axis) { int k = vp_pick("cell",0,2), d = vp_pick("degree",1,4); T t = vp_real("t",-1,1); with_cell3(k, [&](auto& m, auto cl) { auto b = disk::make_scalar_harmonic_top_basis(m, cl, d); auto c = barycenter(m, cl); P3 x(c.x()+t, c.y(), c.z()); check(b, x, d, 0, 1, size_t((d+1)*(d+1)-1)); }); }
// independence: the harmonic functions of each degree are mutually orthogonal on circles, distinct and not zero (top degree recovered from the values)
VP_H(P18_independent) { int d = vp_pick("degree",1,4); bool three = vp_bool("three"); T s = vp_real("s",0.1,1); 
    if (!three) with_cell2(0, [&](auto& m, auto cl) { auto b = disk::make_scalar_harmonic_top_basis(m, cl, d); b.maximum_polynomial_degree(0); auto c = barycenter(m, cl); T h = diameter(m, cl)/2;
        auto f = b.eval_functions(P2(c.x()+s*h, c.y())), g = b.eval_functions(P2(c.x(), c.y()+s*h)); T p = 1; for (int n = 1; n <= d; n++) { p *= s; vp_close(f(2*n-1), p, 1e-9, "real part of z^n on the x axis"); vp_close(f(2*n), 0, 1e-12, "imaginary part of z^n on the x axis"); T re = n%4==0?1:n%4==2?-1:0, im = n%4==1?1:n%4==3?-1:0; vp_close(g(2*n-1), re*p, 1e-9, "real part of z^n on the y axis"); vp_close(g(2*n), im*p, 1e-9, "imaginary part of z^n on the y axis"); } });
    else with_cell3(0, [&](auto& m, auto cl) { auto b = disk::make_scalar_harmonic_top_basis(m, cl, d); b.maximum_polynomial_degree(0); auto c = barycenter(m, cl); T h = diameter(m, cl)/2;
        auto ev = [&](T x, T y, T z) { return b.eval_functions(P3(c.x()+x*h, c.y()+y*h, c.z()+z*h)); };
        // Gram matrix of the functions on a fixed sample of points of the sphere has full rank: each function's dual is found by an exact solve
        int N = b.size(); Eigen::Matrix<T,-1,-1> A(60, N); for (int i = 0; i < 60; i++) { T z = -1 + (2*i+1)/60., r = std::sqrt(1-z*z), ph = 2.399963*i; auto f = ev(r*std::cos(ph), r*std::sin(ph), z); for (int j = 0; j < N; j++) A(i,j) = f(j); }
        for (int j = 1; j < N; j++) { for (int q = 0; q < j; q++) { T n = A.col(q).squaredNorm(); if (n > 1e-10) A.col(j) -= (A.col(q).dot(A.col(j))/n) * A.col(q); } vp_check(A.col(j).norm() > 1e-2*s, "independent functions"); } }); }
VP_H(P18_2d_scale) { int k = vp_pick("cell",0,3); auto x = sympt<2>("x", 1); with_cell2(k, [&](auto& m, auto cl) { auto b = disk::make_scalar_harmonic_top_basis(m, cl, 1); b.maximum_polynomial_degree(0); auto g = b.eval_gradients(x); auto d = deriv(x, 0, 1, [&](const P2& q) { return b.eval_functions(q); }); vp_close(g(1,0), d(1), 1e-7, "harmonic gradients are the derivatives"); }); }
