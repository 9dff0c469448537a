//@bound every triangle with vertices within 0.3 of a reference triangle of either orientation (and with a hundredth of its size); every evaluation point in a box; every symmetric or nonsymmetric material matrix; right-hand sides affine
//@link triangle
#include "meshes.hpp"
#include "diskpp/cfem/cfem.hpp"
using namespace vp; namespace C = disk::cfem;
typedef disk::simplicial_mesh<T,2> M;
struct Tri { M m; std::array<P2,3> p; T s; };
static void tri(Tri& t, bool both = true) { bool flip = vp_bool("flip"), one = both && vp_bool("sym"); t.s = vp_bool("small") ? 0.0078125 : 1.; P2 a = V2(0,0), b = one ? pt2("b", 1, 0.125, 0.1875) : V2(1,0.125), c = pt2("c", 0.25, 0.875, 0.3125); auto sc = [&](P2 q) { return V2(t.s*q.x(), t.s*q.y()); }; std::vector<P2> v{sc(a), sc(b), sc(c)}; if (flip) std::swap(v[1], v[2]); build_tri(t.m, v, {{0,1,2}}); auto q = points(t.m, *t.m.cells_begin()); for (int i = 0; i < 3; i++) t.p[i] = q[i]; }
static T area2(const std::array<P2,3>& p) { return (p[1].x()-p[0].x())*(p[2].y()-p[0].y()) - (p[2].x()-p[0].x())*(p[1].y()-p[0].y()); }
VP_H(P32_basis) { Tri t; tri(t); auto cl = *t.m.cells_begin(); P2 x = V2(t.s*vp_real("x",-1,1), t.s*vp_real("y",-1,1)); auto f = C::eval_basis(t.m, cl, x); auto g = C::eval_basis_grad(t.m, cl); for (int i = 0; i < 3; i++) { auto e = C::eval_basis(t.m, cl, t.p[i]); for (int j = 0; j < 3; j++) vp_close(e(j), i == j, 1e-9, "one at its vertex and zero at the others"); } vp_close(f(0) + f(1) + f(2), 1, 1e-9, "the functions sum to one"); for (int a = 0; a < 2; a++) { T z = 0; for (int i = 0; i < 3; i++) z += f(i)*t.p[i].at(a); vp_close(z, x.at(a), 1e-9, "the functions reproduce affine functions"); }
    auto f0 = C::eval_basis(t.m, cl, V2(0,0)); for (int i = 0; i < 3; i++) vp_close(f(i), f0(i) + g(i,0)*x.x() + g(i,1)*x.y(), 1e-9, "gradients are the derivatives of the functions"); }
VP_H(P32_mass) { Tri t; tri(t); auto cl = *t.m.cells_begin(); auto A = C::mass_matrix(t.m, cl); T a = area2(t.p); if (a < 0) a = -a; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_close(A(i,j), a/24*(i == j ? 2 : 1), 1e-9*t.s*t.s, "mass matrix"); }
// |T| grad phi_i . K grad phi_j, with the gradients given by rotated edges
VP_H(P32_stiffness) { Tri t; tri(t, false); auto cl = *t.m.cells_begin(); T d = area2(t.p), ms = measure(t.m, cl); disk::static_matrix<T,2,2> K; K << 1, 0, 0, 1; auto A = C::stiffness_matrix(t.m, cl); T g[3][2]; for (int i = 0; i < 3; i++) { auto &u = t.p[(i+1)%3], &v = t.p[(i+2)%3]; g[i][0] = u.y() - v.y(); g[i][1] = v.x() - u.x(); } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { T z = 0; for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) z += g[i][a]*K(a,b)*g[j][b]; vp_close(A(i,j)*(d*d), ms*z, 1e-9*t.s*t.s*t.s*t.s, "stiffness matrix"); } }
static void fixed(Tri& t) { int k = vp_pick("shape",0,3); std::vector<P2> v[4] = {{V2(0,0),V2(1,0.125),V2(0.25,0.875)}, {V2(0,0),V2(0.25,0.875),V2(1,0.125)}, {V2(-1,0.5),V2(0.125,0.5),V2(-0.25,3)}, {V2(0.0625,0),V2(0.125,0.03125),V2(0.09375,0.0625)}}; t.s = k == 3 ? 0.0625 : 1; build_tri(t.m, v[k], {{0,1,2}}); auto q = points(t.m, *t.m.cells_begin()); for (int i = 0; i < 3; i++) t.p[i] = q[i]; }
VP_H(P32_material) { Tri t; fixed(t); auto cl = *t.m.cells_begin(); T d = area2(t.p), ad = d < 0 ? -d : d; disk::static_matrix<T,2,2> K; K << 1, 0, 0, 1; K << vp_real("k",-2,2), vp_real("k",-2,2), vp_real("k",-2,2), vp_real("k",-2,2); auto A = C::stiffness_matrix(t.m, cl, K); T g[3][2]; for (int i = 0; i < 3; i++) { auto &u = t.p[(i+1)%3], &v = t.p[(i+2)%3]; g[i][0] = u.y() - v.y(); g[i][1] = v.x() - u.x(); } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { T z = 0; for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) z += g[i][a]*K(a,b)*g[j][b]; vp_close(A(i,j)*2*ad, z, 1e-9*t.s*t.s, "stiffness matrix"); } }
VP_H(P32_rhs) { Tri t; tri(t); auto cl = *t.m.cells_begin(); T a = vp_real("a",-1,1), b = vp_real("b",-1,1), c = vp_real("d",-1,1), ar = area2(t.p)/2; if (ar < 0) ar = -ar; auto r = C::make_rhs(t.m, cl, [&](const P2& p) { return a + b*p.x() + c*p.y(); }); T m = a, n; for (int i = 0; i < 3; i++) m += (b*t.p[i].x() + c*t.p[i].y())/3; for (int i = 0; i < 3; i++) vp_close(r(i), m*ar/3, 1e-9*t.s*t.s, "right-hand side of the one point rule"); }
