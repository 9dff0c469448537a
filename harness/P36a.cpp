//@bound principal stretches concrete (all distinct, two equal in each position, three equal; in any order) or one of them any value in an interval; principal directions and rotations among four exact rotations, the rotation also any rotation about an axis; any symmetric stress T; directions: all
//@assume stretches that differ do so by at least 1/16, or (given values) by 1e-6 down to 1e-15
#include "meshes.hpp"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
using namespace vp; using namespace disk; using namespace disk::mechanics;
using M = static_matrix<T,3,3>; using V = static_vector<T,3>; using Q4 = static_tensor<T,3>;
#define IJ for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
static M rot(int k) { M a = M::Identity(), b = M::Identity(), c; a(0,0) = a(1,1) = 0.6; a(0,1) = -0.8; a(1,0) = 0.8; b(1,1) = b(2,2) = 5./13; b(1,2) = -12./13; b(2,1) = 12./13; c << 0,0,1, 1,0,0, 0,1,0; switch (k) { case 0: return M::Identity(); case 1: return c; case 2: return a; default: return b*a; } }
static M skew(int i, int j) { M r = M::Zero(); r(i,j) = 1; r(j,i) = -1; return r; }
static const T US[6][3] = {{1.25,1,0.75}, {0.75,1,1.5}, {1.25,1.25,0.75}, {1.5,0.75,0.75}, {1.25,0.75,1.25}, {1.25,1.25,1.25}};
static M stress() { M r; IJ if (j >= i) r(i,j) = r(j,i) = vp_real("t", -1, 1); return r; }
static T dot(const M& a, const M& b) { T r = 0; IJ r += a(i,j)*b(i,j); return r; }
static void same(const M& a, const M& b, T tol, const char* l) { IJ vp_close(a(i,j), b(i,j), tol, l); }
static M app(const Q4& P, const M& H) { M r; IJ { T s = 0; for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) s += P(i*3+k, j*3+l)*H(k,l); r(i,j) = s; } return r; }
// tensors are stored by blocks: (i,j) is a block, (k,l) the entry of it
static M app2(const Q4& P, const M& H) { M r; IJ { T s = 0; for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) s += P(k*3+i, l*3+j)*H(k,l); r(i,j) = s; } return r; }
static bool close_(T a, T b) { return -1e-5 < a - b && a - b < 1e-5; }
// directions that commute with C: N_i N_j^T + N_j N_i^T of equal stretches
static std::vector<M> commuting(const M& N, const T* u) { std::vector<M> r; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) if (i == j || close_(u[i], u[j])) r.push_back((N.col(i)*N.col(j).transpose() + N.col(j)*N.col(i).transpose())/2); return r; }
static std::vector<M> units() { std::vector<M> r; IJ { M e = M::Zero(); e(i,j) = 1; r.push_back(e); } return r; }
// P is the derivative of the logarithmic strain by F, and TL the second derivative of T : E
static void projector(const T* u, const M& N, const M& S, T tol) { V l, e; for (int i = 0; i < 3; i++) { l(i) = u[i]*u[i]; e(i) = std::log(l(i))/2; vp_assume(e(i) >= -1 && e(i) <= 1); } M t = stress(), D = M::Zero(), E = M::Zero(); for (int i = 0; i < 3; i++) { D(i,i) = u[i]; E += e(i)*N.col(i)*N.col(i).transpose(); } M F = S*N*D*N.transpose();
    auto r = compute_projector<T>(F, t, l, N, true); const Q4 &P = r.first, &L = r.second; auto p1 = compute_projector<T>(F, t, l, N, false); { M z = app2(p1.first, t); same(z, app2(P, t), 1e-12, "projector without the second derivative"); }
    same(compute_Elog<T>(l, N), E, 1e-12, "strain"); M G = app2(P, t); auto X = commuting(N, u);
    for (int k = 0; k < 3; k++) { M W = skew(k, (k+1)%3); same(app(P, F*W), E*W - W*E, tol, "rotation before the deformation"); same(app(P, W*F), M::Zero(), tol, "rotation after the deformation"); M LW = app(L, F*W), c = app2(P, W*t - t*W), LO = app(L, W*F);
        for (auto& H : units()) { vp_close(dot(H, LW), dot(c, H) - dot(G, H*W), tol, "second derivative, rotation before the deformation"); vp_close(dot(H, LO), -dot(G, W*H), tol, "second derivative, rotation after the deformation"); } }
    for (auto& x : X) { same(app(P, F*x), x, tol, "stretch"); M Lx = app(L, F*x); for (auto& y : X) vp_close(dot(F*y, Lx), -dot(G, F*(x*y + y*x))/2, tol, "second derivative, stretch"); }
    for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) vp_close(L(i/3*3 + j/3, i%3*3 + j%3), L(j/3*3 + i/3, j%3*3 + i%3), tol, "second derivatives are symmetric"); }
static void projector2(const T* u, const M& N, T tol) { V l, e; for (int i = 0; i < 3; i++) { l(i) = u[i]*u[i]; e(i) = std::log(l(i))/2; vp_assume(e(i) >= -1 && e(i) <= 1); } M t = stress(), C = M::Zero(), E = M::Zero(); for (int i = 0; i < 3; i++) { C += l(i)*N.col(i)*N.col(i).transpose(); E += e(i)*N.col(i)*N.col(i).transpose(); }
    auto r = compute_projector_PK2<T>(t, l, N, true); const Q4 &P = r.first, &L = r.second; { M z = app2(compute_projector_PK2<T>(t, l, N, false).first, t); same(z, app2(P, t), 1e-12, "projector without the second derivative"); }
    M G = app2(P, t); auto X = commuting(N, u); std::vector<M> S; for (auto& x : units()) S.push_back((x + x.transpose())/2);
    for (int k = 0; k < 3; k++) { M W = skew(k, (k+1)%3), K = C*W - W*C; same(app(P, K), 2*(E*W - W*E), tol, "rotation"); M LW = app(L, K), c = app2(P, W*t - t*W); for (auto& H : S) vp_close(dot(H, LW), 2*(dot(c, H) - dot(G, H*W - W*H)), tol, "second derivative, rotation"); }
    for (auto& x : X) { same(app(P, C*x), x, tol, "stretch"); M Lx = app(L, C*x); for (auto& y : X) vp_close(dot(C*y, Lx), -dot(G, C*(x*y + y*x)), tol, "second derivative, stretch"); }
    for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) vp_close(L(i/3*3 + j/3, i%3*3 + j%3), L(j/3*3 + i/3, j%3*3 + i%3), tol, "second derivatives are symmetric"); for (auto& x : units()) same(app(P, x), app(P, x.transpose()), tol, "symmetric in C"); }
VP_H(P36_derivatives_F) { int c = vp_pick("case",0,5), n = vp_pick("axes",0,3), s = vp_pick("rot",0,3); projector(US[c], rot(n), rot(s), 1e-9); }
VP_H(P36_derivatives_C) { int c = vp_pick("case",0,5), n = vp_pick("axes",0,3); projector2(US[c], rot(n), 1e-9); }
// any stretches: distinct, or two or three of them equal
static void pattern(int c, T* u) { T x = vp_real("u", 1.125, 1.5), y = vp_real("w", 0.5, 0.875), z = vp_real("v", 0.9375, 1.0625); switch (c) { case 0: u[0] = y; u[1] = x; u[2] = z; break; case 1: u[0] = y; u[1] = u[2] = x; break; case 2: u[0] = u[1] = x; u[2] = y; break; case 3: u[0] = u[2] = x; u[1] = y; break; default: u[0] = u[1] = u[2] = x; } }
static M turn(T q) { T c = (1 - q*q)/(1 + q*q), s = 2*q/(1 + q*q); M S = M::Identity(); S(0,0) = S(1,1) = c; S(0,1) = -s; S(1,0) = s; return S; }
VP_H(P36_symbolic_C) { T u[3]; pattern(vp_pick("case",0,4), u); int n = vp_pick("axes",0,1); projector2(u, rot(n), 1e-6); }
VP_H(P36_symbolic_F) { T u[3]; pattern(vp_pick("case",0,4), u); int n = vp_pick("axes",0,1); projector(u, rot(n), rot(1), 1e-6); }
VP_H(P36_rotations) { int k = vp_pick("case",0,5); projector(US[k], rot(1), turn(vp_real("q", -1, 1)), 1e-6); }
VP_H(P36_axes_F) { int k = vp_pick("case",0,5); projector(US[k], turn(vp_real("q", -1, 1)), rot(1), 1e-6); }
VP_H(P36_axes_C) { int k = vp_pick("case",0,5); projector2(US[k], turn(vp_real("q", -1, 1)), 1e-6); }
// stretches that differ by little, down to rounding errors
static const T GAP[7] = {1e-6, 1e-7, 1e-8, 1e-10, 1e-12, 1e-14, 1e-15};
static void nearly(int c, T* u) { T g = GAP[vp_pick("gap",0,6)]; for (int i = 0; i < 3; i++) u[i] = US[2+c][i] + 0*g; if (c == 0) u[1] += g; else if (c == 1) u[2] += g; else if (c == 2) u[2] += g; else { u[1] += g; u[2] -= 2*g; } }
VP_H(P36_nearly_F) { T u[3]; nearly(vp_pick("case",0,3), u); projector(u, rot(2), rot(1), 2e-5); }
VP_H(P36_nearly_C) { T u[3]; nearly(vp_pick("case",0,3), u); projector2(u, rot(2), 2e-5); }
