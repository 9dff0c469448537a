//@bound deformation gradients with concrete principal stretches (distinct, two or three equal) and exact rotations, so that equal stretches come with rounding errors; any parameters of the elastic law inside (Young-type values up to 100); 2D and 3D; plastic laws inside with given load histories of one to three steps
#include "meshes.hpp"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
using namespace vp; using namespace disk; using namespace disk::mechanics;
using M = static_matrix<T,3,3>; using V = static_vector<T,3>; using Q4 = static_tensor<T,3>;
#define IJ for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
static M rot(int k) { M a = M::Identity(), b = M::Identity(), c; a(0,0) = a(1,1) = 0.6; a(0,1) = -0.8; a(1,0) = 0.8; b(1,1) = b(2,2) = 5./13; b(1,2) = -12./13; b(2,1) = 12./13; c << 0,0,1, 1,0,0, 0,1,0; switch (k) { case 0: return M::Identity(); case 1: return c; case 2: return a; default: return b*a; } }
static M skew(int i, int j) { M r = M::Zero(); r(i,j) = 1; r(j,i) = -1; return r; }
static const T US[7][3] = {{1.25,1,0.75}, {0.75,1,1.5}, {1.25,1.25,0.75}, {1.5,0.75,0.75}, {1.25,0.75,1.25}, {1.25,1.25,1.25}, {1,1,1}};
static T dot(const M& a, const M& b) { T r = 0; IJ r += a(i,j)*b(i,j); return r; }
static void same(const M& a, const M& b, T tol, const char* l) { IJ vp_close(a(i,j), b(i,j), tol, l); }
static M app(const Q4& P, const M& H) { M r; IJ { T s = 0; for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) s += P(i*3+k, j*3+l)*H(k,l); r(i,j) = s; } return r; }
static std::vector<M> units() { std::vector<M> r; IJ { M e = M::Zero(); e(i,j) = 1; r.push_back(e); } return r; }
static std::vector<M> commuting(const M& N, const T* u) { std::vector<M> r; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) if (i == j || u[i] == u[j]) r.push_back((N.col(i)*N.col(j).transpose() + N.col(j)*N.col(i).transpose())/2); return r; }
// the stress and the tangent of the law in logarithmic strains, from those of the elastic law inside
static void whole(const T* u, const M& N, const M& S) { T mu = vp_real("mu", 0.125, 100), la = vp_real("la", 0, 100); MaterialData<T> d; d.setMu(mu); d.setLambda(la); V l; M D = M::Zero(), E = M::Zero(); for (int i = 0; i < 3; i++) { D(i,i) = u[i]; l(i) = u[i]*u[i]; E += std::log(u[i])*N.col(i)*N.col(i).transpose(); } M F = S*N*D*N.transpose(); auto hooke = [&](const M& e) -> M { return 2*mu*e + la*e.trace()*M::Identity(); }; M t = hooke(E);
    point<T,3> p; LogarithmicStrain_qp<LinearElasticity_qp<T,3>> q(p, 1.); auto r = q.compute_whole(F, d); same(q.compute_stress3D_T(d), t, 1e-8, "stress of the law inside"); same(q.getTotalStrain(), E, 1e-10, "strain given to the law inside"); const M& P = r.first;
    for (int k = 0; k < 3; k++) { M W = skew(k, (k+1)%3); vp_close(dot(P, F*W), dot(t, E*W - W*E), 1e-8, "work of a rotation before the deformation"); vp_close(dot(P, W*F), 0, 1e-8, "work of a rotation after the deformation"); } for (auto& x : commuting(N, u)) vp_close(dot(P, F*x), dot(t, x), 1e-8, "work of a stretch");
    same(q.compute_stress3D(d), P, 1e-12, "3D stress"); same(q.compute_stress(d), P, 1e-12, "stress again");
    auto o = compute_projector<T>(F, t, l, N, true); for (auto& H : units()) { M AH = app(r.second, H), o1 = app(o.second, H), C = hooke(app(o.first, H)); for (auto& K : units()) vp_close(dot(K, AH), dot(K, o1) + dot(app(o.first, K), C), 1e-6, "tangent"); }
    auto r2 = LogarithmicStrain_qp<LinearElasticity_qp<T,3>>(p, 1.).compute_whole(F, d, false); same(r2.first, P, 1e-12, "stress without the tangent"); }
VP_H(P36_law3) { int c = vp_pick("case",0,6), n = vp_pick("axes",0,3), s = vp_pick("rot",0,3); whole(US[c], rot(n), rot(s)); }
// many rotations: equal stretches come with all kinds of rounding errors
static M about(int a, T m, T n) { T r = m*m + n*n, c = (m*m - n*n)/r, s = 2*m*n/r; int b = (a+1)%3, d = (a+2)%3; M R = M::Identity(); R(b,b) = R(d,d) = c; R(b,d) = -s; R(d,b) = s; return R; }
VP_H(P36_rounding) { int c = vp_pick("case",2,5), i = vp_pick("rot",0,24); whole(US[c], about(0, 1 + i%5, 2)*about(1, 3, 1 + i/5), about(2, 1 + i/5, 3)*about(0, 2, 5)); }
// 2D is the 3D law without stretch out of the plane
VP_H(P36_law2) { T mu = vp_real("mu", 0.125, 100), la = vp_real("la", 0, 100); MaterialData<T> d; d.setMu(mu); d.setLambda(la); int k = vp_pick("case",0,5), n = vp_pick("axes",0,3); static_matrix<T,2,2> R, S, D = static_matrix<T,2,2>::Zero(); R << 0.6, -0.8, 0.8, 0.6; S << 12./13, 5./13, -5./13, 12./13; D(0,0) = US[k][0]; D(1,1) = US[k][1]; if (n & 1) R.setIdentity(); if (n & 2) S.setIdentity(); static_matrix<T,2,2> F = R*D*S; M G = M::Identity(); G.block(0,0,2,2) = F;
    point<T,3> p; point<T,2> p2; LogarithmicStrain_qp<LinearElasticity_qp<T,3>> q(p, 1.); LogarithmicStrain_qp<LinearElasticity_qp<T,2>> q2(p2, 1.); auto r = q.compute_whole(G, d); auto r2 = q2.compute_whole(F, d); same(q2.compute_stress3D(d), r.first, 1e-9, "3D stress of the 2D law"); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { vp_close(r2.first(i,j), r.first(i,j), 1e-9, "stress in the plane"); vp_close(q2.compute_stress(d)(i,j), r.first(i,j), 1e-9, "stress in the plane again"); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) vp_close(r2.second(i*2+a, j*2+b), r.second(i*3+a, j*3+b), 1e-8, "tangent in the plane"); } }
// a load history: the plastic law inside sees the logarithmic strains, and its history changes at updates only
template<typename L> static void history(const MaterialData<T>& d) { point<T,3> p; L in(p, 1.); LogarithmicStrain_qp<L> q(p, 1.); int n = vp_pick("steps",1,3), s = vp_pick("rot",0,3), w = vp_pick("without",0,3); for (int k = 0; k < n; k++) { T u[3] = {1 + 1./32*(k+1), 1 - 1./64, 1 - (k == 1 ? 1./16 : 0.)}; M N = rot((s+k)%4), D = M::Zero(), E = M::Zero(); for (int i = 0; i < 3; i++) { D(i,i) = u[i]; E += std::log(u[i])*N.col(i)*N.col(i).transpose(); } M F = rot(s)*N*D*N.transpose(); auto r = q.compute_whole(F, d, k % 2 == 0); auto o = in.compute_whole(E, d); same(q.compute_stress_T(d), o.first, 1e-9, "stress of the law inside"); M t = o.first; for (int a = 0; a < 3; a++) { M W = skew(a, (a+1)%3); vp_close(dot(r.first, F*W), dot(t, E*W - W*E), 1e-8, "work of a rotation before the deformation"); vp_close(dot(r.first, W*F), 0, 1e-8, "work of a rotation after the deformation"); } for (auto& x : commuting(N, u)) vp_close(dot(r.first, F*x), dot(t, x), 1e-8, "work of a stretch");
        vp_check(q.is_plastic() == in.is_plastic(), "plastic state"); vp_close(q.getEquivalentPlasticStrain(), in.getEquivalentPlasticStrain(), 1e-10, "equivalent plastic strain"); same(q.getPlasticStrain(), in.getPlasticStrain(), 1e-10, "plastic strain"); same(q.getElasticStrain(), in.getElasticStrain(), 1e-10, "elastic strain"); same(q.getTotalStrain(), E, 1e-10, "total strain"); if (k != w) { q.update(); in.update(); } same(q.getTotalStrainPrev(), in.getTotalStrainPrev(), 1e-10, "strain before"); same(q.compute_stressPrev_T(d), in.compute_stressPrev(d), 1e-8, "stress before"); } }
VP_H(P36_history_linear) { T mu = 2 << vp_pick("mu",0,1); MaterialData<T> d(5, mu, 1, 2, 1./64); history<LinearIsotropicAndKinematicHardening_qp<T,3>>(d); }
VP_H(P36_history_curve) { MaterialData<T> d(5, 4, 1, 2, 1./64); d.addCurvePoint(0, 1./64); d.addCurvePoint(1./64, 5./64); history<IsotropicHardeningVMis_qp<T,3>>(d); }
VP_H(P36_refused) { MaterialData<T> d; d.setMu(1); d.setLambda(1); M F = rot(2); F.col(0) *= vp_real("x", -1, 1); T J = F.determinant(); vp_assume(J <= 0); bool t = false; point<T,3> p; LogarithmicStrain_qp<LinearElasticity_qp<T,3>> q(p, 1.); try { q.compute_whole(F, d); } catch (const std::invalid_argument&) { t = true; } vp_check(t, "deformations that are not orientation preserving are refused"); }
