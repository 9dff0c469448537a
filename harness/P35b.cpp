//@bound plastic laws: any symmetric strain with entries in [-0.02,0.02] after none, one or two earlier load steps (elastic, plastic, plastic with unloading; given values), two materials, hardening curves of 2 and 4 points; 2D and 3D; the trial step also repeated without update; steps that do not end on a kink of the curve
//@assume the points of a hardening curve are sorted (checkRpCurve)
#include "meshes.hpp"
#include "diskpp/mechanics/behaviors/laws/law_qp_bones.hpp"
#include "diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp"
#include "diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp"
using namespace vp; using namespace disk;
template<int D> using Ma = static_matrix<T,D,D>; template<int D> using Te = static_tensor<T,D>;
#define IJKL for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) for (int k = 0; k < D; k++) for (int l = 0; l < D; l++)
#define IJ for (int i = 0; i < D; i++) for (int j = 0; j < D; j++)
template<int D> static Ma<D> mat(const char* n) { Ma<D> r; IJ r(i,j) = vp_real(n, -1, 1); return r; }
template<int D> static Ma<D> symm(const char* n, T m) { Ma<D> r; for (int i = 0; i < D; i++) for (int j = 0; j <= i; j++) r(i,j) = r(j,i) = vp_real(n, -m, m); return r; }
template<int D> static Ma<3> ext(const Ma<D>& a) { Ma<3> r = Ma<3>::Zero(); IJ r(i,j) = a(i,j); return r; }
template<int D> static Ma<D> dd(const Te<D>& A, const Ma<D>& B) { Ma<D> r = Ma<D>::Zero(); IJKL r(i,j) += A(i*D+k, j*D+l)*B(k,l); return r; }
template<int D> static void same(const Ma<D>& a, const Ma<D>& b, T tol, const char* l) { IJ vp_close(a(i,j), b(i,j), tol, l); }
static T in(const Ma<3>& a, const Ma<3>& b) { T s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s += a(i,j)*b(i,j); return s; }
static Ma<3> dev(const Ma<3>& a) { T t = (a(0,0)+a(1,1)+a(2,2))/3; Ma<3> r = a; for (int i = 0; i < 3; i++) r(i,i) -= t; return r; }
// the state of the law before the step
struct state { Ma<3> e = Ma<3>::Zero(), p = Ma<3>::Zero(); T q = 0; };
// (the strains of the earlier steps are chosen so that the state they lead to has no rounding: deviator (2,-1,-1)b with shear 3b, equivalent 6b)
template<int D> static Ma<D> given(int k, T b) { Ma<3> m; if (D == 2) m << 3*b,3*b,0, 3*b,0,0, 0,0,0; else m << b,0,3*b, 0,4*b,0, 3*b,0,b; if (k == 0) m *= 0.125; if (k == 2) { m *= 0.75; m(0,0) += 0.75*b; } return Ma<D>(m.block(0,0,D,D)); }
template<typename L> static state prev(const L& q) { state s; s.e = q.getElasticStrain(); s.p = q.getPlasticStrain(); s.q = q.getEquivalentPlasticStrain(); return s; }
template<typename L, int D> static void steps(L& q, const MaterialData<T>& d, int h, T b) { if (h == 1) { q.compute_whole(given<D>(0, b), d); q.update(); } if (h >= 2) { q.compute_whole(given<D>(1, b), d); vp_check(q.is_plastic(), "large strains are plastic"); q.update(); } if (h >= 3) { q.compute_whole(given<D>(2, b), d); q.update(); } }
// se: trial deviatoric stress (minus back stress), r(p): yield stress and its slope after the step
template<typename L, int D> static void check(L& q, const MaterialData<T>& d, const state& s, const Ma<D>& e, const std::pair<Ma<D>, Te<D>>& R, T K, T dp, T slope, T yield0, T yield1) {
    T mu = d.getMu(), la = d.getLambda(); Ma<3> e3 = ext<D>(e), tr = e3 - s.p, se = 2*mu*dev(tr) - K*s.p; T n2 = 1.5*in(se,se); bool pl = q.is_plastic(); T qe = q.getEquivalentPlasticStrain(); Ma<3> ee = q.getElasticStrain(), ep = q.getPlasticStrain();
    IJ vp_close(q.getTotalStrain()(i,j), e(i,j), 1e-12, "the total strain is the strain given"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_close(ee(i,j)+ep(i,j), e3(i,j), 1e-12, "elastic and plastic strain add up"); vp_close(ep.trace(), 0, 1e-12, "plastic strain has no trace");
    Ma<3> sg = 2*mu*ee + la*ee.trace()*Ma<3>::Identity(); Ma<D> sd = sg.block(0,0,D,D); same<D>(R.first, sd, 1e-8, "stress of the elastic strain"); same<D>(q.compute_stress(d), sd, 1e-8, "stress of the stored strain"); same<3>(q.compute_stress3D(d), sg, 1e-8, "3D stress");
    auto H = mat<D>("H"); Ma<3> H3 = ext<D>(H), Hs = (H3+H3.transpose())/2; Ma<3> o = 2*mu*Hs + la*Hs.trace()*Ma<3>::Identity();
    if (!pl) { vp_check(n2 <= yield0*yield0*(1+1e-9), "elastic steps stay within the yield stress"); vp_check(qe == s.q, "no plastic flow in an elastic step"); same<3>(ep, s.p, 1e-12, "no plastic flow in an elastic step"); }
    else { vp_check(n2 >= yield0*yield0*(1-1e-9), "plastic steps reach the yield stress"); T se_eq = std::sqrt(n2); Ma<3> n = 1.5/se_eq*se; vp_check(dp >= -1e-9, "plastic flow does not go back"); vp_close(qe, s.q+dp, 1e-10, "equivalent plastic strain"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_close(ep(i,j), s.p(i,j)+dp*n(i,j), 1e-10, "plastic flow along the normal"); vp_close(se_eq-(3*mu+1.5*K)*dp, yield1, 1e-8, "after the step the stress is the yield stress");
      // tangent: dp' = 2 mu n:H / (3 mu + 1.5 K + slope), n' = (3 mu dev H - 2 mu (n:H) n)/se_eq
      T nh = in(n,Hs); T ddp = 2*mu*nh/(3*mu+1.5*K+slope); o -= 2*mu*(ddp*n + dp/se_eq*(3*mu*dev(Hs) - 2*mu*nh*n)); }
    Ma<D> od = o.block(0,0,D,D); same<D>(dd<D>(R.second, H), od, 1e-6, "consistent tangent");
    Ma<3> p0 = ep; q.update(); same<D>(q.getTotalStrainPrev(), e, 1e-12, "after an update the strain is the previous strain"); same<D>(q.compute_stressPrev(d), sd, 1e-8, "after an update the stress is the previous stress"); same<3>(q.compute_stress3DPrev(d), sg, 1e-8, "after an update the stress is the previous stress"); }
template<int D> static void linear() { int m = vp_pick("material",0,1), h = vp_pick("history",0,3); const T b = 1./512; MaterialData<T> d = m ? MaterialData<T>(3, 2, 2, 0, 1./128) : MaterialData<T>(5, 4, 1, 2, 1./64); LinearIsotropicAndKinematicHardening_qp<T,D> q(point<T,D>(), 1.); steps<decltype(q),D>(q, d, h, b); state s = prev(q); auto e = symm<D>("e", 0.02); if (vp_pick("repeat",0,1)) q.compute_whole(given<D>(1, b), d); auto R = q.compute_whole(e, d);
    T mu = d.getMu(), K = d.getK(), Hh = d.getH(); Ma<3> se = 2*mu*dev(ext<D>(e)-s.p) - K*s.p; T se_eq = std::sqrt(1.5*in(se,se)), y0 = d.getSigma_y0()+Hh*s.q, dp = q.is_plastic() ? (se_eq-y0)/(3*mu+Hh+1.5*K) : T(0); check<decltype(q),D>(q, d, s, e, R, K, dp, Hh, y0, y0+Hh*dp); }
VP_H(P35_linear_hardening2) { linear<2>(); } VP_H(P35_linear_hardening3) { linear<3>(); }
static T curve(const std::vector<curve_point<T>>& c, T p, T& sl) { size_t i = 0; while (i+2 < c.size() && !(p < c[i+1].getP())) i++; sl = (c[i+1].getRp()-c[i].getRp())/(c[i+1].getP()-c[i].getP()); return c[i].getRp()+sl*(p-c[i].getP()); }
template<int D> static void nonlinear() { int m = vp_pick("curve",0,1), h = vp_pick("history",0,3); MaterialData<T> d(5, 4); const T u = 1./1024, b = m ? 2.375*u : 2*u; if (m) { d.addCurvePoint(4*u, 40*u); d.addCurvePoint(0, 16*u); d.addCurvePoint(16*u, 52*u); d.addCurvePoint(2*u, 32*u); } else { d.addCurvePoint(0, 16*u); d.addCurvePoint(16*u, 80*u); } d.checkRpCurve(); auto c = d.getRpCurve(); IsotropicHardeningVMis_qp<T,D> q(point<T,D>(), 1.); steps<decltype(q),D>(q, d, h, b); state s = prev(q); auto e = symm<D>("e", 0.02); if (vp_pick("repeat",0,1)) q.compute_whole(given<D>(1, b), d); auto R = q.compute_whole(e, d);
    T mu = d.getMu(); Ma<3> se = 2*mu*dev(ext<D>(e)-s.p); T se_eq = std::sqrt(1.5*in(se,se)), sl, y0 = curve(c, s.q, sl), sl1 = 0, dp = q.is_plastic() ? q.getEquivalentPlasticStrain()-s.q : T(0), y1 = curve(c, s.q+dp, sl1); for (size_t i = 1; i+1 < c.size(); i++) vp_assume(std::abs(s.q+dp-c[i].getP()) > 1e-6); check<decltype(q),D>(q, d, s, e, R, 0, dp, sl1, y0, y1); }
VP_H(P35_curve_hardening2) { nonlinear<2>(); } VP_H(P35_curve_hardening3) { nonlinear<3>(); }
VP_H(P35_no_curve) { constexpr int D = 3; MaterialData<T> d(5, 4); IsotropicHardeningVMis_qp<T,3> q(point<T,3>(), 1.); auto e = symm<3>("e", 1); auto R = q.compute_whole(e, d); Ma<3> s = 8*e + 5*e.trace()*Ma<3>::Identity(); same<3>(R.first, s, 1e-9, "a law without curve is elastic"); vp_check(!q.is_plastic(), "a law without curve is elastic"); }
VP_H(P35_one_point) { MaterialData<T> d(5, 4); d.addCurvePoint(0, vp_real("R", 0.01, 0.05)); IsotropicHardeningVMis_qp<T,3> q(point<T,3>(), 1.); bool t = false; try { q.compute_whole(given<3>(1, 0.002), d); } catch (const std::invalid_argument&) { t = true; } if (!t) { Ma<3> s = dev(q.compute_stress3D(d)); T y = d.getRpCurve()[0].getRp(); vp_close(1.5*in(s,s), y*y, 1e-9, "one point is a constant yield stress"); } else vp_check(!q.is_plastic(), "refused"); }
VP_H(P35_curve_order) { int n = vp_pick("n",0,4); MaterialData<T> d; std::vector<T> ps; for (int i = 0; i < n; i++) { T p = vp_real("p",0,4); ps.push_back(p); d.addCurvePoint(p, 10+i); } bool eq = false; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { if (ps[i] == ps[j]) eq = true; else vp_assume(std::abs(ps[i]-ps[j]) > 1e-3); } bool t = false; try { d.checkRpCurve(); } catch (const std::invalid_argument&) { t = true; } vp_check(t == eq, "two values for the same plastic strain are refused"); if (!t) { auto c = d.getRpCurve(); vp_check((int)c.size() == n, "all points are kept"); for (int i = 0; i+1 < n; i++) vp_check(c[i].getP() < c[i+1].getP(), "sorted"); for (int i = 0; i < n; i++) { int f = -1; for (int j = 0; j < n; j++) if (ps[j] == c[i].getP()) f = j; vp_check(f >= 0 && c[i].getRp() == 10+f, "points keep their values"); } } }
VP_H(P35_parameters) { T E = vp_real("E",0.1,100), nu = vp_real("nu",-0.4,0.45), K = vp_real("K",0,10), ET = vp_real("ET",0,0.09); MaterialData<T> d; d.setMu(E, nu); d.setLambda(E, nu); d.setK(K); d.setH(E, ET, K); d.setSigma_y0(ET+1); vp_close(d.getE(), E, 1e-8, "Young modulus"); vp_close(d.getNu(), nu, 1e-9, "Poisson ratio"); vp_close(d.getET(), ET, 1e-8, "tangent modulus"); vp_close(d.getK(), K, 0, "kinematic modulus"); vp_close(d.getSigma_y0(), ET+1, 0, "yield stress"); T mu = d.getMu(), la = d.getLambda(); vp_close(2*mu*(1+nu), E, 1e-9, "shear modulus"); vp_close(3*la+2*mu, E/(1-2*nu), 1e-8, "bulk modulus"); MaterialData<T> z; z.setMu(mu); z.setLambda(la); z.setH(d.getH()); vp_close(z.getMu(), mu, 0, "mu"); vp_close(z.getLambda(), la, 0, "lambda"); vp_close(z.getH(), d.getH(), 0, "H"); z.addMfrontParameter("a", E); z.addMfrontParameter("b", nu); vp_check(z.getMfrontParameters().size() == 2 && z.getMfrontParameters()[1].first == "b" && z.getMfrontParameters()[1].second == nu && z.getMfrontParameters()[0].second == E, "parameters of external laws"); }
