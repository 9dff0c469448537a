//@bound hyperelastic laws (neo-Hookean, cavitation): deformation gradients any 3x3 or 2x2 matrix with diagonal entries in [0.7,1.5] and off-diagonal entries in [-0.1,0.1], material parameters in [0.1,10], the six volumetric functions, any direction of the tangent; gradients with a determinant that is not positive; small strain laws without history: any symmetric strain with entries in [-1,1]
//@assume the strain given to small strain laws is symmetric
#include "meshes.hpp"
#include "diskpp/mechanics/behaviors/laws/law_qp_bones.hpp"
#include "diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp"
#include "diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp"
#include "diskpp/mechanics/behaviors/laws/LinearLaw/LinearLaw_qp.hpp"
#include "diskpp/mechanics/behaviors/laws/LinearElasticityLaw/LinearElasticityLaw.hpp"
#include "diskpp/mechanics/behaviors/laws/HenckyMises/HenckyMises_qp.hpp"
using namespace vp; using namespace disk;
template<int D> using Ma = static_matrix<T,D,D>; template<int D> using Te = static_tensor<T,D>;
#define IJKL for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) for (int k = 0; k < D; k++) for (int l = 0; l < D; l++)
#define IJ for (int i = 0; i < D; i++) for (int j = 0; j < D; j++)
template<int D> static Ma<D> mat(const char* n) { Ma<D> r; IJ r(i,j) = vp_real(n, -1, 1); return r; }
template<int D> static Ma<D> symm(const char* n) { Ma<D> r; for (int i = 0; i < D; i++) for (int j = 0; j <= i; j++) r(i,j) = r(j,i) = vp_real(n, -1, 1); return r; }
template<int D> static Ma<D> def() { Ma<D> r; IJ r(i,j) = i == j ? vp_real("Fd", 0.7, 1.5) : vp_real("Fo", -0.1, 0.1); return r; }
template<int D> static Ma<D> dd(const Te<D>& A, const Ma<D>& B) { Ma<D> r = Ma<D>::Zero(); IJKL r(i,j) += A(i*D+k, j*D+l)*B(k,l); return r; }
template<int D> static void same(const Ma<D>& a, const Ma<D>& b, T tol, const char* l) { IJ vp_close(a(i,j), b(i,j), tol, l); }
static T dt(const Ma<3>& a) { return a(0,0)*(a(1,1)*a(2,2)-a(1,2)*a(2,1))-a(0,1)*(a(1,0)*a(2,2)-a(1,2)*a(2,0))+a(0,2)*(a(1,0)*a(2,1)-a(1,1)*a(2,0)); }
static Ma<3> cof(const Ma<3>& a) { Ma<3> c; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int p = (i+1)%3, q = (i+2)%3, r = (j+1)%3, s = (j+2)%3; c(i,j) = a(p,r)*a(q,s)-a(p,s)*a(q,r); } return c; }
// U, J U U' and J (J U U')' of the six volumetric functions
static void vol(int ty, T J, T& U2, T& a, T& b) { const T L = std::log(10.); switch (ty) {
    case 1: { T l = std::log(J); U2 = l*l; a = l; b = 1; break; }
    case 2: U2 = (J-1)*(J-1); a = J*(J-1); b = 2*J*J-J; break;
    case 3: { T l = std::log(J), m = std::log10(J); U2 = m*m; a = l/(L*L); b = 1/(L*L); break; }
    case 4: U2 = (1-1/J)*(1-1/J); a = (1-1/J)/J; b = (2/J-1)/J; break;
    case 5: U2 = (J*J-1)*(J*J-1); a = 2*J*J*J*J-2*J*J; b = 8*J*J*J*J-4*J*J; break;
    default: U2 = (J*J-1-2*std::log(J))/2; a = (J*J-1)/2; b = J*J; } }
static MaterialData<T> data(int ty, T la, T mu) { MaterialData<T> d; d.setLambda(la); d.setMu(mu); d.setType(ty); return d; }
template<bool CAV, int D> static void hyper(int ty, const Ma<D>& F) { using law = std::conditional_t<CAV, Cavitation_qp<T,D>, Neohookean_qp<T,D>>; T la = vp_real("lambda",0.1,10), mu = vp_real("mu",0.1,10); auto d = data(ty, la, mu); Ma<3> F3 = Ma<3>::Identity(); IJ F3(i,j) = F(i,j);
    law q(point<T,D>(), 1.); auto R = q.compute_whole(F, d); T J = dt(F3); Ma<3> G = cof(F3)/J; T U2, a, b; vol(ty, J, U2, a, b); T tr = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) tr += F3(i,j)*F3(i,j);
    Ma<3> P = (la*a-mu)*G + (CAV ? mu*std::pow(3.*tr, -.25) : mu)*F3; Ma<D> Pd = P.block(0,0,D,D); same<D>(R.first, Pd, 1e-8, "stress"); same<D>(q.compute_stress(d), Pd, 1e-8, "stress of the stored strain"); same<3>(q.compute_stress3D(d), P, 1e-8, "3D stress");
    auto H = mat<D>("H"); Ma<3> H3 = Ma<3>::Zero(); IJ H3(i,j) = H(i,j); T gh = 0, fh = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { gh += G(i,j)*H3(i,j); fh += F3(i,j)*H3(i,j); } Ma<3> GHG = G*H3.transpose()*G; Ma<3> o = la*b*gh*G + (mu-la*a)*GHG; if (CAV) o += mu*std::pow(3.,-.25)*(std::pow(tr,-.25)*H3 - 0.5*std::pow(tr,-1.25)*fh*F3); else o += mu*H3;
    Ma<D> od = o.block(0,0,D,D); same<D>(dd<D>(R.second, H), od, 1e-7, "tangent is the derivative of the stress"); q.update(); same<3>(q.compute_stressPrev3D(d), P, 1e-8, "after an update the stress is the previous stress"); }
template<bool CAV> static void energy(int ty, const Ma<3>& F) { using law = std::conditional_t<CAV, Cavitation_qp<T,3>, Neohookean_qp<T,3>>; T la = vp_real("lambda",0.1,10), mu = vp_real("mu",0.1,10); auto d = data(ty, la, mu); law q; q.compute_whole(F, d); T J = dt(F), U2, a, b, tr = 0; vol(ty, J, U2, a, b); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) tr += F(i,j)*F(i,j); T W = la/2*U2 - mu*std::log(J) + (CAV ? 2*mu/std::pow(3.,1.25)*std::pow(tr,.75) : mu/2*(tr-3)); vp_close(q.compute_energy(d), W, 1e-8, "stored energy"); }
#define HY(n, C, D) VP_H(P35_##n##1) { hyper<C,D>(vp_pick("U",1,2), def<D>()); } VP_H(P35_##n##3) { hyper<C,D>(vp_pick("U",3,4), def<D>()); } VP_H(P35_##n##5) { hyper<C,D>(vp_pick("U",5,6), def<D>()); }
HY(neohookean2, false, 2) HY(neohookean3, false, 3) HY(cavitation2, true, 2) HY(cavitation3, true, 3)
VP_H(P35_energy_neohookean) { energy<false>(vp_pick("U",1,5), def<3>()); }
VP_H(P35_energy_cavitation) { energy<true>(vp_pick("U",1,5), def<3>()); }
// concrete gradients, so that powers and logarithms are numbers: the stress is the derivative of the energy, the tangent that of the stress (differences of second order)
static Ma<3> sample(int k) { Ma<3> F; if (k == 0) F << 1.2,0.3,-0.1, 0.05,0.9,0.2, -0.15,0.1,1.1; else if (k == 1) F << 0.8,-0.1,0.2, 0.3,1.4,0., 0.1,-0.2,1.05; else F << 1.,0.5,0., -0.5,1.,0.1, 0.,0.2,0.7; return F; }
template<bool CAV> static void deriv_() { using law = std::conditional_t<CAV, Cavitation_qp<T,3>, Neohookean_qp<T,3>>; int ty = vp_pick("U",1,6); Ma<3> F = sample(vp_pick("F",0,2)); T la = vp_real("lambda",0.1,10), mu = vp_real("mu",0.1,10); auto d = data(ty, la, mu); law q; auto R = q.compute_whole3D(F, d); const T h = 1./1024; constexpr int D = 3;
    auto W = [&](const Ma<3>& f) { law z; z.compute_whole3D(f, d); return z.compute_energy(d); }; auto P = [&](const Ma<3>& f) { law z; return z.compute_whole3D(f, d).first; };
    IJ { Ma<3> a = F, b = F, a2 = F, b2 = F; a(i,j) += h; b(i,j) -= h; a2(i,j) += 2*h; b2(i,j) -= 2*h; vp_close((8*(W(a)-W(b))-(W(a2)-W(b2)))/(12*h), R.first(i,j), 1e-6, "stress is the derivative of the energy"); Ma<3> dP = (8*(P(a)-P(b))-(P(a2)-P(b2)))/(12*h), E = Ma<3>::Zero(); E(i,j) = 1; same<3>(dd<3>(R.second, E), dP, 1e-5, "tangent is the derivative of the stress"); } }
VP_H(P35_derivatives_neohookean) { deriv_<false>(); } VP_H(P35_derivatives_cavitation) { deriv_<true>(); }
template<bool CAV> static void refused() { using law = std::conditional_t<CAV, Cavitation_qp<T,3>, Neohookean_qp<T,3>>; Ma<3> F = sample(vp_pick("F",0,2)); int r = vp_pick("row",0,2), zero = vp_pick("zero",0,1); for (int j = 0; j < 3; j++) F(r,j) = zero ? 0 : -F(r,j); law q; bool t = false; try { q.compute_whole3D(F, data(vp_pick("U",1,6), 1, 1)); } catch (const std::invalid_argument&) { t = true; } vp_check(t, "a deformation with a determinant that is not positive is refused"); bool u = false; law z; try { z.compute_whole3D(sample(0), data(vp_pick("V",0,1)*7, 1, 1)); } catch (const std::invalid_argument&) { u = true; } vp_check(u, "unknown volumetric functions are refused"); }
VP_H(P35_refused_neohookean) { refused<false>(); } VP_H(P35_refused_cavitation) { refused<true>(); }
template<int D> static Ma<3> ext(const Ma<D>& a) { Ma<3> r = Ma<3>::Zero(); IJ r(i,j) = a(i,j); return r; }
template<int D> static void elastic() { T la = vp_real("lambda",-1,10), mu = vp_real("mu",0.1,10); auto d = data(0, la, mu); auto e = symm<D>("e"); LinearElasticity_qp<T,D> q; auto R = q.compute_whole(e, d); Ma<D> s = 2*mu*e + la*e.trace()*Ma<D>::Identity(); same<D>(R.first, s, 1e-9, "stress"); auto H = mat<D>("H"); Ma<D> o = mu*(H+H.transpose()) + la*H.trace()*Ma<D>::Identity(); same<D>(dd<D>(R.second, H), o, 1e-9, "tangent"); Ma<3> s3 = 2*mu*ext<D>(e) + la*e.trace()*Ma<3>::Identity(); same<3>(q.compute_stress3D(d), s3, 1e-9, "3D stress"); same<D>(q.getTotalStrain(), e, 0, "total strain"); same<3>(q.getElasticStrain(), ext<D>(e), 0, "elastic strain"); same<3>(q.getPlasticStrain(), Ma<3>::Zero(), 0, "no plastic strain"); vp_check(!q.is_plastic() && q.getEquivalentPlasticStrain() == 0, "elastic"); q.update(); auto f = symm<D>("f"); q.compute_whole(f, d); same<D>(q.compute_stressPrev(d), s, 1e-9, "previous stress"); same<3>(q.compute_stress3DPrev(d), s3, 1e-9, "previous 3D stress"); same<D>(q.getTotalStrainPrev(), e, 0, "previous strain"); same<D>(q.getTotalStrain(), f, 0, "total strain"); }
VP_H(P35_elastic2) { elastic<2>(); } VP_H(P35_elastic3) { elastic<3>(); }
template<int D> static void linear() { T la = vp_real("lambda",-1,10); auto d = data(0, la, 1); auto G = mat<D>("G"), H = mat<D>("H"); LinearLaw_qp<T,D> q; auto R = q.compute_whole(G, d); Ma<D> a = la*G, b = la*H; same<D>(R.first, a, 1e-9, "stress"); same<D>(dd<D>(R.second, H), b, 1e-9, "tangent"); same<D>(q.compute_stress(d), a, 1e-9, "stress of the stored strain"); }
VP_H(P35_linear2) { linear<2>(); } VP_H(P35_linear3) { linear<3>(); }
// Hencky-Mises: sigma = 2 mu~ dev e + ... with mu~ = mu (1 + (1+|dev e|^2)^(-1/2)), lambda~ chosen so that the bulk modulus lambda~ + mu~/2 does not change
VP_H(P35_hencky) { constexpr int D = 2; T la = vp_real("lambda",-1,10), mu = vp_real("mu",0.1,10); auto d = data(0, la, mu); auto e = symm<2>("e"); HenckyMises_qp<T,2> q; auto R = q.compute_whole(e, d); T m = (e(0,0)+e(1,1))/2; Ma<2> dv = e - m*Ma<2>::Identity(); T n2 = dv(0,0)*dv(0,0)+dv(1,1)*dv(1,1)+2*dv(0,1)*dv(0,1); T s = std::sqrt(1+n2); IJ vp_close(s*(R.first(i,j) - (i == j ? 2*m*(la+mu) : T(0))), mu*(s+1)*dv(i,j), 1e-8, "stress: bulk part linear, deviatoric part softened"); same<2>(q.compute_stress(d), R.first, 0, "stress of the stored strain"); }
