//@bound dimensions 2 and 3; every entry of the matrices and tensors symbolic, deformation gradients any matrix with diagonal entries in [0.7,1.5] and off-diagonal entries in [-0.1,0.1]
//@assume symmetric tensors are given to the conversions that store a symmetric form
#include "meshes.hpp"
#include "diskpp/mechanics/behaviors/maths_tensor.hpp"
#include "diskpp/mechanics/behaviors/maths_utils.hpp"
#include "diskpp/mechanics/behaviors/tensor_conversion.hpp"
#include "diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp"
#include "diskpp/mechanics/deformation_tensors.hpp"
#include "diskpp/mechanics/stress_tensors.hpp"
using namespace vp; using namespace disk; namespace MM = disk::mechanics;
template<int D> using Ma = static_matrix<T,D,D>; template<int D> using Te = static_tensor<T,D>;
template<int D> static Ma<D> mat(const char* n) { Ma<D> r; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) r(i,j) = vp_real(n, -1, 1); return r; }
template<int D> static Ma<D> symm(const char* n) { Ma<D> r; for (int i = 0; i < D; i++) for (int j = 0; j <= i; j++) r(i,j) = r(j,i) = vp_real(n, -1, 1); return r; }
template<int D> static Te<D> ten(const char* n) { Te<D> r; for (int i = 0; i < D*D; i++) for (int j = 0; j < D*D; j++) r(i,j) = vp_real(n, -1, 1); return r; }
template<int D> static Ma<D> def(const char* n) { Ma<D> r; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) r(i,j) = i == j ? vp_real(n, 0.7, 1.5) : vp_real(n, -0.1, 0.1); return r; }
// minor symmetric tensor
template<int D> static T& at(Te<D>& t, int i, int j, int k, int l) { return t(i*D+k, j*D+l); }
template<int D> static T at(const Te<D>& t, int i, int j, int k, int l) { return t(i*D+k, j*D+l); }
template<int D> static Te<D> sten(const char* n) { Te<D> r; for (int i = 0; i < D; i++) for (int j = 0; j <= i; j++) for (int k = 0; k < D; k++) for (int l = 0; l <= k; l++) { T v = vp_real(n, -1, 1); at<D>(r,i,j,k,l) = at<D>(r,j,i,k,l) = at<D>(r,i,j,l,k) = at<D>(r,j,i,l,k) = v; } return r; }
static T dt(const Ma<3>& a) { return a(0,0)*(a(1,1)*a(2,2)-a(1,2)*a(2,1))-a(0,1)*(a(1,0)*a(2,2)-a(1,2)*a(2,0))+a(0,2)*(a(1,0)*a(2,1)-a(1,1)*a(2,0)); }
#define IJKL for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) for (int k = 0; k < D; k++) for (int l = 0; l < D; l++)
#define IJ for (int i = 0; i < D; i++) for (int j = 0; j < D; j++)
template<int D> static Ma<D> dd(const Te<D>& A, const Ma<D>& B) { Ma<D> r = Ma<D>::Zero(); IJKL r(i,j) += at<D>(A,i,j,k,l)*B(k,l); return r; }
template<int D> static void same(const Ma<D>& a, const Ma<D>& b, const char* l) { IJ vp_close(a(i,j), b(i,j), 1e-9, l); }
template<int D> static void same4(const Te<D>& a, const Te<D>& b, const char* l) { for (int i = 0; i < D*D; i++) for (int j = 0; j < D*D; j++) vp_close(a(i,j), b(i,j), 1e-9, l); }
template<int D> static void products() { auto A = ten<D>("A"); auto B = mat<D>("B"), C = mat<D>("C");
    IJKL vp_close(coeff<T,D>(A,i,j,k,l), at<D>(A,i,j,k,l), 0, "coefficients"); { Te<D> Z = A; coeff<T,D>(Z, 0, 1, D-1, 0, T(7)); Te<D> W = A; at<D>(W,0,1,D-1,0) = 7; same4<D>(Z, W, "one coefficient is set"); }
    same<D>(tm_prod<T,D>(A, B), dd<D>(A, B), "tensor times matrix"); same<D>(ContractedProduct<T,D>(A, B), dd<D>(A, B), "tensor times matrix"); Ma<D> L = Ma<D>::Zero(); IJKL L(k,l) += B(i,j)*at<D>(A,i,j,k,l); same<D>(tm_prod<T,D>(B, A), L, "matrix times tensor"); same<D>(ContractedProduct<T,D>(B, A), L, "matrix times tensor");
    int r = vp_pick("row",0,D-1), c = vp_pick("col",0,D-1); Ma<D> E = Ma<D>::Zero(); E(r,c) = B(r,c); same<D>(tm_prod<T,D>(A, B, r, c), dd<D>(A, E), "tensor times one coefficient");
    same4<D>(transpose<T,D>(A), [&] { Te<D> t; IJKL at<D>(t,i,j,k,l) = at<D>(A,k,l,i,j); return t; }(), "transposition");
    T s = 0; IJ s += B(i,j)*C(i,j); vp_close((InnerProduct<T,D>(B, C)), s, 1e-9, "inner product"); Te<D> o; IJKL at<D>(o,i,j,k,l) = B(i,j)*C(k,l); same4<D>(Kronecker<T,D>(B, C), o, "tensor product of matrices");
    IJKL at<D>(o,i,j,k,l) = B(i,k)*C(j,l); same4<D>(ProductSup<T,D>(B, C), o, "upper product"); IJKL at<D>(o,i,j,k,l) = B(i,l)*C(j,k); same4<D>(ProductInf<T,D>(B, C), o, "lower product"); IJKL at<D>(o,i,j,k,l) = (B(i,k)*C(j,l)+B(i,l)*C(j,k))/2; same4<D>(Odot<T,D>(B, C), o, "symmetrised product");
    same<D>(dd<D>(IdentityTensor4<T,D>(), B), B, "identity on matrices"); same<D>(dd<D>(IdentitySymTensor4<T,D>(), B), (B+B.transpose())/2, "identity on symmetric matrices"); same<D>(dd<D>(IxI<T,D>(), B), B.trace()*Ma<D>::Identity(), "trace");
    static_vector<T,D> u = B.col(0), v = C.col(0); Ma<D> uv; IJ uv(i,j) = u(i)*v(j); same<D>(Kronecker<T,D>(u, v), uv, "tensor product of vectors"); T d = 0; for (int i = 0; i < D; i++) d += u(i)*v(i); vp_close((InnerProduct<T,D>(u, v)), d, 1e-9, "inner product of vectors");
    auto H = deviator<T,D>(B), S = spheric<T,D>(B); vp_close(H.trace(), 0, 1e-9, "deviators have no trace"); same<D>(H+S, B, "deviator and spheric part"); IJ if (i != j) vp_close(S(i,j), 0, 0, "spheric part is diagonal"); for (int i = 0; i < D; i++) vp_close(S(i,i), B.trace()/D, 1e-9, "spheric part is the mean");
    for (int a = 0; a < 2*D*2; a++) { int q[4] = {0,0,0,0}; q[a/4 % 4] = a % 2 ? D : -1; bool t1 = false; try { coeff<T,D>(A, q[0], q[1], q[2], q[3]); } catch (const std::invalid_argument&) { t1 = true; } vp_check(t1, "wrong indices are refused"); } }
VP_H(P34_products2) { products<2>(); }
VP_H(P34_products3) { products<3>(); }
template<int D> static void contraction() { auto A = ten<D>("A"); Te<D> B = Te<D>::Zero(); int p = vp_pick("p",0,D*D-1); for (int q = 0; q < D*D; q++) B(p,q) = vp_real("B",-1,1); Te<D> o = Te<D>::Zero(); for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) IJKL at<D>(o,i,j,k,l) += at<D>(A,i,j,a,b)*at<D>(B,a,b,k,l); same4<D>(ContractedProduct<T,D>(A, B), o, "tensor times tensor"); }
VP_H(P34_contraction2) { contraction<2>(); }
VP_H(P34_contraction3) { contraction<3>(); }
VP_H(P34_restrict) { auto A = ten<3>("A"); auto B = mat<3>("B"); auto C = mat<2>("C"); { constexpr int D = 2; Te<2> r = convertTensor<T,2>(A); IJKL vp_close(at<2>(r,i,j,k,l), at<3>(A,i,j,k,l), 0, "plane part of a tensor"); Ma<2> m = convertMatrix<T,2>(B); IJ vp_close(m(i,j), B(i,j), 0, "plane part of a matrix"); Ma<3> z = convertMatrix3D(C), o = convertMatrix3DwithOne(C); { constexpr int D = 3; IJ { vp_close(z(i,j), i < 2 && j < 2 ? C(i,j) : T(0), 0, "extension by zero"); vp_close(o(i,j), i < 2 && j < 2 ? C(i,j) : T(i == j), 0, "extension by one"); } } } same4<3>(convertTensor<T,3>(A), A, "3D tensors are kept"); same<3>(convertMatrix<T,3>(B), B, "3D matrices are kept"); same<3>(convertMatrix3D(B), B, "3D matrices are kept"); same<3>(convertMatrix3DwithOne(B), B, "3D matrices are kept"); }
// vector forms: round trips and compatibility of tensors with the vectors they act on
static bool fits(int n, int i, int j) { return n == 6 || n == 9 || (i < 2 && j < 2) || i == j; }
template<int N> static void mgis() { constexpr int D = 3; bool sy = N == 4 || N == 6; Ma<3> M = sy ? symm<3>("M") : mat<3>("M"); IJ if (!fits(N,i,j)) M(i,j) = 0; std::vector<T> v(N, T(0)); convertMatrixToMgis<T,T>(M, v); Ma<3> R; convertMatrixFromMgis<T,T>(v, R); same<3>(R, M, "matrices are read back from their vector form"); T s = 0, e = 0; for (auto x : v) s += x*x; IJ e += M(i,j)*M(i,j); vp_close(s, e, 1e-9, "vector forms keep the norm");
    std::vector<T> k(N*N); for (auto& x : k) x = vp_real("K", -1, 1); Te<3> A; convertTensorFromMgis<T,T>(k, A); std::vector<T> w(N, T(0)); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) w[i] += k[i*N+j]*v[j]; Ma<3> S; convertMatrixFromMgis<T,T>(w, S); same<3>(dd<3>(A, M), S, "the tensor acts on matrices as its vector form on their vector forms"); if (sy) { IJKL { vp_close(at<3>(A,i,j,k,l), at<3>(A,j,i,k,l), 0, "minor symmetry"); vp_close(at<3>(A,i,j,k,l), at<3>(A,i,j,l,k), 0, "minor symmetry"); } } }
VP_H(P34_mgis4) { mgis<4>(); } VP_H(P34_mgis5) { mgis<5>(); } VP_H(P34_mgis6) { mgis<6>(); } VP_H(P34_mgis9) { mgis<9>(); }
VP_H(P34_mgis_sizes) { int n = vp_pick("n",0,10); bool ok = n == 4 || n == 5 || n == 6 || n == 9, t1 = false, t2 = false, t3 = false; Ma<3> M = Ma<3>::Zero(); std::vector<T> v(n, T(0)), k(n*n, T(0)); Te<3> A; try { convertMatrixToMgis<T,T>(M, v); } catch (const std::runtime_error&) { t1 = true; } try { convertMatrixFromMgis<T,T>(v, M); } catch (const std::runtime_error&) { t2 = true; } try { convertTensorFromMgis<T,T>(k, A); } catch (const std::runtime_error&) { t3 = true; } vp_check(t1 == !ok && t2 == !ok && t3 == !ok, "other sizes are refused"); }
template<int D> static void mandel() { auto A = sten<D>("A"); auto M = symm<D>("M"); auto K = convertTensorNotationMangel<T,D>(A); const T r2 = std::sqrt(2.); auto vec = [&](const Ma<D>& m) { static_vector<T,6> v = static_vector<T,6>::Zero(); v(0) = m(0,0); v(1) = m(1,1); v(3) = r2*m(0,1); if constexpr (D == 3) { v(2) = m(2,2); v(4) = r2*m(0,2); v(5) = r2*m(1,2); } return v; }; static_vector<T,6> a = K*vec(M), b = vec(dd<D>(A, M)); for (int i = 0; i < 6; i++) vp_close(a(i), b(i), 1e-9, "the 6x6 form acts as the tensor"); }
VP_H(P34_mandel2) { mandel<2>(); } VP_H(P34_mandel3) { mandel<3>(); }
template<int D> static void measures() { auto F = def<D>("F"); auto G = mat<D>("G"); Ma<D> I = Ma<D>::Identity(); same<D>(MM::convertGtoF<T,D>(G), G+I, "gradient to deformation"); same<D>(MM::convertFtoG<T,D>(F), F-I, "deformation to gradient"); same<D>(MM::convertGtoLinearizedStrain<T,D>(G), (G+G.transpose())/2, "linearized strain");
    Ma<D> C, B, E; IJ { C(i,j) = B(i,j) = 0; for (int k = 0; k < D; k++) { C(i,j) += F(k,i)*F(k,j); B(i,j) += F(i,k)*F(j,k); } E(i,j) = (C(i,j)-I(i,j))/2; } same<D>(MM::convertFtoCauchyGreenRight<T,D>(F), C, "right Cauchy-Green tensor"); same<D>(MM::convertFtoCauchyGreenLeft<T,D>(F), B, "left Cauchy-Green tensor"); same<D>(MM::convertFtoGreenLagrange<T,D>(F), E, "Green-Lagrange tensor"); Ma<D> g = F-I; same<D>(MM::convertGtoCauchyGreenRight<T,D>(g), C, "right Cauchy-Green tensor"); same<D>(MM::convertGtoCauchyGreenLeft<T,D>(g), B, "left Cauchy-Green tensor"); same<D>(MM::convertGtoGreenLagrange<T,D>(g), E, "Green-Lagrange tensor"); same<D>(MM::convertCauchyGreenRighttoGreenLagrange<T,D>(C), E, "Green-Lagrange tensor"); }
VP_H(P34_measures2) { measures<2>(); } VP_H(P34_measures3) { measures<3>(); }
template<int D> static void stresses() { auto F = def<D>("F"); auto S = symm<D>("S"); T J = F.determinant(); Ma<D> P = MM::convertPK2toPK1<T,D>(S, F); same<D>(P, F*S, "first from second Piola-Kirchhoff"); Ma<D> c = MM::convertPK2toCauchy<T,D>(S, F); same<D>(J*c, F*S*F.transpose(), "Cauchy from second Piola-Kirchhoff"); same<D>(J*MM::convertPK1toCauchy<T,D>(P, F), P*F.transpose(), "Cauchy from first Piola-Kirchhoff"); same<D>(F*MM::convertPK1toPK2<T,D>(P, F), P, "second from first Piola-Kirchhoff"); same<D>(MM::convertCauchytoPK1<T,D>(S, F)*F.transpose(), J*S, "first Piola-Kirchhoff from Cauchy"); same<D>(F*MM::convertCauchytoPK2<T,D>(S, F)*F.transpose(), J*S, "second Piola-Kirchhoff from Cauchy");
    T v = MM::VonMisesCriteria<T,D>(S), n = 0, t = S.trace()/D; IJ { T d = S(i,j) - (i == j ? t : T(0)); n += d*d; } vp_check(v >= 0, "von Mises stress is not negative"); vp_close(v*v, 1.5*n, 1e-9, "von Mises stress"); }
VP_H(P34_stresses2) { stresses<2>(); } VP_H(P34_stresses3) { stresses<3>(); }
VP_H(P34_ctoa) { constexpr int D = 3; auto F = def<3>("F"); auto S = symm<3>("S"); Te<3> C = sten<3>("C"); Te<3> Cs; IJKL at<3>(Cs,i,j,k,l) = (at<3>(C,i,j,k,l)+at<3>(C,k,l,i,j))/2; auto A = convertCtoA<T>(Cs, S, F); auto H = mat<3>("H");
    // dP = d(F S) with dS = C : dE, dE = sym(F^T dF)
    Ma<3> dE = (F.transpose()*H + H.transpose()*F)/2; Ma<3> o = H*S + F*dd<3>(Cs, dE), r = dd<3>(A, H); IJ vp_close(r(i,j), o(i,j), 1e-8, "nominal from material tangent"); }
VP_H(P34_jacobian2) { constexpr int D = 2; auto F = mat<2>("F"), H = mat<2>("H"); auto J1 = JacobianFirstDerivate(F); T s = 0; IJ s += J1(i,j)*H(i,j); vp_close(s, F(0,0)*H(1,1)+H(0,0)*F(1,1)-F(0,1)*H(1,0)-H(0,1)*F(1,0), 1e-9, "derivative of the determinant"); auto J2 = JacobianSecondDerivate(F); Ma<2> FH = F+H; same<2>(dd<2>(J2, H), JacobianFirstDerivate(FH)-J1, "second derivative of the determinant"); }
VP_H(P34_jacobian3) { constexpr int D = 3; auto F = mat<3>("F"), H = mat<3>("H"); auto J1 = JacobianFirstDerivate(F); T s = 0; IJ s += J1(i,j)*H(i,j); Ma<3> p = F+H, m = F-H; T a = dt(p) - dt(m) - 2*dt(H); vp_close(s, a/2, 1e-8, "derivative of the determinant"); auto J2 = JacobianSecondDerivate(F); Ma<3> h = (JacobianFirstDerivate(p)-JacobianFirstDerivate(m))/2; same<3>(dd<3>(J2, H), h, "second derivative of the determinant"); }
