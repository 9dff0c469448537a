//@bound cells: triangle, quadrilateral, pentagon, tetrahedron; up to 6 cell unknowns and 18 face unknowns; every right-hand side and face solution; the cell block is symbolic up to 2x2 and one fixed symmetric positive definite matrix above, the other blocks are symbolic on triangles of degree 0 and have one symbolic row and column above
//@link triangle
//@link jb
#include "hho.hpp"
#include "diskpp/methods/hho_assemblers.hpp"
using namespace vp;
struct Sys { Mat K; Vec b, uF; size_t nT, nF; };
// a local matrix with a symmetric positive definite cell block; the rest is arbitrary
static Sys make(size_t nT, size_t nF, bool full, bool cellonly) {
    Sys s; s.nT = nT; s.nF = nF; size_t n = nT + nF; s.K = Mat(n, n);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) s.K(i,j) = full ? vp_real("K", -1, 1) : 0.25*std::cos(1.3*i + 0.7*j + 0.3*i*j);
    if (!full) { for (size_t i = nT; i < n; i++) { s.K(i,0) = vp_real("Kft", -1, 1); s.K(0,i) = vp_real("Ktf", -1, 1); s.K(i,n-1) = vp_real("Kff", -1, 1); } }
    for (size_t i = 0; i < nT; i++) for (size_t j = 0; j < nT; j++) s.K(i,j) = (nT == 1 || (nT == 2 && nF <= 3)) ? (i == j ? vp_real("d", 2, 3) : i > j ? vp_real("o", -1, 1) : 0) : (i == j ? 2.0 + 0.5*i : 0.25*std::cos(1.0*(i+j+2)*(i > j ? i : j)));
    for (size_t i = 0; i < nT; i++) for (size_t j = i+1; j < nT; j++) s.K(i,j) = s.K(j,i);
    s.b = symvec("b", cellonly ? nT : n); s.uF = symvec("u", nF); return s;
}
static T row(const Sys& s, size_t i, const Vec& u) { T r = 0; for (int j = 0; j < u.size(); j++) r += s.K(i,j)*u(j); return r; }
// the recovered solution satisfies the cell equations and keeps the face values; the condensed residual is the residual of the face equations
static void verify(const Sys& s, const Mat& AC, const Vec& bC, const Vec& u) {
    vp_check(size_t(u.size()) == s.nT + s.nF && size_t(AC.rows()) == s.nF && size_t(AC.cols()) == s.nF && size_t(bC.size()) == s.nF, "sizes");
    for (size_t i = 0; i < s.nF; i++) vp_close(u(s.nT+i), s.uF(i), 1e-12, "the face values are kept");
    for (size_t i = 0; i < s.nT; i++) vp_close(row(s, i, u), s.b(i), 1e-7, "the recovered cell unknowns satisfy the cell equations");
    Vec c = mul(AC, s.uF); for (size_t i = 0; i < s.nF; i++) vp_close(row(s, s.nT+i, u) - (size_t(s.b.size()) > s.nT ? s.b(s.nT+i) : T(0)), c(i) - bC(i), 1e-7, "the condensed residual is the residual of the face equations");
}
static void withmatrix(const Sys& s, const Mat& AL, const Vec& bL) {
    vp_check(size_t(AL.rows()) == s.nT && size_t(AL.cols()) == s.nF && size_t(bL.size()) == s.nT, "sizes of the lifting");
    for (size_t i = 0; i < s.nT; i++) { T z = 0; for (size_t k = 0; k < s.nT; k++) z += s.K(i,k)*bL(k); vp_close(z, s.b(i), 1e-7, "the lifted right-hand side solves the cell problem"); for (size_t j = 0; j < s.nF; j++) { T y = 0; for (size_t k = 0; k < s.nT; k++) y += s.K(i,k)*AL(k,j); vp_close(y, s.K(i,s.nT+j), 1e-7, "the lifting solves the cell problem"); } }
}
template<typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
template<typename M, typename C> static void scalar(const M& m, const C& cl, size_t cd, size_t fd, bool full) {
    disk::hho_degree_info h(cd, fd); size_t nT = sdim<M>(cd), nF = faces(m, cl).size()*fdim<M>(fd); bool co = vp_pick("cell only",0,1); Sys s = make(nT, nF, full, co);
    auto A = disk::make_scalar_static_condensation(m, cl, h, s.K, s.b); auto W = disk::make_scalar_static_condensation_withMatrix(m, cl, h, s.K, s.b);
    verify(s, A.first, A.second, disk::make_scalar_static_decondensation(m, cl, h, s.K, s.b, s.uF));
    verify(s, std::get<0>(W).first, std::get<0>(W).second, disk::make_scalar_static_decondensation_withMatrix<T>(std::get<1>(W), std::get<2>(W), s.uF)); withmatrix(s, std::get<1>(W), std::get<2>(W));
}
VP_H(P25_scalar_triangle) { bool hi = vp_bool("mixed"); with_cell2(0, [&](auto& m, auto cl) { scalar(m, cl, 0, 0, !hi); }); }
VP_H(P25_scalar2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,1); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { scalar(m, cl, cd, fd, false); }); }
VP_H(P25_scalar3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,k == 0 ? 1 : 0); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell3(k, [&](auto& m, auto cl) { scalar(m, cl, cd, fd, false); }); }
template<typename M, typename C> static void vec(const M& m, const C& cl, size_t cd, size_t fd) {
    disk::hho_degree_info h(cd, fd); disk::MeshDegreeInfo<M> mi(m, cd, fd, fd); size_t nT = vsdim<M>(cd), nF = faces(m, cl).size()*vfdim<M>(fd); bool co = vp_pick("cell only",0,1); int var = vp_pick("interface",0,co ? 1 : 2); Sys s = make(nT, nF, false, co);
    auto A = disk::make_vector_static_condensation(m, cl, h, s.K, s.b);
    verify(s, A.first, A.second, disk::make_vector_static_decondensation(m, cl, h, s.K, s.b, s.uF));
    auto W = var == 0 ? disk::make_vector_static_condensation_withMatrix(m, cl, h, s.K, s.b) : disk::make_vector_static_condensation_withMatrix(m, cl, mi, s.K, s.b, var == 1);
    verify(s, std::get<0>(W).first, std::get<0>(W).second, disk::make_vector_static_decondensation_withMatrix<T>(std::get<1>(W), std::get<2>(W), s.uF)); withmatrix(s, std::get<1>(W), std::get<2>(W));
}
VP_H(P25_vector2) { int k = vp_pick("cell",0,3); size_t cd = vp_pick("celldeg",0,1); with_cell2(k, [&](auto& m, auto cl) { vec(m, cl, cd, 0); }); }
VP_H(P25_vector3) { with_cell3(0, [&](auto& m, auto cl) { vec(m, cl, 0, 0); }); }
struct Basis { size_t n; size_t size() const { return n; } };
VP_H(P25_schur) { size_t nT = vp_pick("nT",1,6), nF = vp_pick("nF",1,4); Sys s = make(nT, nF, nT == 1 && nF < 4, false); Basis b{nT}; disk::dynamic_matrix<T> K = s.K; disk::dynamic_vector<T> r = s.b, uF = s.uF; auto A = disk::hho::schur(K, r, b); verify(s, A.first, A.second, disk::hho::deschur(K, r, uF, b)); }
// a right-hand side of the wrong size is refused, one of either right size is not
VP_H(P25_sizes) { size_t n = vp_pick("size",0,14); bool v = vp_bool("vector"); with_cell2(0, [&](auto& m, auto cl) { disk::hho_degree_info h(1, v ? 0 : 1); size_t nT = v ? 6 : 3, nF = 6; Sys s = make(nT, nF, false, false); Vec b = symvec("r", n); bool ok = n == nT || n == nT + nF;
    bool t = throws([&]() { if (v) disk::make_vector_static_condensation(m, cl, h, s.K, b); else disk::make_scalar_static_condensation(m, cl, h, s.K, b); }); vp_check(t == !ok, "right-hand sides of the wrong size are refused"); }); }
