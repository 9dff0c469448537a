//@bound stabilizations and boundary terms: tetrahedron, box and prism, one fixed shape each, face degree 0..1 (1 for the Nedelec spaces), cell degree equal, one more, one less; every vector of unknowns and every polynomial field; impedances any number of magnitude up to 2; condensation: up to three cell and three face unknowns, cell block symbolic up to 2x2
//@link jb
//@link triangle
#include "hho.hpp"
#include "diskpp/methods/implementation_hho/curl.hpp"
using namespace vp;
typedef Eigen::Matrix<T,3,1> V3d;
static disk::hho_degree_info hdi(size_t cd, size_t fd, size_t rd) { return disk::hho_degree_info(disk::priv::hdi_named_args{.rd = rd, .cd = cd, .fd = fd}); }
static V3d cross(const V3d& a, const V3d& b) { return V3d(a(1)*b(2)-a(2)*b(1), a(2)*b(0)-a(0)*b(2), a(0)*b(1)-a(1)*b(0)); }
static V3d comb(const Mat& f, const Vec& c, int o) { V3d r(0,0,0); for (int i = 0; i < f.rows(); i++) for (int a = 0; a < 3; a++) r(a) += c(o+i)*f(i,a); return r; }
template<bool N, typename M, typename F> static auto fbasis(const M& m, const F& fc, size_t d) { if constexpr (N) return disk::make_vector_monomial_nedelec_tangential_basis(m, fc, d); else return disk::make_vector_monomial_tangential_basis(m, fc, d); }
static size_t tsize(bool n, size_t d) { return n ? d*(d+1)+d+2 : (d+1)*(d+2); }
static size_t dof3(size_t cd, size_t nf, bool n, size_t fd) { return (cd+1)*(cd+2)*(cd+3)/2 + nf*tsize(n, fd); }
// sum over the faces of s_F || P_F (v_F - tangential part of u) ||^2
template<bool N, typename M, typename C, typename U, typename Sc> static T jump(const M& m, const C& cl, size_t cd, size_t fd, size_t deg, const Vec& v, U u, Sc sc) { T r = 0; int o = (cd+1)*(cd+2)*(cd+3)/2; for (auto& fc : faces(m, cl)) { auto fb = fbasis<N>(m, fc, fd); auto n = normal(m, cl, fc); int k = fb.size(); Mat G = Mat::Zero(k,k); Vec b = Vec::Zero(k); for (auto& q : disk::integrate(m, fc, std::max<size_t>(deg,fd+1)+fd+1)) { Mat f = fb.eval_functions(q.point()); V3d w = u(q.point()); w = w - n*n.dot(w); for (int i = 0; i < k; i++) { b(i) += q.weight()*(f(i,0)*w(0)+f(i,1)*w(1)+f(i,2)*w(2)); for (int j = 0; j < k; j++) G(i,j) += q.weight()*(f(i,0)*f(j,0)+f(i,1)*f(j,1)+f(i,2)*f(j,2)); } }
    Mat Gi = G.inverse(); Vec d = mul(Gi, b); for (int i = 0; i < k; i++) d(i) = v(o+i) - d(i); r += sc(fc)*quad(d, G, d); o += k; } return r; }
static void psd_sym(const Mat& S) { for (int i = 0; i < S.rows(); i++) for (int j = 0; j < i; j++) vp_close(S(i,j), S(j,i), 1e-8, "symmetric"); vp_check(is_psd(S, 1e-7), "positive semidefinite"); }
template<typename M, typename C> static void stab(const M& m, const C& cl, size_t cd, size_t fd, int var) {
    auto h = hdi(cd,fd,fd+1); bool N = var == 1; size_t n = dof3(cd, faces(m,cl).size(), N, fd); Vec v = symvec("v", n); auto cb = disk::make_vector_monomial_basis(m, cl, cd); auto cell = [&](const P3& y) { return comb(cb.eval_functions(y), v, 0); }; auto unit = [](auto&) { return T(1); }; T d = diameter(m, cl);
    Pol3 p[3] = {Pol3("c",std::min(cd,fd)), Pol3("d",std::min(cd,fd)), Pol3("e",std::min(cd,fd))}; auto f = [&](const P3& y) { return V3d(p[0](y), p[1](y), p[2](y)); };
    if (var == 0) { Mat S = disk::curl_hdg_stabilization(m, cl, h); vp_check(size_t(S.rows()) == n && size_t(S.cols()) == n, "size"); psd_sym(S); vp_close(quad(v, S, v), jump<false>(m, cl, cd, fd, cd, v, cell, unit), 1e-6, "the stabilization is the projected tangential jump"); Vec r = mul(S, disk::project_tangent(m, cl, h, f, 2)); for (int i = 0; i < r.size(); i++) vp_close(r(i), 0, 1e-6, "it vanishes on polynomial fields"); }
    if (var == 1) { Mat S = disk::curl_hdg_stabilization_nedelec(m, cl, h); vp_check(size_t(S.rows()) == n && size_t(S.cols()) == n, "size"); psd_sym(S); vp_close(quad(v, S, v), jump<true>(m, cl, cd, fd, cd, v, cell, [&](auto&) { return 1/d; }), 1e-6, "the stabilization is the scaled projected tangential jump"); Pol3 z("z", std::min(cd,fd)+1); auto g = [&](const P3& y) { return V3d(z.diff(0)(y), z.diff(1)(y), z.diff(2)(y)); }; Vec r = mul(S, disk::project_tangent_nedelec(m, cl, h, g, 2)); for (int i = 0; i < r.size(); i++) vp_close(r(i), 0, 1e-6, "it vanishes on gradients of polynomials"); }
    if (var == 2) { T mu = 1, j = vp_pick("j",1,2), Z = vp_pick("Z",1,2); Mat S = disk::curl_Z_stabilization(m, cl, h, mu, j, Z); vp_check(size_t(S.rows()) == n && size_t(S.cols()) == n, "size"); vp_close(quad(v, S, v), jump<false>(m, cl, cd, fd, cd, v, cell, [&](auto&) { return j*j/(Z*Z); }), 1e-6, "the impedance stabilization is the scaled projected tangential jump"); }
    if (var == 3) { Mat R = disk::curl_reconstruction(m, cl, h).first; Mat S = disk::curl_hho_stabilization(m, cl, R, h); vp_check(size_t(S.rows()) == n && size_t(S.cols()) == n, "size"); psd_sym(S); Vec r = mul(R, v); auto rb = disk::make_vector_monomial_basis(m, cl, fd+1); auto rec = [&](const P3& y) { V3d s(0,0,0); Mat e = rb.eval_functions(y); for (int i = 3; i < e.rows(); i++) for (int a = 0; a < 3; a++) s(a) += r(i-3)*e(i,a); return s; }; Vec pr = disk::project_function(m, cl, cd, rec, 2); for (int i = 0; i < pr.size(); i++) pr(i) = v(i) - pr(i);
        vp_close(quad(v, S, v), jump<false>(m, cl, cd, fd, fd+1, v, [&](const P3& y) { V3d a = rec(y) + comb(cb.eval_functions(y), pr, 0); return a; }, [&](auto& fc) { return 1/diameter(m, fc); }), 1e-6, "the high order stabilization is the scaled projected jump"); }
}
VP_H(P28_stab) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,1), var = vp_pick("operator",0,3); if (var == 1 && fd == 0) return; size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell3(k, [&](auto& m, auto cl) { stab(m, cl, cd, fd, var); }); }
// mass of the cell unknowns, impedance of the boundary faces, plane waves
VP_H(P28_terms) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,1); size_t cd = celdeg(vp_pick("mode",0,1), fd); T z = vp_real("z",-2,2); Pol3 p[3] = {Pol3("c",fd), Pol3("d",fd), Pol3("e",fd)}; auto f = [&](const P3& y) { return V3d(p[0](y), p[1](y), p[2](y)); }; with_cell3(k, [&](auto& m, auto cl) {
    auto h = hdi(cd,fd,fd+1); auto fcs = faces(m, cl); int n = dof3(cd, fcs.size(), false, fd), nT = (cd+1)*(cd+2)*(cd+3)/2, nf = tsize(false, fd); auto cb = disk::make_vector_monomial_basis(m, cl, cd); Mat A = disk::make_vector_mass_oper(m, cl, h), E = Mat::Zero(n,n); for (auto& q : disk::integrate(m, cl, 2*cd)) { Mat e = cb.eval_functions(q.point()); for (int i = 0; i < nT; i++) for (int j = 0; j < nT; j++) E(i,j) += q.weight()*(e(i,0)*e(j,0)+e(i,1)*e(j,1)+e(i,2)*e(j,2)); } close_mat(A, E, 1e-9, "mass of the cell unknowns");
    auto bi = m.backend_storage(); size_t g = 0; for (auto& b : bi->boundary_info) { b = g == 1 ? disk::boundary_descriptor() : disk::boundary_descriptor(g % 2, true); g++; }
    auto Yy = disk::make_impedance_term(m, cl, h, 0, z); Mat Y = Mat::Zero(n,n); Vec y = Vec::Zero(n); for (size_t i = 0; i < fcs.size(); i++) { auto fb = disk::make_vector_monomial_tangential_basis(m, fcs[i], fd); Mat S = Mat::Zero(nf,nf); Vec s = Vec::Zero(nf), w = Vec::Zero(nf); for (auto& q : disk::integrate(m, fcs[i], 2*fd)) { Mat e = fb.eval_functions(q.point()); V3d v = f(q.point()); for (int a = 0; a < nf; a++) { s(a) += q.weight()*e(a,2); w(a) += q.weight()*(e(a,0)*v(0)+e(a,1)*v(1)+e(a,2)*v(2)); for (int b = 0; b < nf; b++) S(a,b) += q.weight()*(e(a,0)*e(b,0)+e(a,1)*e(b,1)+e(a,2)*e(b,2)); } }
        close_mat(disk::make_impedance_term(m, fcs[i], fd), S, 1e-9, "impedance of a face"); auto pw = disk::make_plane_wave_term(m, fcs[i], fd, f); close_mat(pw.first, S, 1e-9, "impedance of a face"); for (int a = 0; a < nf; a++) vp_close(pw.second(a), w(a), 1e-9, "source of a face"); bool on = m.is_boundary(fcs[i]) && m.boundary_id(fcs[i]) == 0; if (on) { Y.block(nT+i*nf, nT+i*nf, nf, nf) = z*S; y.segment(nT+i*nf, nf) = z*s; } }
    close_mat(Yy.first, Y, 1e-8, "impedance of the faces with the boundary id"); for (int i = 0; i < n; i++) vp_close(Yy.second(i), y(i), 1e-8, "source of the faces with the boundary id"); }); }
// tangential interpolation and its complex form
VP_H(P28_projection) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,1); size_t cd = celdeg(vp_pick("mode",0,1), fd); Pol3 p[3] = {Pol3("c",fd+1), Pol3("d",fd+1), Pol3("e",fd+1)}, r[3] = {Pol3("cr",fd), Pol3("dr",fd), Pol3("er",fd)}; auto f = [&](const P3& y) { return V3d(p[0](y), p[1](y), p[2](y)); }; with_cell3(k, [&](auto& m, auto cl) { auto h = hdi(cd,fd,fd+1); Vec I = disk::project_tangent(m, cl, h, f, 2); auto cb = disk::make_vector_monomial_basis(m, cl, cd); auto fcs = faces(m, cl); int nT = cb.size(), nf = tsize(false, fd); vp_check(I.size() == nT + int(fcs.size())*nf, "size");
    Vec z = Vec::Zero(nT); for (auto& q : disk::integrate(m, cl, cd+fd+2)) { Mat e = cb.eval_functions(q.point()); V3d d = comb(e, I, 0) - f(q.point()); for (int i = 0; i < nT; i++) z(i) += q.weight()*(e(i,0)*d(0)+e(i,1)*d(1)+e(i,2)*d(2)); } for (int i = 0; i < nT; i++) vp_close(z(i), 0, 1e-7, "the cell part is the projection");
    auto g = [&](const P3& y) { Eigen::Matrix<std::complex<T>,3,1> u; for (int a = 0; a < 3; a++) u(a) = std::complex<T>(p[a](y), r[a](y)); return u; };
    for (size_t i = 0; i < fcs.size(); i++) { auto fb = disk::make_vector_monomial_tangential_basis(m, fcs[i], fd); Vec s = Vec::Zero(nf), t = Vec::Zero(nf); Vec J = disk::project_tangent(m, fcs[i], fd, f, 2); for (auto& q : disk::integrate(m, fcs[i], 2*fd+2)) { Mat e = fb.eval_functions(q.point()); V3d d = comb(e, I, nT+i*nf) - f(q.point()), w = comb(e, J, 0) - f(q.point()); for (int a = 0; a < nf; a++) { s(a) += q.weight()*(e(a,0)*d(0)+e(a,1)*d(1)+e(a,2)*d(2)); t(a) += q.weight()*(e(a,0)*w(0)+e(a,1)*w(1)+e(a,2)*w(2)); } } for (int a = 0; a < nf; a++) { vp_close(s(a), 0, 1e-7, "the face part is the projection of the tangential trace"); vp_close(t(a), 0, 1e-7, "projection on a face"); } } }); }
// cross products of a field and the normal
VP_H(P28_cross) { int n = vp_pick("rows",1,3); Eigen::Matrix<T,-1,3> F = symmat("F", n, 3); Eigen::Matrix<T,-1,2> G = symmat("G", n, 2); disk::static_vector<T,3> a; disk::static_vector<T,2> b; for (int i = 0; i < 3; i++) a(i) = vp_real("a",-1,1); for (int i = 0; i < 2; i++) b(i) = vp_real("b",-1,1); auto l = disk::vcross(a, F), r = disk::vcross(F, a); auto u = disk::vcross(b, G), w = disk::vcross(G, b); for (int i = 0; i < n; i++) { V3d x(F(i,0),F(i,1),F(i,2)), y = cross(V3d(a(0),a(1),a(2)), x); for (int c = 0; c < 3; c++) { vp_close(l(i,c), y(c), 1e-12, "n x F"); vp_close(r(i,c), -y(c), 1e-12, "F x n"); } T z = b(0)*G(i,1) - b(1)*G(i,0); vp_close(u(i), z, 1e-12, "n x F in the plane"); vp_close(w(i), -z, 1e-12, "F x n in the plane"); } }
// condensation
VP_H(P28_condense) { int nT = vp_pick("cell",1,3), nF = vp_pick("face",1,3); Mat K = symmat("K", nT+nF, nT+nF); for (int i = 0; i < nT; i++) for (int j = 0; j < nT; j++) { if (nT > 1) K(i,j) = i == j ? 2 + i : 0.5/(i+j); else vp_assume(K(0,0) > 0.25); } Vec b = symvec("b", nT+nF), uF = symvec("u", nF); disk::dynamic_matrix<T> A = K; disk::dynamic_vector<T> rb = b, ru = uF; auto [C, c] = disk::static_condensation(A, rb, nT); disk::dynamic_matrix<T> C2 = disk::static_condensation(A, size_t(nT)); auto u = disk::static_decondensation(A, rb, ru); vp_check(C.rows() == nF && c.size() == nF && u.size() == nT+nF, "sizes"); Vec r = mul(K, u); for (int i = 0; i < nT; i++) vp_close(r(i), b(i), 1e-7, "the cell equations hold"); Vec z = mul(C, uF); for (int i = 0; i < nF; i++) { vp_close(u(nT+i), uF(i), 1e-12, "face unknowns are kept"); vp_close(r(nT+i) - b(nT+i), z(i) - c(i), 1e-6, "the condensed system has the residual of the face equations"); } close_mat(C, C2, 1e-9, "condensed matrix");
    Mat U(nF, 2); for (int i = 0; i < nF; i++) { U(i,0) = uF(i); U(i,1) = i == 0; } disk::dynamic_matrix<T> D = disk::static_decondensation(A, disk::dynamic_matrix<T>(U)); vp_check(D.rows() == nT+nF && D.cols() == 2, "sizes"); for (int q = 0; q < 2; q++) { Vec s = mul(K, D.col(q)); for (int i = 0; i < nT; i++) vp_close(s(i), 0, 1e-7, "the homogeneous cell equations hold"); for (int i = 0; i < nF; i++) vp_close(D(nT+i,q), U(i,q), 1e-12, "face unknowns are kept"); } }
