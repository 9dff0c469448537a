//@bound every kind of cell, one fixed shape each; face degree 0..2 on the triangle, 0..1 on other 2D cells and the tetrahedron, 0 on box and prism (exactness 0..2 in 2D); cell degree equal, one more, one less; every vector of unknowns, every polynomial field of degree k+1
//@link jb
//@link triangle
#include "hho.hpp"
using namespace vp;
static disk::hho_degree_info hdi(size_t cd, size_t fd, size_t gd) { return disk::hho_degree_info(cd, fd, gd); }
template<typename M, typename C> static VectorDofs<M,C> dofs(const M& m, const C& cl, size_t cd, size_t fd) { return VectorDofs<M,C>(m, cl, cd, fd, symvec("v", vsdim<M>(cd) + faces(m,cl).size()*vfdim<M>(fd))); }
// od reconstructs sum c_i tau_i(x)
template<typename M, typename C, typename OD, typename Tau> static void defined(const M& m, const C& cl, size_t cd, size_t fd, size_t deg, const OD& od, Tau tau) {
    auto s = dofs(m, cl, cd, fd); Mat S = weak_gradient(m, cl, deg, std::max(cd,fd), tau, od.first, s, s.u, "the reconstruction is the weak (symmetric) gradient"); close_mat(od.second, od.first.transpose()*S*od.first, 1e-6, "the local matrix is the energy");
}
template<typename M, typename C, typename OD, typename Tau> static void exact(const M& m, const C& cl, size_t cd, size_t fd, const OD& od, Tau tau, bool sym) {
    const size_t D = M::dimension; typedef disk::point<T,D> P; std::vector<decltype(poly("c",1,P()))> p; for (size_t a = 0; a < D; a++) p.push_back(poly("c", fd+1, P())); P x = sympt<D>("x",1);
    Vec I = disk::project_function(m, cl, disk::hho_degree_info(cd,fd), [&](const P& y) { Eigen::Matrix<T,D,1> r; for (size_t a = 0; a < D; a++) r(a) = p[a](y); return r; }, 2);
    Vec c = mul(od.first, I); Mats t = tau(x); for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) { T s = 0; for (size_t q = 0; q < t.size(); q++) s += c(q)*t[q](i,j); T e = diff(p[i],j)(x); if (sym) e = (e + diff(p[j],i)(x))/2; vp_close(s, e, 1e-5, "exact on polynomial fields of degree k+1"); }
}
template<typename M, typename C> static void every(const M& m, const C& cl, size_t cd, size_t fd, int var, bool ex) {
    const size_t D = M::dimension; typedef disk::point<T,D> P; disk::MeshDegreeInfo<M> mi(m, cd, fd, fd); auto h = hdi(cd,fd,fd); bool inf = (faces(m, cl).size() + cd) % 2;
    auto go = [&](const auto& od, auto tau, bool sym) { if (ex) exact(m, cl, cd, fd, od, tau, sym); else defined(m, cl, cd, fd, fd, od, tau); };
    if (var == 0) { auto gb = disk::make_matrix_monomial_basis(m, cl, fd); go(inf ? disk::make_matrix_hho_gradrec(m, cl, mi) : disk::make_matrix_hho_gradrec(m, cl, h), [=](const P& x) { return list(gb.eval_functions(x)); }, false); }
    if (var == 1) { auto gb = disk::make_sym_matrix_monomial_basis(m, cl, fd); go(inf ? disk::make_matrix_hho_symmetric_gradrec(m, cl, mi) : disk::make_matrix_hho_symmetric_gradrec(m, cl, h), [=](const P& x) { return list(gb.eval_functions(x)); }, true); }
    if (var == 2) { auto rb = disk::make_vector_monomial_basis(m, cl, fd+1); auto sc = disk::make_scalar_hho_laplacian(m, cl, h); go(inf ? disk::make_vector_hho_laplacian(m, cl, h, sc) : disk::make_vector_hho_laplacian(m, cl, h), [=](const P& x) { return tail(list(rb.eval_gradients(x)), D); }, false); }
    if (var == 3) { auto rb = disk::make_vector_monomial_basis(m, cl, fd+1); auto od = inf ? disk::make_vector_hho_symmetric_laplacian(m, cl, mi) : disk::make_vector_hho_symmetric_laplacian(m, cl, h); go(od, [=](const P& x) { Mats r; for (auto& g : rb.eval_gradients(x)) r.push_back(symm(g)); return tail(r, D); }, true);
        Vec v = symvec("w", od.first.cols()); Vec c = mul(od.first, v); Mat sk = Mat::Zero(D, D); for (auto& q : disk::integrate(m, cl, fd)) { auto g = rb.eval_gradients(q.point()); for (int i = 0; i < c.size(); i++) sk += q.weight()*c(i)*(g[i+D] - g[i+D].transpose()); } for (size_t i = 0; i < D; i++) for (size_t j = 0; j < i; j++) vp_close(sk(i,j), 0, 1e-7, "the reconstruction has no mean rotation"); }
}
VP_H(P24_fields2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",1,k == 0 ? 2 : 1), var = vp_pick("operator",0,3); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { every(m, cl, cd, fd, var, false); }); }
VP_H(P24_fields2_low) { int k = vp_pick("cell",0,3), var = vp_pick("operator",0,2); size_t cd = celdeg(vp_pick("mode",0,1), 0); with_cell2(k, [&](auto& m, auto cl) { every(m, cl, cd, 0, var, false); }); }
VP_H(P24_fields3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,k == 0 ? 1 : 0), var = vp_pick("operator",0,3); if (var == 3 && fd == 0) return; size_t cd = celdeg(vp_pick("mode",0,1), fd); with_cell3(k, [&](auto& m, auto cl) { every(m, cl, cd, fd, var, false); }); }
VP_H(P24_fields_exact2) { int k = vp_pick("cell",0,3), var = vp_pick("operator",0,3), fd = vp_pick("face", 0, 2); size_t cd = celdeg(vp_pick("mode",0,2), fd); if (var == 3 && fd == 0) return; with_cell2(k, [&](auto& m, auto cl) { every(m, cl, cd, fd, var, true); }); }
VP_H(P24_fields_exact3) { int k = vp_pick("cell",0,2), var = vp_pick("operator",0,3), fd = vp_pick("face", 0, k == 0 ? 1 : 0); if (var == 3 && fd == 0) return; size_t cd = celdeg(vp_pick("mode",0,k == 0 ? 2 : 1), fd); with_cell3(k, [&](auto& m, auto cl) { every(m, cl, cd, fd, var, true); }); }
