//@bound every kind of 2D cell and the tetrahedron, box and prism, one fixed shape each; face degree 0..2 (2D; exactness 0..3), 0..2 (tetrahedron), 0..1 (box, prism); cell degree equal, one more, one less; gradient degree the face degree or one more; every vector of unknowns, every polynomial
//@link jb
//@link triangle
#include "hho.hpp"
using namespace vp;
static disk::hho_degree_info hdi(size_t cd, size_t fd, size_t gd) { return disk::hho_degree_info(cd, fd, gd); }
template<typename M, typename C, typename OD, typename GB> static void vec_gradrec(const M& m, const C& cl, size_t cd, size_t fd, size_t gd, const OD& od, const GB& gb) {
    Vec v = symvec("v", sdim<M>(cd) + faces(m,cl).size()*fdim<M>(fd)); OneDofs<M,C> s{ScalarDofs<M,C>(m, cl, cd, fd, v)};
    Mat S = weak_gradient(m, cl, gd, std::max(cd,fd), [&](auto& x) { return one(gb.eval_functions(x)); }, od.first, s, v, "the gradient reconstruction is the weak gradient");
    close_mat(od.second, od.first.transpose()*S*od.first, 1e-6, "the local matrix is the energy of the gradient");
}
template<typename M, typename C, typename OD, typename GB> static void vec_exact(const M& m, const C& cl, size_t cd, size_t fd, size_t pd, const OD& od, const GB& gb) {
    const size_t D = M::dimension; auto p = poly("c", pd, typename M::point_type()); disk::point<T,D> x = sympt<D>("x", 1); Vec I = disk::project_function(m, cl, disk::hho_degree_info(cd, fd), [&](const disk::point<T,D>& y) { return p(y); }, 2);
    Vec c = mul(od.first, I); Mat e = gb.eval_functions(x); for (size_t a = 0; a < D; a++) { T s = 0; for (int i = 0; i < c.size(); i++) s += c(i)*e(i,a); vp_close(s, diff(p,a)(x), 1e-5, "the gradient of the interpolate of a polynomial is its gradient"); }
}
VP_H(P24_vector_gradrec2) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,2), gd = fd + vp_pick("grad",0,1); size_t cd = celdeg(vp_pick("mode",0,2), fd); bool inf = k == 1; with_cell2(k, [&](auto& m, auto cl) { typedef std::decay_t<decltype(m)> M; disk::MeshDegreeInfo<M> mi(m, cd, fd, gd); auto gb = disk::make_vector_monomial_basis(m, cl, gd); vec_gradrec(m, cl, cd, fd, gd, inf ? disk::make_vector_hho_gradrec(m, cl, mi) : disk::make_vector_hho_gradrec(m, cl, hdi(cd,fd,gd)), gb); }); }
VP_H(P24_vector_gradrec3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,k ? 1 : 2); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell3(k, [&](auto& m, auto cl) { auto gb = disk::make_vector_monomial_basis(m, cl, fd); vec_gradrec(m, cl, cd, fd, fd, disk::make_vector_hho_gradrec(m, cl, hdi(cd,fd,fd)), gb); }); }
VP_H(P24_vector_exact) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,3); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell2(k, [&](auto& m, auto cl) { auto gb = disk::make_vector_monomial_basis(m, cl, fd); vec_exact(m, cl, cd, fd, fd+1, disk::make_vector_hho_gradrec(m, cl, hdi(cd,fd,fd)), gb); }); }
VP_H(P24_vector_exact3) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,1); size_t cd = celdeg(vp_pick("mode",0,2), fd); with_cell3(k, [&](auto& m, auto cl) { auto gb = disk::make_vector_monomial_basis(m, cl, fd); vec_exact(m, cl, cd, fd, fd+1, disk::make_vector_hho_gradrec(m, cl, hdi(cd,fd,fd)), gb); }); }
template<typename M, typename C> static void tensor(const M& m, const C& cl, size_t cd, size_t fd) {
    const size_t D = M::dimension; typedef Eigen::Matrix<T,D,D> KT; T z = vp_real("K", -1, 1); auto K = [&](const disk::point<T,D>&) { KT A = KT::Identity(); A(0,0) = 2 + z; A(0,1) = A(1,0) = 0.5*z; return A; };
    auto a = disk::make_vector_hho_gradrec(m, cl, hdi(cd,fd,fd)), b = disk::make_vector_hho_gradrec(m, cl, hdi(cd,fd,fd), K); disk::MeshDegreeInfo<M> mi(m, cd, fd, fd); auto c = disk::make_vector_hho_gradrec(m, cl, mi, K);
    close_mat(a.first, b.first, 1e-12, "the reconstruction does not depend on the tensor"); auto gb = disk::make_vector_monomial_basis(m, cl, fd); int n = gb.size(); Mat S = Mat::Zero(n,n);
    for (auto& q : disk::integrate(m, cl, 2*fd+1)) { Mat e = gb.eval_functions(q.point()); KT A = K(q.point()); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (size_t r = 0; r < D; r++) for (size_t t = 0; t < D; t++) S(i,j) += q.weight()*e(i,r)*A(r,t)*e(j,t); }
    Mat E = a.first.transpose()*S*a.first; close_mat(b.second, E, 1e-6, "tensor weighted energy"); close_mat(c.second, E, 1e-6, "tensor weighted energy");
}
VP_H(P24_tensor) { int k = vp_pick("cell",0,3), fd = vp_pick("face",0,1); size_t cd = celdeg(vp_pick("mode",0,1), fd); with_cell2(k, [&](auto& m, auto cl) { tensor(m, cl, cd, fd); }); }
template<typename M, typename C> static void rt(const M& m, const C& cl, size_t cd, size_t fd) {
    auto gb = disk::make_vector_monomial_basis_RT(m, cl, fd+1); auto od = disk::make_vector_hho_gradrec_RT(m, cl, hdi(cd,fd,fd+1)); disk::MeshDegreeInfo<M> mi(m, cd, fd, fd+1);
    vec_gradrec(m, cl, cd, fd, fd+1, od, gb); vec_exact(m, cl, cd, fd, fd+1, od, gb); auto o2 = disk::make_vector_hho_gradrec_RT(m, cl, mi); close_mat(od.first, o2.first, 1e-9, "both interfaces build the same operator"); close_mat(od.second, o2.second, 1e-9, "both interfaces build the same operator");
}
VP_H(P24_rt2) { int fd = vp_pick("face",0,1); size_t cd = celdeg(vp_pick("mode",0,1), fd); with_cell2(0, [&](auto& m, auto cl) { rt(m, cl, cd, fd); }); }
VP_H(P24_rt3) { int fd = vp_pick("face",0,1); size_t cd = celdeg(vp_pick("mode",0,0), fd); with_cell3(0, [&](auto& m, auto cl) { rt(m, cl, cd, fd); }); }
