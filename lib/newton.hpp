// The Newton solver of solid mechanics on a small linear problem, and its equations.
#pragma once
#include <map>
#include <set>
#include <fstream>
#include "asm.hpp"
#include "diskpp/methods/hho"
#include "diskpp/mechanics/NewtonSolver/NewtonSolverComput.hpp"
#include "diskpp/solvers/solver.hpp"
namespace disk { namespace solvers { template<typename T> struct pardiso_params {}; } 
namespace mechanics { template<typename T> bool mkl_pardiso(solvers::pardiso_params<T>&, const Eigen::SparseMatrix<T>& A, const Eigen::Matrix<T,-1,1>& b, Eigen::Matrix<T,-1,1>& x) { vp::Mat D = vp::Mat::Zero(A.rows(), A.cols()); for (int k = 0; k < A.outerSize(); k++) for (typename Eigen::SparseMatrix<T>::InnerIterator it(A, k); it; ++it) D(it.row(),it.col()) += it.value(); x = vp::solve(D, b); return true; } } }
#define HAVE_INTEL_MKL
#include "diskpp/mechanics/NewtonSolver/NewtonIteration.hpp"
#include "diskpp/mechanics/NewtonSolver/NewtonStep.hpp"
#undef HAVE_INTEL_MKL
using namespace vp;
typedef NewtonSolverParameter<T> Par;
template<typename M> struct Problem {
    static const size_t D = M::dimension; M& m; disk::MeshDegreeInfo<M> mdi; disk::Behavior<M> law; disk::MaterialData<T> mat; disk::vector_boundary_conditions<M> bc; AffV<D> f, g, h; std::vector<bool> dir, neu; size_t cd, fd; disk::mechanics::StabCoeffManager<T> stab; Par rp; std::vector<Vec> u, uf, v, a;
    Problem(M& m_, size_t cd_, size_t fd_) : m(m_), mdi(m_, cd_, fd_, fd_), law(m_, 2*fd_, disk::SMALL_DEF, disk::ELASTIC), mat(5,4,1,2,1./64), bc(m_), cd(cd_), fd(fd_), stab(m_, T(2)) { law.addMaterialData(mat); rp.m_face_degree = fd; rp.m_cell_degree = cd; rp.m_grad_degree = fd; rp.m_beta = 2; rp.m_verbose = false;
        dir.assign(m.faces_size(), false); neu = dir; for (size_t i = 0; i < m.faces_size(); i++) if (on_boundary(m, i)) (boundary_number(m, i) == 2 ? neu : dir)[i] = true; }
    void conditions(bool data = true) { if (data) { g.sym("g"); f.sym("f"); h.sym("h"); } std::set<size_t> seen; for (size_t i = 0; i < m.faces_size(); i++) if (on_boundary(m, i)) { size_t b = boundary_number(m, i); if (!seen.insert(b).second) continue; if (neu[i]) bc.addNeumannBC(disk::NEUMANN, b, [this](const disk::point<T,D>& p) { return h(p); }); else bc.addDirichletBC(disk::DIRICHLET, b, [this](const disk::point<T,D>& p) { return g(p); }); } }
    size_t nc() const { return disk::vector_basis_size(cd, D, D); } size_t nf() const { return disk::vector_basis_size(fd, D-1, D); }
    void zero() { for (auto& cl : m) { u.push_back(Vec::Zero(nc() + nf()*faces(m, cl).size())); v.push_back(Vec::Zero(nc())); a.push_back(Vec::Zero(nc())); } for (size_t i = 0; i < m.faces_size(); i++) uf.push_back(Vec::Zero(nf())); }
    // forces of the current displacement on the unknowns of a cell
    Vec forces(const typename M::cell_type& cl, const Vec& x) { Mat R = disk::make_matrix_hho_symmetric_gradrec(m, cl, mdi).first; Mat S = disk::make_vector_hho_stabilization_optim(m, cl, disk::make_scalar_hho_laplacian(m, cl, mdi).first, mdi); Vec e = mul(R, x); auto gb = disk::make_sym_matrix_monomial_basis(m, cl, fd); Vec s = Vec::Zero(e.size()); T mu = mat.getMu(), la = mat.getLambda();
        for (auto& q : disk::integrate(m, cl, 2*fd)) { auto phi = gb.eval_functions(q.point()); disk::static_matrix<T,D,D> E = disk::static_matrix<T,D,D>::Zero(); for (size_t i = 0; i < phi.size(); i++) E += e(i)*phi[i]; T tr = E.trace(); disk::static_matrix<T,D,D> sg = 2*mu*E; for (size_t i = 0; i < D; i++) sg(i,i) += la*tr; for (size_t i = 0; i < phi.size(); i++) { T z = 0; for (size_t r = 0; r < D; r++) for (size_t c = 0; c < D; c++) z += sg(r,c)*phi[i](r,c); s(i) += q.weight()*z; } }
        Vec y = Vec::Zero(x.size()), t = mul(S, x); for (int j = 0; j < y.size(); j++) { for (int i = 0; i < s.size(); i++) y(j) += R(i,j)*s(i); y(j) += 2*t(j); } return y; }
    Vec load(const typename M::cell_type& cl) { auto cb = disk::make_vector_monomial_basis(m, cl, cd); Vec r = Vec::Zero(cb.size()); for (auto& q : disk::integrate(m, cl, cd+2)) { auto phi = cb.eval_functions(q.point()); auto w = f(q.point()); for (int i = 0; i < r.size(); i++) for (size_t d = 0; d < D; d++) r(i) += q.weight()*phi(i,d)*w(d); } return r; }
    Vec neumann(size_t i) { Vec r = Vec::Zero(nf()); for (size_t d = 0; d < D; d++) { Vec z = face_moments(m, i, fd, h.c[d]); for (int k = 0; k < z.size(); k++) r(k*D+d) = z(k); } return r; }
    Vec dirichlet(size_t i) { Vec r = Vec::Zero(nf()); for (size_t d = 0; d < D; d++) { Vec z = face_projection(m, i, fd, g.c[d]); for (int k = 0; k < z.size(); k++) r(k*D+d) = z(k); } return r; }
    // equilibrium: cells carry their load (minus inertia), faces carry nothing or the traction, or have the given displacement
    void equilibrium(const std::vector<Vec>& x, const std::vector<Vec>& xf, const std::vector<Vec>* inertia) { std::vector<Vec> r(m.faces_size(), Vec::Zero(nf())); size_t c = 0; for (auto& cl : m) { auto ids = faces_id(m, cl); for (size_t k = 0; k < ids.size(); k++) for (size_t i = 0; i < nf(); i++) vp_close(x[c](nc()+k*nf()+i), xf[ids[k]](i), 1e-9, "cells and faces have the same face unknowns"); Vec y = forces(cl, x[c]), l = load(cl); for (size_t i = 0; i < nc(); i++) vp_close(y(i) + (inertia ? (*inertia)[c](i) : T(0)), l(i), 1e-6, "cells are in equilibrium"); for (size_t k = 0; k < ids.size(); k++) for (size_t i = 0; i < nf(); i++) r[ids[k]](i) += y(nc()+k*nf()+i); c++; }
        for (size_t i = 0; i < m.faces_size(); i++) { bool b = on_boundary(m, i); Vec w = b && dir[i] ? dirichlet(i) : b && neu[i] ? neumann(i) : Vec(Vec::Zero(nf())); for (size_t k = 0; k < nf(); k++) if (b && dir[i]) vp_close(xf[i](k), w(k), 1e-6, "the displacement is imposed"); else vp_close(r[i](k), w(k), 1e-6, "faces are in equilibrium"); } }
};
