//@bound meshes of two to four cells of every kind; one to three unknowns per cell; every value of the local matrices and vectors, assembled on all cells and all pairs of neighbours in both orders, some of them twice
//@link triangle
//@link jb
#include "hho.hpp"
#include "diskpp/methods/dg"
using namespace vp;
template<typename M> static void dg(M& m, size_t n) { size_t nc = m.cells_size(), N = n*nc; auto as = disk::make_discontinuous_galerkin_assembler(m, n); vp_check(as.syssz == N && size_t(as.LHS.rows()) == N && size_t(as.LHS.cols()) == N && size_t(as.RHS.size()) == N, "system size"); auto ev = disk::make_discontinuous_galerkin_eigenvalue_assembler(m, n); vp_check(ev.syssz == N && size_t(ev.gK.rows()) == N && size_t(ev.gM.cols()) == N, "eigenvalue system size"); Mat A = Mat::Zero(N, N), K = A, W = A; Vec b = Vec::Zero(N); int twice = vp_pick("twice",0,1);
    std::vector<typename M::cell_type> cs(m.cells_begin(), m.cells_end()); for (size_t i = 0; i < nc; i++) { for (int r = 0; r <= twice; r++) { disk::dynamic_matrix<T> L = symmat("l", n, n), S = symmat("s", n, n); disk::dynamic_vector<T> R = symvec("r", n); as.assemble(m, cs[i], L, R); ev.assemble(m, cs[i], S); ev.assemble(m, cs[i], cs[i], L); A.block(i*n, i*n, n, n) += L; K.block(i*n, i*n, n, n) += L; W.block(i*n, i*n, n, n) += S; b.segment(i*n, n) += R; }
        for (size_t j = 0; j < nc; j++) if (i != j) { bool nb = false; auto fi = faces_id(m, cs[i]), fj = faces_id(m, cs[j]); for (auto f : fi) for (auto g : fj) nb |= f == g; if (!nb) continue; disk::dynamic_matrix<T> L = symmat("n", n, n); as.assemble(m, cs[i], cs[j], L); ev.assemble(m, cs[i], cs[j], L); A.block(i*n, j*n, n, n) += L; K.block(i*n, j*n, n, n) += L; } }
    as.finalize(); ev.finalize(); close_mat(Mat(as.LHS), A, 1e-12, "the matrix is the sum of the local matrices"); close_mat(Mat(ev.gK), K, 1e-12, "the stiffness matrix is the sum of the local matrices"); close_mat(Mat(ev.gM), W, 1e-12, "the mass matrix is the sum of the local matrices"); for (size_t i = 0; i < N; i++) vp_close(as.RHS(i), b(i), 1e-12, "the right-hand side is the sum of the local ones"); }
VP_H(P33_dg2) { int k = vp_pick("mesh",0,3), n = vp_pick("n",1,3); with_mesh2(k, [&](auto& m) { dg(m, n); }); }
VP_H(P33_dg3) { int k = vp_pick("mesh",0,2), n = vp_pick("n",1,2); with_mesh3(k, [&](auto& m) { dg(m, n); }); }
