//@bound meshes of two to four cells of every kind in 2D and of two cells in 3D; face degree 0..1 (diffusion, condensed), 0 (Stokes); every solution vector, local right-hand side and affine boundary function; local matrices fixed and generic; Dirichlet, Neumann and Robin conditions in every assignment to the boundary ids that the interface accepts
//@link triangle
//@link jb
#include "asm.hpp"
#include "diskpp/methods/hho_assemblers.hpp"
using namespace vp;
template<typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
enum { NONE, DIRI, NEUM, ROBI };
// conditions on the boundary ids 0,1,2
template<typename M> struct Conds { M& m; int k[3]; AffS<M::dimension> f[3]; disk::scalar_boundary_conditions<M> bc;
    Conds(M& m_, int a, int b, int c) : m(m_), k{a,b,c}, bc(m_) { for (int i = 0; i < 3; i++) { f[i].sym("g"); if (k[i] == DIRI) bc.addDirichletBC(disk::DIRICHLET, i, f[i]); if (k[i] == NEUM) bc.addNeumannBC(disk::NEUMANN, i, f[i]); if (k[i] == ROBI) bc.addRobinBC(disk::ROBIN, i, f[i]); } }
    int kind(size_t fc) const { return on_boundary(m, fc) ? k[boundary_number(m, fc)] : NONE; }
    const AffS<M::dimension>& fun(size_t fc) const { return f[boundary_number(m, fc)]; } };
template<typename M> static void diffusion(M& m, size_t fd) {
    disk::hho_degree_info h(fd, fd); auto A = disk::make_diffusion_assembler(m, h); AffS<M::dimension> g; g.sym("g"); size_t fb = fdim<M>(fd);
    std::vector<Vec> pr(m.faces_size()); size_t in = 0; for (size_t f = 0; f < m.faces_size(); f++) if (on_boundary(m, f)) pr[f] = face_projection(m, f, fd, g); else in++;
    Assembly<M> S(m, in*fb); S.locate(0, [&](size_t, auto& cl, const Vec& x) { return Vec(A.take_local_solution(m, cl, x, g)); }, [&](size_t) { return fb; }, [&](size_t f, size_t) { return on_boundary(m, f); }, [&](size_t f, size_t i) { return pr[f](i); });
    size_t c = 0; for (auto& cl : m) { size_t n = S.idx[c].size(); Mat K = S.matrix(c, n, n); Vec b = S.vector("b", n); A.assemble(m, cl, K, b, g); S.add(c, K, b); Vec u = A.take_local_data(m, cl, S.x, g); for (size_t i = 0; i < n; i++) vp_close(u(i), S.idx[c][i] == FIXED ? S.d[c](i) : S.x(S.idx[c][i]), 1e-8, "local data"); c++; }
    A.finalize(); S.verify(A.LHS, A.RHS, "the system is the sum of the local ones"); vp_check(A.num_assembled_faces() == in, "number of assembled faces");
    disk::scalar_boundary_conditions<M> bc(m); vp_check(throws([&]() { Mat K(1,1); Vec b(1); A.assemble(m, *m.cells_begin(), bc, K, b); }), "an assembler without boundary conditions refuses them");
}
VP_H(P26_diffusion2) { int k = vp_pick("mesh",0,3), fd = vp_pick("deg",0,2); with_mesh2(k, [&](auto& m) { diffusion(m, fd); }); }
VP_H(P26_diffusion3) { int k = vp_pick("mesh",0,2), fd = vp_pick("deg",0,k == 0 ? 1 : 0); with_mesh3(k, [&](auto& m) { diffusion(m, fd); }); }
// Neumann and Robin terms
template<typename M> static void naturals(Assembly<M>& S, const Conds<M>& C, size_t fd) {
    for (size_t f = 0; f < C.m.faces_size(); f++) { int k = C.kind(f); if (k != NEUM && k != ROBI) continue; Vec r = face_moments(C.m, f, fd, C.fun(f)); Mat A = face_mass(C.m, f, fd);
        for (int i = 0; i < r.size(); i++) { S.g(S.fidx[f][i]) -= r(i); if (k == ROBI) for (int j = 0; j < r.size(); j++) S.g(S.fidx[f][i]) += A(i,j)*S.x(S.fidx[f][j]); } }
}
template<typename M, typename Asm, typename Take> static void conditions(M& m, Asm& A, const Conds<M>& C, size_t fd, Take take) {
    size_t fb = fdim<M>(fd), free = 0; std::vector<Vec> pr(m.faces_size()); bool nm = false, rb = false;
    for (size_t f = 0; f < m.faces_size(); f++) { int k = C.kind(f); nm |= k == NEUM; rb |= k == ROBI; if (k == DIRI) pr[f] = face_projection(m, f, fd, C.fun(f)); else free++; }
    Assembly<M> S(m, free*fb); S.locate(0, take, [&](size_t) { return fb; }, [&](size_t f, size_t) { return C.kind(f) == DIRI; }, [&](size_t f, size_t i) { return pr[f](i); });
    size_t c = 0; for (auto& cl : m) { size_t n = S.idx[c].size(); Mat K = S.matrix(c, n, n); Vec b = S.vector("b", n); A.assemble(m, cl, C.bc, K, b); S.add(c, K, b); c++; }
    if (nm) A.impose_neumann_boundary_conditions(m, C.bc); if (rb) A.impose_robin_boundary_conditions(m, C.bc);
    naturals(S, C, fd); A.finalize(); S.verify(A.LHS, A.RHS, "the system is the sum of the local ones and the boundary terms");
}
template<typename M> static void diffusion_bc(M& m, size_t fd, int a, int b, int c) { Conds<M> C(m, a, b, c); disk::hho_degree_info h(fd, fd); auto A = disk::make_diffusion_assembler(m, h, C.bc); conditions(m, A, C, fd, [&](size_t, auto& cl, const Vec& x) { return Vec(A.take_local_data(m, cl, C.bc, x)); });
    vp_check(throws([&]() { Mat K(1,1); Vec b(1); A.assemble(m, *m.cells_begin(), K, b, C.f[0]); }), "an assembler with boundary conditions needs them"); }
template<typename M> static void primal(M& m, size_t fd, int a, int b, int c) { Conds<M> C(m, a, b, c); disk::hho_degree_info h(fd, fd); auto A = disk::make_scalar_primal_hho_assembler(m, h, C.bc); size_t n = A.global_system_size(), fb = fdim<M>(fd);
    conditions(m, A, C, fd, [&](size_t, auto& cl, const Vec& x) { vp_check(size_t(x.size()) == n, "size of the system"); Vec r = A.take_local_solution(m, cl, C.bc, x), e = A.expand_solution(m, C.bc, x); vp_check(size_t(e.size()) == fb*m.faces_size(), "size of the expanded solution"); size_t l = 0; for (auto f : faces_id(m, cl)) for (size_t i = 0; i < fb; i++, l++) vp_close(r(l), e(f*fb+i), 1e-8, "expanded solutions"); return r; }); }
VP_H(P26_diffusion_bc2) { int k = vp_pick("mesh",0,1), fd = vp_pick("deg",0,1), a = vp_pick("id0",0,3), b = vp_pick("id1",0,3); with_mesh2(k == 0 ? 3 : 0, [&](auto& m) { diffusion_bc(m, fd, a, b, DIRI); }); }
VP_H(P26_diffusion_bc3) { int a = vp_pick("id0",0,3), b = vp_pick("id1",0,1); with_mesh3(2, [&](auto& m) { diffusion_bc(m, 0, a, DIRI, b ? NEUM : NONE); }); }
VP_H(P26_primal2) { int k = vp_pick("mesh",0,1), fd = vp_pick("deg",0,1), a = vp_pick("id0",0,3), b = vp_pick("id1",0,3); with_mesh2(k == 0 ? 3 : 1, [&](auto& m) { primal(m, fd, a, b, DIRI); }); }
VP_H(P26_primal3) { int a = vp_pick("id0",0,3), b = vp_pick("id1",0,1); with_mesh3(0, [&](auto& m) { primal(m, 1, a, DIRI, b ? NEUM : NONE); }); }
// conditions of two kinds on the same face are refused
VP_H(P26_conflicts) { int k = vp_pick("conflict",0,2); bool pr = vp_pick("primal",0,1); with_mesh2(0, [&](auto& m) { typedef std::decay_t<decltype(m)> M; disk::scalar_boundary_conditions<M> bc(m); AffS<2> g; if (k != 2) bc.addDirichletBC(disk::DIRICHLET, 0, g); if (k != 1) bc.addNeumannBC(disk::NEUMANN, 0, g); if (k != 0) bc.addRobinBC(disk::ROBIN, 0, g); disk::hho_degree_info h(0, 0);
    auto go = [&](auto A) { if (k != 1) vp_check(throws([&]() { A.impose_neumann_boundary_conditions(m, bc); }), "two conditions on one face are refused"); if (k != 0) vp_check(throws([&]() { A.impose_robin_boundary_conditions(m, bc); }), "two conditions on one face are refused"); };
    if (pr) go(disk::make_scalar_primal_hho_assembler(m, h, bc)); else go(disk::make_diffusion_assembler(m, h, bc)); }); }
// the assembler on the new bases: homogeneous conditions on the boundary or on any set of faces
template<typename M> static void condensed(M& m, size_t fd, bool set) {
    typedef disk::basis::scalar_monomial<M, typename M::face_type, T> FB; typedef disk::hho::basic_condensed_assembler<M, FB> Asm; size_t fb = FB::size_of_degree(fd); vp_check(fb == fdim<M>(fd), "size of the face basis");
    std::vector<bool> dir; for (size_t f = 0; f < m.faces_size(); f++) dir.push_back(set ? f % 2 == 1 : on_boundary(m, f)); Asm A = set ? Asm(m, fd, dir) : Asm(m, fd); size_t free = std::count(dir.begin(), dir.end(), false); vp_check(A.dofs() == free*fb, "size of the system");
    Assembly<M> S(m, free*fb); S.locate(0, [&](size_t, auto& cl, const Vec& x) { return Vec(A.take_local_solution(m, cl, x)); }, [&](size_t) { return fb; }, [&](size_t f, size_t) { return bool(dir[f]); }, [&](size_t f, size_t i) { return T(0); });
    size_t c = 0; for (auto& cl : m) { size_t n = S.idx[c].size(); Mat K = S.matrix(c, n, n); Vec b = S.vector("b", n); A.assemble(m, cl, K, b); S.add(c, K, b); c++; }
    A.finalize(); S.verify(A.LHS, A.RHS, "the system is the sum of the local ones");
}
VP_H(P26_condensed2) { int k = vp_pick("mesh",0,3), fd = vp_pick("deg",0,2); bool s = vp_pick("set",0,1); with_mesh2(k, [&](auto& m) { condensed(m, fd, s); }); }
VP_H(P26_condensed3) { int k = vp_pick("mesh",0,2), fd = vp_pick("deg",0,1); bool s = vp_pick("set",0,1); with_mesh3(k, [&](auto& m) { condensed(m, fd, s); }); }
// Stokes: velocity and pressure blocks and the mean value of the pressure
template<typename M> static void stokes(M& m, size_t cd, size_t fd, int var) {
    const size_t D = M::dimension; disk::hho_degree_info h(cd, fd); disk::vector_boundary_conditions<M> bc(m); AffV<D> g0, g1; g0.sym("g"); g1.sym("g"); bc.addDirichletBC(disk::DIRICHLET, 0, g0); bc.addDirichletBC(disk::DIRICHLET, 2, g1);
    size_t nc = vsdim<M>(cd), nf = vfdim<M>(fd), np = sdim<M>(fd), free = 0; std::vector<Vec> pr(m.faces_size()); auto dir = [&](size_t f) { return on_boundary(m, f) && boundary_number(m, f) != 1; };
    for (size_t f = 0; f < m.faces_size(); f++) if (dir(f)) { pr[f] = Vec(nf); for (size_t a = 0; a < D; a++) { Vec v = face_projection(m, f, fd, (boundary_number(m, f) == 0 ? g0 : g1).c[a]); for (int i = 0; i < v.size(); i++) pr[f](i*D+a) = v(i); } } else free++;
    size_t N = m.cells_size()*(nc + np) + free*nf + 1;
    auto go = [&](auto& A, auto assemble) {
        vp_check(A.global_system_size() == N, "size of the system"); Assembly<M> S(m, N - 1 - m.cells_size()*np); auto ext = [&](const Vec& x) { Vec y = Vec::Zero(N); for (int i = 0; i < x.size(); i++) y(i) = x(i); return y; };
        S.locate(nc, [&](size_t, auto& cl, const Vec& x) { return Vec(A.take_velocity(m, cl, ext(x))); }, [&](size_t) { return nf; }, [&](size_t f, size_t) { return dir(f); }, [&](size_t f, size_t i) { return pr[f](i); });
        Vec magic(N); for (size_t i = 0; i < N; i++) magic(i) = i; std::vector<int> hit(N, 0); Vec p = symvec("p", m.cells_size()*np), lam = symvec("l", 1); Vec X(N), G = Vec::Zero(N); for (int i = 0; i < S.x.size(); i++) X(i) = S.x(i); X(N-1) = lam(0); std::vector<std::vector<size_t>> pi;
        for (auto& cl : m) { Vec q = A.take_pressure(m, cl, magic); vp_check(size_t(q.size()) == np, "pressure unknowns"); std::vector<size_t> v; for (size_t i = 0; i < np; i++) { size_t k = std::lround(q(i)); vp_check(k >= N-1-p.size() && k < N-1 && hit[k]++ == 0, "pressure unknowns are numbered once"); v.push_back(k); X(k) = p(k-(N-1-p.size())); } pi.push_back(v); }
        size_t c = 0;
        for (auto& cl : m) { size_t n = S.idx[c].size(); Mat K = S.matrix(c, n, n), B = S.matrix(c+7, np, n); Vec b = S.vector("b", var == 0 ? nc : n); assemble(A, cl, K, B, b); S.add(c, K, b);
            Vec u(n); for (size_t j = 0; j < n; j++) u(j) = S.idx[c][j] == FIXED ? S.d[c](j) : S.x(S.idx[c][j]); Vec Bu = mul(B, u);
            auto sb = disk::make_scalar_monomial_basis(m, cl, fd); Vec mean = Vec::Zero(np); for (auto& q : disk::integrate(m, cl, fd)) mean += q.weight()*Vec(sb.eval_functions(q.point()));
            for (size_t i = 0; i < np; i++) { T pv = X(pi[c][i]); G(pi[c][i]) += Bu(i) + mean(i)*lam(0); G(N-1) += mean(i)*pv; for (size_t j = 0; j < n; j++) if (S.idx[c][j] != FIXED) S.g(S.idx[c][j]) += B(i,j)*pv; } c++; }
        if constexpr (requires { A.finalize(); }) A.finalize(); else { A.finalize_lhs(); A.finalize_rhs(); }
        for (int i = 0; i < S.g.size(); i++) G(i) += S.g(i); Assembly<M> R(m, 0); R.n = N; R.x = X; R.g = G; R.verify(A.LHS, A.RHS, "velocity, pressure and mean value equations");
        if constexpr (requires { A.global_face_offset(m, *m.faces_begin()); }) for (size_t f = 0; f < m.faces_size(); f++) if (!dir(f)) vp_check(long(A.global_face_offset(m, *std::next(m.faces_begin(), f))) == S.fidx[f][0], "offset of a face");
    };
    if (var == 2) { auto A = disk::make_stokes_assembler_alg(m, h, bc); A.initialize_lhs(); A.initialize_rhs(); go(A, [&](auto& A, auto& cl, const Mat& K, const Mat& B, const Vec& b) { A.assemble_lhs(m, cl, K, B); A.assemble_rhs(m, cl, b); }); }
    else { auto A = disk::make_stokes_assembler(m, h, bc); A.initialize(); go(A, [&](auto& A, auto& cl, const Mat& K, const Mat& B, const Vec& b) { if (var == 0) A.assemble(m, cl, K, B, b); else A.assemble_alg(m, cl, K, B, b); }); }
}
VP_H(P26_stokes2) { int k = vp_pick("mesh",0,3), fd = vp_pick("deg",0,1), v = vp_pick("interface",0,2); with_mesh2(k, [&](auto& m) { stokes(m, fd == 1 ? 0 : vp_pick("celldeg",0,1), fd, v); }); }
VP_H(P26_stokes3) { int k = vp_pick("mesh",0,2), v = vp_pick("interface",0,2); with_mesh3(k, [&](auto& m) { stokes(m, 0, 0, v); }); }
