//@bound meshes of two to four cells of every kind in 2D (two in 3D for the thorough tier), face degree 1 (2D) with cell degree 0..2, linear elasticity, one material; every affine load, Dirichlet, Neumann and initial data; dynamic steps of length 1/4 with two choices of the Newmark parameters
//@assume the Lua binding and the gmsh writer are replaced by stand-ins that do nothing; the Pardiso solver, which is not installed, is replaced by an exact elimination
//@link triangle
//@link jb
#include "newton.hpp"
template<typename M> static void statics(M& m, size_t cd, size_t fd) { Problem<M> P(m, cd, fd); P.conditions(); P.zero(); auto lf = [&](const disk::point<T,M::dimension>& p) { return P.f(p); }; disk::mechanics::TimeStep<T> ts(0, 1, 0); disk::mechanics::NewtonIteration<M> it(m, P.bc, P.rp, P.mdi, ts); it.initialize(m, P.rp, P.u, P.uf, P.v, P.a); std::vector<disk::dynamic_matrix<T>> none;
    it.assemble(m, P.bc, P.rp, P.mdi, lf, none, none, P.law, P.stab); it.solve(); it.postprocess(m, P.bc, P.rp, P.mdi); std::vector<Vec> u, uf, v, a; it.save_solutions(u, uf, v, a); P.equilibrium(u, uf, nullptr); }
VP_H(P37_statics) { int k = vp_pick("mesh",0,3), cd = vp_pick("cell",0,2); with_mesh2(k, [&](auto& m) { statics(m, cd, 1); }); }
// Newmark steps, after one or two iterations
template<typename M> static void dynamics(M& m, size_t cd, size_t fd) { Problem<M> P(m, cd, fd); int what = vp_pick("data",0,2); P.conditions(what == 0); P.zero(); size_t c0 = P.u.size()-1; if (what == 1) for (size_t c = c0; c <= c0; c++) { P.v[c] = symvec("v", P.nc()); P.a[c] = symvec("a", P.nc()); Vec w = symvec("u", P.nc()); for (int i = 0; i < w.size(); i++) P.u[c](i) = w(i); } if (what == 2) { for (size_t i = 0; i < m.faces_size(); i += 2) P.uf[i] = symvec("F", P.nf()); size_t c = 0; for (auto& cl : m) { auto ids = faces_id(m, cl); for (size_t k = 0; k < ids.size(); k++) for (size_t i = 0; i < P.nf(); i++) P.u[c](P.nc()+k*P.nf()+i) = P.uf[ids[k]](i); c++; } }
    int n = vp_pick("iterations",1,2); T be = n == 2 ? 0.25 : 0.5, ga = 0.75, rho = 1.5, dt = 0.25; P.rp.isUnsteady(true); P.rp.setUnsteadyParameters({{"beta", be}, {"gamma", ga}, {"rho", rho}}); auto lf = [&](const disk::point<T,M::dimension>& p) { return P.f(p); }; disk::mechanics::TimeStep<T> ts(0.5, 0.5 + dt, 0); disk::mechanics::NewtonIteration<M> it(m, P.bc, P.rp, P.mdi, ts); it.initialize(m, P.rp, P.u, P.uf, P.v, P.a); std::vector<disk::dynamic_matrix<T>> none;
    for (int i = 0; i < n; i++) { it.assemble(m, P.bc, P.rp, P.mdi, lf, none, none, P.law, P.stab); it.solve(); it.postprocess(m, P.bc, P.rp, P.mdi); } std::vector<Vec> u, uf, v, a, in; it.save_solutions(u, uf, v, a); size_t c = 0;
    for (auto& cl : m) { vp_check(size_t(v[c].size()) == P.nc() && size_t(a[c].size()) == P.nc(), "sizes"); for (size_t i = 0; i < P.nc(); i++) { vp_close(u[c](i), P.u[c](i) + dt*P.v[c](i) + dt*dt*((0.5-be)*P.a[c](i) + be*a[c](i)), 1e-6, "Newmark displacement"); vp_close(v[c](i), P.v[c](i) + dt*((1-ga)*P.a[c](i) + ga*a[c](i)), 1e-6, "Newmark velocity"); } auto cb = disk::make_vector_monomial_basis(m, cl, cd); Mat K = Mat::Zero(P.nc(), P.nc()); for (auto& q : disk::integrate(m, cl, 2*cd)) { auto phi = cb.eval_functions(q.point()); for (size_t i = 0; i < P.nc(); i++) for (size_t j = 0; j < P.nc(); j++) for (size_t d = 0; d < M::dimension; d++) K(i,j) += rho*q.weight()*phi(i,d)*phi(j,d); } in.push_back(mul(K, Vec(a[c]))); c++; }
    P.equilibrium(u, uf, &in); }
VP_H(P37_dynamics) { int k = vp_pick("mesh",0,3), cd = vp_pick("cell",0,1); with_mesh2(k, [&](auto& m) { dynamics(m, cd, 1); }); }
VP_T(P37_statics3) { int k = vp_pick("mesh",0,1); with_mesh3(k, [&](auto& m) { statics(m, 1, 1); }); }
// options: operators computed in advance, other stabilizations, none; later iterations and steps do not move an equilibrium; the step ends when the residual is small
template<typename M> static void step(M& m, bool none_) { Problem<M> P(m, 1, 1); P.conditions(); P.zero(); auto lf = [&](const disk::point<T,M::dimension>& p) { return P.f(p); }; disk::mechanics::TimeStep<T> ts(0, 1, 0); std::vector<disk::dynamic_matrix<T>> G, S; if (vp_bool("precomputed")) { P.rp.m_precomputation = true; for (auto& cl : m) { G.push_back(disk::make_matrix_hho_symmetric_gradrec(m, cl, P.mdi).first); S.push_back(disk::make_vector_hho_stabilization_optim(m, cl, disk::make_scalar_hho_laplacian(m, cl, P.mdi).first, P.mdi)); } }
    disk::mechanics::NewtonIteration<M> it(m, P.bc, P.rp, P.mdi, ts); it.initialize(m, P.rp, P.u, P.uf, P.v, P.a); std::vector<Vec> u, uf, v, a, u2, uf2; for (int i = 0; i < 2; i++) { it.assemble(m, P.bc, P.rp, P.mdi, lf, G, S, P.law, P.stab); it.solve(); it.postprocess(m, P.bc, P.rp, P.mdi); if (i == 0) it.save_solutions(u, uf, v, a); } it.save_solutions(u2, uf2, v, a); P.equilibrium(u2, uf2, nullptr); for (size_t c = 0; c < u.size(); c++) for (int i = 0; i < u[c].size(); i++) vp_close(u[c](i), u2[c](i), 1e-7, "an equilibrium is kept"); for (size_t c = 0; c < uf.size(); c++) for (int i = 0; i < uf[c].size(); i++) vp_close(uf[c](i), uf2[c](i), 1e-7, "an equilibrium is kept"); }
VP_H(P37_again) { int k = vp_pick("mesh",0,3); with_mesh2(k, [&](auto& m) { step(m, false); }); }
VP_H(P37_stabilizations) { int k = vp_pick("mesh",0,3), st = vp_pick("type",0,4); with_mesh2(k, [&](auto& m) { using M = std::decay_t<decltype(m)>; Problem<M> P(m, 1, 1); P.conditions(); P.zero(); auto lf = [&](const disk::point<T,2>& p) { return P.f(p); }; P.rp.m_stab_type = st == 4 ? int(NO) : st; P.rp.m_stab = st != 4; size_t c = 0; for (auto& cl : m) { P.u[c] = symvec("u", P.u[c].size()); c++; } auto cl = *m.cells_begin(); Mat R = disk::make_matrix_hho_symmetric_gradrec(m, cl, P.mdi).first; disk::mechanics::mechanical_computation<M> e; e.compute(m, cl, P.bc, P.rp, P.mdi, lf, R, P.u[0], Vec(Vec::Zero(1)), disk::mechanics::TimeStep<T>(0,1,0), P.law, P.stab, true);
    Vec F = mul(Mat(e.K_int), P.u[0]), ld = P.load(cl); for (int i = 0; i < F.size(); i++) { vp_close(F(i), e.F_int(i), 1e-7, "the stiffness of a linear law gives its forces"); vp_close(e.RTF(i) + e.F_int(i), i < ld.size() ? ld(i) : T(0), 1e-7, "the residual is the load minus the forces"); }
    disk::mechanics::NewtonIteration<M> it(m, P.bc, P.rp, P.mdi, disk::mechanics::TimeStep<T>(0,1,0)); P.u.clear(); P.uf.clear(); P.v.clear(); P.a.clear(); P.zero(); it.initialize(m, P.rp, P.u, P.uf, P.v, P.a); std::vector<disk::dynamic_matrix<T>> none; if (st == NO || st == 4) { it.assemble(m, P.bc, P.rp, P.mdi, lf, none, none, P.law, P.stab); return; } it.assemble(m, P.bc, P.rp, P.mdi, lf, none, none, P.law, P.stab); it.solve(); it.postprocess(m, P.bc, P.rp, P.mdi); std::vector<Vec> u, uf, v, a; it.save_solutions(u, uf, v, a);
    // only the cell equations, with the stabilization of the type
    c = 0; for (auto& cl : m) { Mat S = st == HDG ? Mat(disk::make_vector_hdg_stabilization(m, cl, P.mdi)) : st == DG ? Mat(disk::make_vector_dg_stabilization(m, cl, P.mdi)) : Mat(disk::make_vector_hho_stabilization_optim(m, cl, disk::make_scalar_hho_laplacian(m, cl, P.mdi).first, P.mdi)); Mat H = disk::make_vector_hho_stabilization_optim(m, cl, disk::make_scalar_hho_laplacian(m, cl, P.mdi).first, P.mdi); Vec y = P.forces(cl, u[c]), s = mul(Mat(S-H), Vec(u[c])), l = P.load(cl); for (size_t i = 0; i < P.nc(); i++) vp_close(y(i) + 2*s(i), l(i), 1e-6, "cells are in equilibrium"); c++; } }); }
