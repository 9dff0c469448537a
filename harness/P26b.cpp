//@bound assemblers of mechanics: meshes of two to four cells of every kind in 2D and of two cells in 3D; face degree 0..1 (mixed degrees per face for the variants taking them); every solution vector, current solution, local right-hand side and affine boundary function; every type of Dirichlet condition, with and without a Neumann condition on the same face, contact faces
//@link triangle
//@link jb
#include "asm.hpp"
#include "diskpp/methods/hho_assemblers.hpp"
using namespace vp;
template<typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static const size_t TYPES[] = {disk::NOTHING, disk::DIRICHLET, disk::CLAMPED, disk::DX, disk::DY, disk::DXDY, disk::DZ, disk::DXDZ, disk::DYDZ};
// is component a prescribed
static bool prescribes(size_t t, size_t a) { switch (t) { case disk::DIRICHLET: case disk::CLAMPED: return true; case disk::DX: return a == 0; case disk::DY: return a == 1; case disk::DZ: return a == 2; case disk::DXDY: return a != 2; case disk::DXDZ: return a != 1; case disk::DYDZ: return a != 0; default: return false; } }
template<typename M, typename Asm, typename BC> static Vec local(const M& m, Asm& A, bool nl, const typename M::cell_type& cl, const BC& bc, const Vec& x, const std::vector<Vec>& cur) {
    if constexpr (requires { A.take_local_data(m, cl, bc, x); }) return nl ? Vec() : Vec(A.take_local_data(m, cl, bc, x));
    else if constexpr (requires { A.take_local_solution(m, cl, bc, x); }) return nl ? A.take_local_solution_nonlinear(m, cl, bc, x, cur) : A.take_local_solution(m, cl, bc, x); else return A.take_local_solution_nonlinear(m, cl, bc, x, cur); }
// which: 0 assembler_mechanics, 1 its nonlinear interface, 2 vector_primal, 3 its nonlinear interface, 4 vector_mechanics
template<typename M, typename Asm> static void go(M& m, Asm A, int which, const disk::vector_boundary_conditions<M>& bc, const std::vector<size_t>& deg, const size_t* type, const bool* neum, const AffV<M::dimension>* g, const AffV<M::dimension>* h) {
    const size_t D = M::dimension; size_t NF = m.faces_size(); bool nl = which == 1 || which >= 3; auto nf = [&](size_t f) { return vfdim<M>(deg[f]); };
    auto ty = [&](size_t f) -> size_t { return on_boundary(m, f) ? type[boundary_number(m, f)] : size_t(disk::NOTHING); };
    size_t free = 0, tot = 0; std::vector<Vec> data(NF), cur(NF); std::vector<size_t> off(NF);
    for (size_t f = 0; f < NF; f++) { off[f] = tot; tot += nf(f); for (size_t i = 0; i < nf(f); i++) free += !prescribes(ty(f), i % D); if (nl) cur[f] = symvec("F", nf(f)); data[f] = Vec::Zero(nf(f));
        if (ty(f) != disk::NOTHING && ty(f) != disk::CLAMPED) for (size_t a = 0; a < D; a++) { Vec v = face_projection(m, f, deg[f], g[boundary_number(m, f)].c[a]); for (int i = 0; i < v.size(); i++) data[f](i*D+a) = v(i); }
        if (nl) data[f] -= cur[f]; }
    if constexpr (requires { A.global_system_size(); }) vp_check(A.global_system_size() == free, "size of the system");
    Assembly<M> S(m, free);
    auto expand = [&](const Vec& x) { Vec e; if constexpr (requires { A.expand_solution_nl(m, bc, x, cur); }) e = nl ? A.expand_solution_nl(m, bc, x, cur) : A.expand_solution(m, bc, x); else if constexpr (requires { A.expand_solution(m, bc, x); }) e = nl ? A.expand_solution_nonlinear(m, bc, x, cur) : A.expand_solution(m, bc, x); else e = A.expand_solution_nonlinear(m, bc, x, cur); vp_check(size_t(e.size()) == tot, "size of the expanded solution"); return e; };
    auto take = [&](size_t, auto& cl, const Vec& x) { Vec e = expand(x), r; auto ids = faces_id(m, cl); size_t n = 0, l = 0; for (auto f : ids) n += nf(f); r = Vec(n); for (auto f : ids) for (size_t i = 0; i < nf(f); i++) r(l++) = e(off[f]+i);
        auto same = [&](const Vec& u) { vp_check(size_t(u.size()) == n, "number of local unknowns"); for (size_t i = 0; i < n; i++) vp_close(u(i), r(i), 1e-8, "local and expanded solutions"); };
        auto u = local(m, A, nl, cl, bc, x, cur); if (u.size()) same(u); else vp_check(which == 1 || n == 0, "number of local unknowns");
        return r; };
    S.locate(0, take, nf, [&](size_t f, size_t i) { return prescribes(ty(f), i % D); }, [&](size_t f, size_t i) { return data[f](i); });
    size_t c = 0; for (auto& cl : m) { size_t n = S.idx[c].size(); Mat K = S.matrix(c, n, n); Vec b = S.vector("b", n);
        if constexpr (requires { A.assemble_nl(m, cl, bc, std::make_pair(K, b), cur); }) { if (nl) A.assemble_nl(m, cl, bc, std::make_pair(K, b), cur); else A.assemble(m, cl, bc, std::make_pair(K, b)); } else if constexpr (requires { A.assemble(m, cl, bc, K, b); }) { if (nl) A.assemble_nonlinear(m, cl, bc, K, b, cur); else A.assemble(m, cl, bc, K, b); } else A.assemble_nonlinear(m, cl, bc, K, b, cur);
        S.add(c, K, b); c++; }
    bool refuse = false, any = false; for (size_t f = 0; f < NF; f++) if (on_boundary(m, f) && neum[boundary_number(m, f)]) { any = true; if (ty(f) == disk::DIRICHLET || ty(f) == disk::CLAMPED) refuse = true; }
    if (refuse) { vp_check(throws([&]() { A.impose_neumann_boundary_conditions(m, bc); }), "two conditions on the same components are refused"); return; }
    if (any) { A.impose_neumann_boundary_conditions(m, bc); for (size_t f = 0; f < NF; f++) if (on_boundary(m, f) && neum[boundary_number(m, f)]) for (size_t a = 0; a < D; a++) { Vec r = face_moments(m, f, deg[f], h[boundary_number(m, f)].c[a]); for (int i = 0; i < r.size(); i++) if (S.fidx[f][i*D+a] != FIXED) S.g(S.fidx[f][i*D+a]) -= r(i); } }
    A.finalize(); S.verify(A.LHS, A.RHS, "the system is the sum of the local ones and the boundary terms");
}
template<typename M> static void mechanics(M& m, int which, size_t fd, int type, bool mixed, bool contact, bool degrees) {
    const size_t D = M::dimension; size_t ty[3] = {TYPES[type], disk::NOTHING, contact ? disk::NOTHING : disk::DIRICHLET}; bool ne[3] = {mixed, true, false}; AffV<D> g[3], h[3]; for (int i = 0; i < 3; i++) g[i].sym("g"), h[i].sym("h");
    disk::vector_boundary_conditions<M> bc(m); for (int i = 0; i < 3; i++) { if (ty[i] != disk::NOTHING) bc.addDirichletBC(ty[i], i, g[i]); if (ne[i]) bc.addNeumannBC(disk::NEUMANN, i, h[i]); } if (contact) bc.addContactBC(disk::SIGNORINI_FACE, 2);
    disk::hho_degree_info hd(fd, fd); std::vector<size_t> deg; disk::MeshDegreeInfo<M> md(m, fd);
    for (size_t f = 0; f < m.faces_size(); f++) { size_t d = degrees ? f % 2 : fd + (contact && which >= 2 && on_boundary(m, f) && boundary_number(m, f) == 2); deg.push_back(d); md.degree(m, *std::next(m.faces_begin(), f), d); }
    if (D == 2 && prescribes(ty[0], 2) && ty[0] != disk::DIRICHLET && ty[0] != disk::CLAMPED) { vp_check(throws([&]() { disk::make_mechanics_assembler(m, hd, bc); }) && throws([&]() { disk::make_vector_primal_hho_assembler(m, hd, bc); }) && throws([&]() { disk::make_vector_mechanics_hho_assembler(m, hd, bc); }), "there is no third component in 2D"); return; }
    if (which < 2) go(m, disk::make_mechanics_assembler(m, hd, bc), which, bc, deg, ty, ne, g, h);
    else if (which < 4) { if (degrees) go(m, disk::make_vector_primal_hho_assembler(m, md, bc), which, bc, deg, ty, ne, g, h); else go(m, disk::make_vector_primal_hho_assembler(m, hd, bc), which, bc, deg, ty, ne, g, h); }
    else { if (degrees) go(m, disk::make_vector_mechanics_hho_assembler(m, md, bc), which, bc, deg, ty, ne, g, h); else go(m, disk::make_vector_mechanics_hho_assembler(m, hd, bc), which, bc, deg, ty, ne, g, h); }
}
#ifdef VP_3D
VP_H(P26_mechanics3) { int w = vp_pick("which",0,1), t = vp_pick("type",0,8), x = vp_pick("mixed",0,1); with_mesh3(0, [&](auto& m) { mechanics(m, w, w, t, x, false, false); }); }
VP_H(P26_vector3) { int w = vp_pick("which",2,4), t = vp_pick("type",0,8), x = vp_pick("mixed",0,1); with_mesh3(0, [&](auto& m) { mechanics(m, w, w == 3, t, x, w == 2, false); }); }
VP_H(P26_hex3) { int w = vp_pick("which",0,4), k = vp_pick("mesh",1,2); with_mesh3(k, [&](auto& m) { mechanics(m, w, 0, 4, true, false, false); }); }
#else
VP_H(P26_mechanics2) { int w = vp_pick("which",0,1), t = vp_pick("type",0,8), x = vp_pick("mixed",0,1); with_mesh2(w == 0 ? 3 : 0, [&](auto& m) { mechanics(m, w, 1-w, t, x, false, false); }); }
VP_H(P26_vector2) { int w = vp_pick("which",2,4), t = vp_pick("type",0,8), x = vp_pick("mixed",0,1); with_mesh2(w == 3 ? 1 : 3, [&](auto& m) { mechanics(m, w, w == 3, t, x, false, false); }); }
VP_H(P26_contact2) { int w = vp_pick("which",2,4), t = vp_pick("type",0,3); with_mesh2(0, [&](auto& m) { mechanics(m, w, 0, t, false, true, false); }); }
VP_H(P26_degrees2) { int w = vp_pick("which",2,4), t = vp_pick("type",0,5), x = vp_pick("mixed",0,1); with_mesh2(w == 2 ? 3 : 0, [&](auto& m) { mechanics(m, w, 1, t, x, false, true); }); }
#endif
