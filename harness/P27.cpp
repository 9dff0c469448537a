//@bound meshes of two to four cells of every kind in 2D and 3D; up to three successive conditions of any kind (with every boundary id, every type), every affine boundary function, every factor and evaluation point; boundary ids of the faces symbolic in one harness, fixed otherwise; face degree up to 2
//@link triangle
#include "meshes.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/quadratures/quadratures.hpp"
#include "diskpp/boundary_conditions/boundary_conditions.hpp"
using namespace vp;
enum { KDIR, KNEU, KROB, KCON };
struct Rec { bool set = false; size_t type, id; int fn; };
template<size_t D> struct Aff { T a, b; T operator()(const disk::point<T,D>& p) const { return a + b*p.at(0); } };
template<size_t D> struct AffV { T a, b; disk::static_vector<T,D> operator()(const disk::point<T,D>& p) const { disk::static_vector<T,D> r; for (size_t i = 0; i < D; i++) r(i) = a*(i+1) + b*p.at(i); return r; } };
template<bool S, typename M> struct Model {
    static const size_t D = M::dimension; typedef std::conditional_t<S, Aff<D>, AffV<D>> F;
    const M& m; disk::BoundaryConditions<M,S> bc; std::vector<Rec> r[4]; std::vector<F> fn; std::vector<Aff<D>> cfn; T factor = 1;
    Model(const M& m_) : m(m_), bc(m_) { for (auto& x : r) x.resize(m.faces_size()); }
    F next() { F f; f.a = vp_real("a", -2, 2); f.b = vp_real("b", -2, 2); fn.push_back(f); return f; }
    void note(int k, size_t type, size_t id, int f, bool everywhere) { for (size_t i = 0; i < m.faces_size(); i++) { auto bi = m.backend_storage()->boundary_info[i]; if (!bi.is_boundary()) continue; if (everywhere || bi.id() == id) { r[k][i].set = true; r[k][i].type = type; r[k][i].id = everywhere ? 0 : id; r[k][i].fn = f; } } }
    void op(int o, size_t id) {
        if (o == 0) { bc.addDirichletEverywhere(next()); note(KDIR, disk::DIRICHLET, 0, fn.size()-1, true); }
        else if (o == 1) { size_t t = S ? disk::DIRICHLET : disk::DX; bc.addDirichletBC(t, id, next()); note(KDIR, t, id, fn.size()-1, false); }
        else if (o == 2) { bc.addNeumannBC(disk::NEUMANN, id, next()); note(KNEU, disk::NEUMANN, id, fn.size()-1, false); }
        else if (o == 3) { bc.addRobinBC(disk::ROBIN, id, next()); note(KROB, disk::ROBIN, id, fn.size()-1, false); }
        else if (o == 4) { bc.addContactBC(disk::SIGNORINI_CELL, id); note(KCON, disk::SIGNORINI_CELL, id, -1, false); }
        else { Aff<D> f; f.a = vp_real("a", -2, 2); f.b = vp_real("b", -2, 2); cfn.push_back(f); bc.addContactBC(disk::SIGNORINI_FACE, id, f); note(KCON, disk::SIGNORINI_FACE, id, cfn.size()-1, false); }
    }
    static T get(T v, size_t) { return v; }
    template<typename V> static T get(const V& v, size_t a) { return v(a); }
    template<typename G, typename H> void same(const G& g, const H& h, T k, const disk::point<T,D>& x) { auto a = g(x); auto b = h(x); for (size_t i = 0; i < (S ? 1 : D); i++) vp_close(get(a, i), k*get(b, i), 1e-9, "the boundary function is the one given last, times the factor"); }
    template<typename G> static bool throws(G g) { try { g(); } catch (const std::exception&) { return true; } return false; }
    void verify() {
        disk::point<T,D> x = sympt<D>("x", 1); size_t cnt[4] = {0,0,0,0}; size_t i = 0;
        for (auto itor = m.faces_begin(); itor != m.faces_end(); itor++, i++) { auto fc = *itor;
            for (int k = 0; k < 4; k++) cnt[k] += r[k][i].set;
            vp_check(bc.is_dirichlet_face(i) == r[KDIR][i].set && bc.is_neumann_face(i) == r[KNEU][i].set && bc.is_robin_face(i) == r[KROB][i].set && bc.is_contact_face(i) == r[KCON][i].set, "faces with a condition");
            vp_check(bc.is_dirichlet_face(fc) == r[KDIR][i].set && bc.is_neumann_face(fc) == r[KNEU][i].set && bc.is_robin_face(fc) == r[KROB][i].set && bc.is_contact_face(fc) == r[KCON][i].set, "faces with a condition, by face");
            vp_check(bc.dirichlet_boundary_type(i) == (r[KDIR][i].set ? r[KDIR][i].type : disk::NOTHING) && bc.neumann_boundary_type(i) == (r[KNEU][i].set ? r[KNEU][i].type : disk::FREE) && bc.robin_boundary_type(i) == (r[KROB][i].set ? r[KROB][i].type : disk::WHATEVER) && bc.contact_boundary_type(i) == (r[KCON][i].set ? r[KCON][i].type : disk::NO_CONTACT), "types of the conditions");
            vp_check(bc.dirichlet_boundary_type(fc) == bc.dirichlet_boundary_type(i) && bc.neumann_boundary_type(fc) == bc.neumann_boundary_type(i) && bc.robin_boundary_type(fc) == bc.robin_boundary_type(i) && bc.contact_boundary_type(fc) == bc.contact_boundary_type(i), "types of the conditions, by face");
            if (r[KDIR][i].set) { vp_check(bc.dirichlet_boundary_id(i) == r[KDIR][i].id && bc.dirichlet_boundary_id(fc) == r[KDIR][i].id, "Dirichlet boundary id"); same(bc.dirichlet_boundary_func(i), fn[r[KDIR][i].fn], factor, x); same(bc.dirichlet_boundary_func(fc), fn[r[KDIR][i].fn], factor, x); }
            else vp_check(throws([&]() { bc.dirichlet_boundary_func(i); }), "no Dirichlet function where there is no condition");
            if (r[KNEU][i].set) { vp_check(bc.neumann_boundary_id(i) == r[KNEU][i].id && bc.neumann_boundary_id(fc) == r[KNEU][i].id, "Neumann boundary id"); same(bc.neumann_boundary_func(i), fn[r[KNEU][i].fn], factor, x); same(bc.neumann_boundary_func(fc), fn[r[KNEU][i].fn], factor, x); }
            else vp_check(throws([&]() { bc.neumann_boundary_func(i); }), "no Neumann function where there is no condition");
            if (r[KROB][i].set) { vp_check(bc.robin_boundary_id(i) == r[KROB][i].id && bc.robin_boundary_id(fc) == r[KROB][i].id, "Robin boundary id"); if constexpr (S) { same(bc.robin_boundary_func(i), fn[r[KROB][i].fn], factor, x); same(bc.robin_boundary_func(fc), fn[r[KROB][i].fn], factor, x); } }
            else if constexpr (S) vp_check(throws([&]() { bc.robin_boundary_func(i); }), "no Robin function where there is no condition");
            if (r[KCON][i].set) { vp_check(bc.contact_boundary_id(i) == r[KCON][i].id && bc.contact_boundary_id(fc) == r[KCON][i].id, "contact boundary id"); if (r[KCON][i].fn >= 0) { vp_close(bc.contact_boundary_func(i)(x), cfn[r[KCON][i].fn](x), 1e-9, "contact function"); vp_close(bc.contact_boundary_func(fc)(x), cfn[r[KCON][i].fn](x), 1e-9, "contact function"); } }
            if (!r[KCON][i].set || r[KCON][i].fn < 0) vp_check(throws([&]() { bc.contact_boundary_func(i); }), "no contact function where there is none");
        }
        vp_check(bc.nb_faces_dirichlet() == cnt[KDIR] && bc.nb_faces_neumann() == cnt[KNEU] && bc.nb_faces_robin() == cnt[KROB] && bc.nb_faces_contact() == cnt[KCON], "numbers of faces with a condition");
        vp_check(bc.nb_faces_boundary() == cnt[0] + cnt[1] + cnt[2] + cnt[3], "total number of conditions");
        for (auto& cl : m) { auto fcs = faces(m, cl); auto ids = faces_id(m, cl); size_t n[4] = {0,0,0,0}, cellc = 0; vp_check(fcs.size() == ids.size(), "faces of the cell");
            std::vector<size_t> wo, wi, un; for (auto f : ids) { for (int k = 0; k < 4; k++) n[k] += r[k][f].set; bool cc = r[KCON][f].set && r[KCON][f].type == disk::SIGNORINI_CELL; if (!cc) un.push_back(f); if (r[KCON][f].set) wi.push_back(f); else wo.push_back(f); }
            vp_check(bc.cell_has_dirichlet_faces(cl) == (n[KDIR] > 0) && bc.cell_has_neumann_faces(cl) == (n[KNEU] > 0) && bc.cell_has_robin_faces(cl) == (n[KROB] > 0) && bc.cell_has_contact_faces(cl) == (n[KCON] > 0), "cells with conditions");
            vp_check(bc.howmany_contact_faces(cl) == n[KCON] && bc.howmany_without_contact_faces(cl) == ids.size() - n[KCON], "numbers of contact faces of the cell");
            auto eq = [&](const auto& l, const std::vector<size_t>& e, const char* w) { vp_check(l.size() == e.size(), w); for (size_t i = 0; i < e.size() && i < l.size(); i++) vp_check(m.lookup(l[i]) == e[i], w); };
            eq(bc.faces_with_contact(cl), wi, "faces with contact"); eq(bc.faces_without_contact(cl), wo, "faces without contact"); eq(bc.faces_with_unknowns(cl), un, "faces with unknowns"); }
    }
};
template<typename M> static void relabel(M& m) { auto st = m.backend_storage(); for (auto& b : st->boundary_info) if (b.is_boundary()) b = disk::boundary_descriptor(vp_int("face id", 0, 1), true); }
VP_H(P27_sequence2) { int k = vp_pick("mesh",0,1); int a = vp_pick("op",0,3), b = vp_pick("op",0,3); size_t ia = vp_int("id",0,3), ib = vp_int("id",0,3); with_mesh2(k, [&](auto& m) { Model<true,std::decay_t<decltype(m)>> M(m); M.op(a, ia); M.op(b, ib); M.verify(); }); }
VP_H(P27_dirichlet3) { int c = vp_pick("ops",0,7); size_t i0 = vp_int("id",0,2), i1 = vp_int("id",0,2), i2 = vp_int("id",0,2); with_mesh2(2, [&](auto& m) { Model<true,std::decay_t<decltype(m)>> M(m); M.op(c & 1, i0); M.op((c >> 1) & 1, i1); M.factor = vp_real("factor", -2, 2); M.bc.multiplyAllFunctionsByAFactor(M.factor); M.op((c >> 2) & 1, i2); M.verify(); }); }
VP_H(P27_vector) { int k = vp_pick("mesh",0,3); int a = vp_pick("op",0,5), b = vp_pick("op",0,5); size_t ia = vp_int("id",0,2), ib = (ia + 1) % 3; if (a == b) ib = ia; auto go = [&](auto& m) { Model<false,std::decay_t<decltype(m)>> M(m); M.op(a, ia); M.op(b, ib); M.factor = vp_real("factor", -2, 2); M.bc.multiplyAllFunctionsByAFactor(M.factor); M.verify(); }; if (k < 2) with_mesh2(k == 0 ? 0 : 3, go); else with_mesh3(k-2, go); }
VP_H(P27_contact) { int c = vp_pick("ops",0,3); size_t i0 = vp_int("id",0,2), i1 = vp_int("id",0,2); with_mesh2(1, [&](auto& m) { Model<true,std::decay_t<decltype(m)>> M(m); M.op(4 + (c & 1), i0); M.op(4 + (c >> 1), i1); M.op(3, i1); M.verify(); }); }
VP_H(P27_symbolic_ids) { int o = vp_pick("op",0,5); with_mesh2(0, [&](auto& m) { relabel(m); Model<true,std::decay_t<decltype(m)>> M(m); M.op(o, 1); M.verify(); }); }
// the number of unknowns a Dirichlet condition fixes on a face
template<typename M> static size_t expected(bool scalar, size_t type, size_t deg) { const size_t D = M::dimension; size_t n = disk::scalar_basis_size(deg, D-1); if (scalar) return type == disk::DIRICHLET ? n : 0; switch (type) { case disk::DIRICHLET: case disk::CLAMPED: return D*n; case disk::DX: case disk::DY: case disk::DZ: return n; case disk::DXDY: case disk::DXDZ: case disk::DYDZ: return 2*n; } return 0; }
template<typename M> static void imposed(M& m, bool scalar) {
    const size_t D = M::dimension; size_t type = vp_pick("type",0,8), deg = vp_pick("deg",0,2); size_t types[] = {disk::DIRICHLET,disk::CLAMPED,disk::DX,disk::DY,disk::DZ,disk::DXDY,disk::DXDZ,disk::DYDZ,disk::NOTHING}; size_t t = types[type];
    bool bad = scalar ? (t != disk::DIRICHLET && t != disk::NOTHING) : (D == 2 && (t == disk::DZ || t == disk::DXDZ || t == disk::DYDZ)); size_t id = vp_int("id",0,3);
    auto check = [&](auto& bc) { for (size_t i = 0; i < m.faces_size(); i++) { bool on = m.backend_storage()->boundary_info[i].is_boundary() && m.backend_storage()->boundary_info[i].id() == id; bool th = false; size_t n = 0; try { n = bc.dirichlet_imposed_dofs(i, deg); } catch (const std::exception&) { th = true; }
        vp_check(th == (on && bad), "impossible conditions are refused"); if (!th) vp_check(n == (on ? expected<M>(scalar, t, deg) : 0), "unknowns fixed by the condition"); } };
    if (scalar) { disk::BoundaryConditions<M,true> bc(m); bc.addDirichletBC(t, id, [](const disk::point<T,D>&) { return T(0); }); check(bc); } else { disk::BoundaryConditions<M,false> bc(m); bc.addDirichletBC(t, id, [](const disk::point<T,D>&) { disk::static_vector<T,D> z = disk::static_vector<T,D>::Zero(); return z; }); check(bc); }
}
VP_H(P27_imposed2) { bool s = vp_pick("scalar",0,1); with_mesh2(0, [&](auto& m) { imposed(m, s); }); }
VP_H(P27_imposed3) { bool s = vp_pick("scalar",0,1); with_mesh3(0, [&](auto& m) { imposed(m, s); }); }
