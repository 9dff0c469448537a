//@bound the nine laws of Behavior on meshes of two to four cells (every kind in 2D, two cells in 3D), integration degree 2, any strain or gradient given to one integration point; projections of fields of degree 0..1 on every cell
//@link triangle
//@link jb
#include <set>
#include "meshes.hpp"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
using namespace vp; using namespace disk;
template<int D> using Ma = static_matrix<T,D,D>; template<int D> using Te = static_tensor<T,D>;
#define IJ for (int i = 0; i < D; i++) for (int j = 0; j < D; j++)
template<int D> static void same(const Ma<D>& a, const Ma<D>& b, T tol, const char* l) { IJ vp_close(a(i,j), b(i,j), tol, l); }
static MaterialData<T> material() { MaterialData<T> d(5, 4, 1, 2, 1./64); d.setType(2); d.addCurvePoint(0, 1./64); d.addCurvePoint(1./64, 5./64); return d; }
// law l of its deformation, and a point of it on its own
static const size_t DEF[9] = {SMALL_DEF, SMALL_DEF, SMALL_DEF, SMALL_DEF, F_DEF, F_DEF, LOGARITHMIC_DEF, LOGARITHMIC_DEF, LOGARITHMIC_DEF};
static const size_t LAW[9] = {ELASTIC, LINEAR_HARDENING, NONLINEAR_HARDENING, HENCKY_MISES, NEOHOKEAN, CAVITATION, ELASTIC, LINEAR_HARDENING, NONLINEAR_HARDENING};
template<int D, typename F> static void with_law(int l, F f) { point<T,D> p; using mechanics::LogarithmicStrain_qp; switch (l) { case 0: f(LinearElasticity_qp<T,D>(p, 1.)); break; case 1: f(LinearIsotropicAndKinematicHardening_qp<T,D>(p, 1.)); break; case 2: f(IsotropicHardeningVMis_qp<T,D>(p, 1.)); break; case 3: f(HenckyMises_qp<T,D>(p, 1.)); break; case 4: f(Neohookean_qp<T,D>(p, 1.)); break; case 5: f(Cavitation_qp<T,D>(p, 1.)); break;
    case 6: f(LogarithmicStrain_qp<LinearElasticity_qp<T,D>>(p, 1.)); break; case 7: f(LogarithmicStrain_qp<LinearIsotropicAndKinematicHardening_qp<T,D>>(p, 1.)); break; default: f(LogarithmicStrain_qp<IsotropicHardeningVMis_qp<T,D>>(p, 1.)); } }
template<int D> static Ma<D> load(bool small, bool sym, bool big) { Ma<D> r = Ma<D>::Zero(); T s = big ? 0.02 : 1e-4; r(0,0) = s*0.5; r(D-1,D-1) = -s; r(0,1) = r(1,0) = s/4; if (!small) for (int i = 0; i < D; i++) r(i,i) += 1; if (sym) r(0,0) += vp_real("x", 0, 1e-5); return r; }
template<typename M> static void behavior(M& m, int l) { constexpr int D = M::dimension; using B = Behavior<M>; B b(m, 2, DEF[l], LAW[l]); auto d = material(); b.addMaterialData(d); bool small = DEF[l] == SMALL_DEF; vp_check(b.getDeformation() == DEF[l], "deformation"); vp_close(b.getMaterialData().getMu(), d.getMu(), 0, "material"); vp_check(b.getLawName() == LawTypeName(LAW[l]) && b.getDeformationName() == DeformationMeasureName(DEF[l]), "names");
    size_t n = 0, c = 0; for (auto& cl : m) { auto q = integrate(m, cl, 2); vp_check(b.numberOfQP(c) == q.size() && b.numberOfQP(m, cl) == q.size(), "every cell has the points of the quadrature"); for (size_t i = 0; i < q.size(); i++) { auto z = b.quadrature_point(c, i); vp_close(z.weight(), q[i].weight(), 0, "weights"); for (int k = 0; k < D; k++) vp_close(z.point().at(k), q[i].point().at(k), 0, "points"); vp_check(!b.is_plastic(c, i) && b.equivalentPlasticStrain(c, i) == 0, "points start elastic"); } n += q.size(); c++; } vp_check(b.numberOfQP() == n, "number of points");
    size_t tc = vp_pick("cell",0,1), tq = vp_pick("point",0,1); auto F = load<D>(small, l < 6, vp_pick("size",0,1));
    with_law<D>(l, [&](auto q) { auto o = q.compute_whole(F, d); auto r = b.compute_whole(tc, tq, F); same<D>(r.first, o.first, 1e-12, "stress of the law"); for (int i = 0; i < D*D; i++) for (int j = 0; j < D*D; j++) vp_close(r.second(i,j), o.second(i,j), 1e-12, "tangent of the law"); same<3>(b.compute_stress3D(tc, tq), q.compute_stress3D(d), 1e-12, "3D stress of the law"); vp_check(b.is_plastic(tc, tq) == q.is_plastic() && b.equivalentPlasticStrain(tc, tq) == q.getEquivalentPlasticStrain(), "state of the law");
        size_t k = 0; for (size_t c = 0; c < 2; c++) for (size_t i = 0; i < b.numberOfQP(c); i++) if (c != tc || i != tq) vp_check(!b.is_plastic(c, i) && b.equivalentPlasticStrain(c, i) == 0, "other points do not change");
        b.update(); q.update(); auto G = load<D>(small, false, false); auto o2 = q.compute_whole(G, d); auto r2 = b.compute_whole(tc, tq, G); same<D>(r2.first, o2.first, 1e-12, "stress after an update"); vp_check(b.is_plastic(tc, tq) == q.is_plastic() && b.equivalentPlasticStrain(tc, tq) == q.getEquivalentPlasticStrain(), "state after an update"); }); }
VP_H(P35_behavior2a) { int k = vp_pick("mesh",0,3), l = vp_pick("law",0,3); with_mesh2(k, [&](auto& m) { behavior(m, l); }); }
VP_H(P35_behavior2b) { int k = vp_pick("mesh",0,3), l = vp_pick("law",4,8); with_mesh2(k, [&](auto& m) { behavior(m, l); }); }
VP_T(P35_behavior3) { int k = vp_pick("mesh",0,1), l = vp_pick("law",0,8); with_mesh3(k, [&](auto& m) { behavior(m, l); }); }
VP_H(P35_combinations) { int df = vp_pick("def",0,3), lw = vp_pick("law",0,7); bool ok = false; for (int i = 0; i < 9; i++) ok |= DEF[i] == (size_t)df && LAW[i] == (size_t)lw; bool t = false; try { Behavior<simplicial_mesh<T,2>> b(df, lw); } catch (const std::invalid_argument&) { t = true; } vp_check(t == !ok, "laws are refused with the wrong deformation"); }
// projections on a cell: of the stress of a linear law (a strain of degree k gives the stress exactly), of the plastic strain and of the plastic state
template<typename M> static void projections(M& m, size_t k) { constexpr int D = M::dimension; hho_degree_info h(k, k, k); auto d = material(); size_t c = vp_pick("cell",0,1); auto cl = *std::next(m.cells_begin(), c); auto mb = make_matrix_monomial_basis(m, cl, k); dynamic_vector<T> x(mb.size()); T z[D][D][4]; IJ for (int a = 0; a <= D; a++) z[i][j][a] = j >= i && (a == 0 || k > 0) ? vp_real("e", -1, 1) : 0.; IJ if (j < i) for (int a = 0; a <= D; a++) z[i][j][a] = z[j][i][a];
    auto f = [&](const point<T,D>& p) { Ma<D> r; IJ { r(i,j) = z[i][j][0]; for (int a = 0; a < D; a++) r(i,j) += z[i][j][a+1]*p.at(a); } return r; };
    using L = LawTypeBones<M, LinearElasticity_qp<T,D>, false>; L law(m, 2*k+1); law.addMaterialData(d); auto& qs = law.getCellQPs(c).getQPs(); for (auto& q : qs) q.compute_whole(f(q.point()), d); auto v = law.getCellQPs(c).projectStressOnCell(m, cl, h, d); auto p = m.points_begin()[0]; { auto b = barycenter(m, cl); for (int a = 0; a < D; a++) p.at(a) = b.at(a) + 0.125*(a+1); } auto phi = mb.eval_functions(p); Ma<D> s = Ma<D>::Zero(); for (size_t i = 0; i < phi.size(); i++) s += v(i)*phi[i]; Ma<D> e = f(p), o = 2*d.getMu()*e + d.getLambda()*e.trace()*Ma<D>::Identity(); same<D>(s, o, 1e-6, "projected stress"); vp_check(law.getCellQPs(c).projectPOnCell(m, cl, h).isZero() && law.getCellQPs(c).projectStateOnCell(m, cl, h).isZero(), "elastic laws have no plastic state"); vp_check((size_t)law.getNumberOfQP() >= qs.size() && law.getCellIVs(c).getQPs().size() == qs.size(), "points of a cell");
    Behavior<M> B(m, 2*k+1, SMALL_DEF, ELASTIC); B.addMaterialData(d); for (size_t i = 0; i < qs.size(); i++) B.compute_whole(c, i, f(qs[i].point())); auto w = B.projectStressOnCell(m, cl, h); for (int i = 0; i < w.size(); i++) vp_close(w(i), v(i), 1e-9, "projected stress of a behavior"); }
VP_H(P35_projections) { int k = vp_pick("mesh",0,3), d = vp_pick("deg",0,1); with_mesh2(k, [&](auto& m) { projections(m, d); }); }
template<typename M> static void plastic(M& m, size_t k) { constexpr int D = M::dimension; hho_degree_info h(k, k, k); auto d = material(); size_t c = vp_pick("cell",0,1); auto cl = *std::next(m.cells_begin(), c); using L = LawTypeBones<M, LinearIsotropicAndKinematicHardening_qp<T,D>, true>; L law(m, 2*k+1); law.addMaterialData(d); auto& qs = law.getCellQPs(c).getQPs(); auto sb = make_scalar_monomial_basis(m, cl, k); dynamic_vector<T> P = dynamic_vector<T>::Zero(sb.size()), S = P; size_t n = 0; for (auto& q : qs) { Ma<D> e = Ma<D>::Zero(); if (n++ % 2 == 0) { e(0,0) = 0.01; e(0,1) = e(1,0) = vp_real("e", 0, 0.01); } q.compute_whole(e, d); auto phi = sb.eval_functions(q.point()); T w = q.weight()*q.getEquivalentPlasticStrain(); for (int i = 0; i < phi.size(); i++) { P(i) += w*phi(i); if (q.is_plastic()) S(i) += q.weight()*phi(i); } }
    auto mass = make_mass_matrix(m, cl, sb); dynamic_vector<T> a = mass*law.getCellQPs(c).projectPOnCell(m, cl, h), b = mass*law.getCellQPs(c).projectStateOnCell(m, cl, h); for (int i = 0; i < a.size(); i++) { vp_close(a(i), P(i), 1e-9, "projected plastic strain"); vp_close(b(i), S(i), 1e-9, "projected plastic state"); } }
VP_H(P35_plastic_projections) { int k = vp_pick("mesh",0,3), d = vp_pick("deg",0,1); with_mesh2(k, [&](auto& m) { plastic(m, d); }); }
