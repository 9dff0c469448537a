//@bound one tetrahedron of either orientation with one vertex moving freely (volume at least 0.02) for the geometry, along one axis for normals of a face, a fixed one of either orientation for the mass matrices with every constant field and every symmetric material tensor with entries up to 2; two tetrahedra for edges and edge numbers; every linear field
//@link jb
#include "meshes.hpp"
#include "diskpp/methods/dga"
using namespace vp;
typedef disk::simplicial_mesh<T,3> M;
typedef Eigen::Matrix<T,3,1> W;
static W cr(const W& a, const W& b) { return W(a(1)*b(2)-a(2)*b(1), a(2)*b(0)-a(0)*b(2), a(0)*b(1)-a(1)*b(0)); }
static T dt(const W& a, const W& b) { return a(0)*b(0)+a(1)*b(1)+a(2)*b(2); }
static W vec(const P3& a, const P3& b) { return W(b.x()-a.x(), b.y()-a.y(), b.z()-a.z()); }
static void same(const W& a, const W& b, const char* l) { for (int i = 0; i < 3; i++) vp_close(a(i), b(i), 1e-9, l); }
static W symw(const char* n) { return W(vp_real(n,-2,2), vp_real(n,-2,2), vp_real(n,-2,2)); }
static std::vector<P3> tet(bool sym) { std::vector<P3> p{V3(0.125,-0.125,0),V3(1.125,0.25,0.125),V3(0.25,1.25,-0.125),V3(0.125,0.25,1.125)}; if (vp_bool("mirror")) std::swap(p[1],p[2]); if (sym) { int k = vp_pick("vertex",0,3); for (int a = 0; a < 3; a++) p[k].at(a) += vp_real("move",-1,1); } return p; }
static T vol(const std::vector<P3>& p) { return dt(vec(p[0],p[1]), cr(vec(p[0],p[2]), vec(p[0],p[3])))/6; }
static const int E[6][2] = {{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}};
// faces in the order of faces(): opposite to vertex 3, 2, 1, 0 or otherwise; found from their points
template<typename FC> static int opposite(const FC& fc) { auto q = fc.point_ids(); return 6 - int(size_t(q[0])+size_t(q[1])+size_t(q[2])); }
VP_H(P30_geometry) { auto p = tet(true); T v = vol(p); bool neg = v < 0; vp_assume(neg ? v < -0.02 : v > 0.02); M m; build_tet(m, p, {{0,1,2,3}}); auto cl = *m.cells_begin(); auto fcs = faces(m, cl); T sg = neg ? -1 : 1;
    vp_close(disk::priv::volume_signed(m, cl), v, 1e-9, "signed volume"); vp_close(disk::priv::volume_unsigned(m, cl), sg*v, 1e-9, "volume");
    auto pev = disk::primal_edge_vectors(m, cl); auto dav = disk::dual_area_vectors(m, cl); auto pav = disk::primal_area_vectors(m, cl); auto dev = disk::dual_edge_vectors(m, cl); auto ed = disk::edges(m, cl);
    W c(0,0,0); for (auto& x : p) c += W(x.x(),x.y(),x.z())*T(0.25); auto org = V3(0.,0.,0.);
    for (int i = 0; i < 6; i++) { auto q = ed[i].point_ids(); vp_check(size_t(q[0]) == size_t(E[i][0]) && size_t(q[1]) == size_t(E[i][1]), "edges of a tetrahedron"); same(pev[i], vec(p[E[i][0]],p[E[i][1]]), "edge vectors"); same(disk::primal_edge_vectors(m, ed[i]), pev[i], "vector of one edge");
        // dual face: barycentre of the edge, of the two faces around it and of the cell; through it flows what the quadrilateral catches
        W b(0,0,0), f[2]; int n = 0; for (int k = 0; k < 4; k++) if (k != E[i][0] && k != E[i][1]) { f[n] = W(0,0,0); f[n] += W(p[k].x(),p[k].y(),p[k].z()); n++; } W a = W(p[E[i][0]].x(),p[E[i][0]].y(),p[E[i][0]].z()), d = W(p[E[i][1]].x(),p[E[i][1]].y(),p[E[i][1]].z()); b = (a+d)*T(0.5); for (auto& x : f) { W t = (x + a + d)/T(3); x = t; }
        W area = cr(W(c-b), W(f[1]-f[0]))*T(0.5); T o = dt(area, pev[i]); if (o < 0) area = -area; same(dav[i], area, "dual faces are the quadrilaterals of barycentres, along the edges"); vp_check(dt(pev[i], dav[i]) > 0, "dual faces are crossed by their edge"); }
    for (int i = 0; i < 4; i++) { int o = opposite(fcs[i]); int j[3], n = 0; for (int k = 0; k < 4; k++) if (k != o) j[n++] = k; W a = cr(vec(p[j[0]],p[j[1]]), vec(p[j[0]],p[j[2]]))*T(0.5); same(pav[i], a, "face vectors are the oriented areas"); W fb(0,0,0); for (int k = 0; k < 3; k++) fb += W(p[j[k]].x(),p[j[k]].y(),p[j[k]].z())/T(3); W e = fb - c; T s = dt(e, a); if (s < 0) e = -e; same(dev[i], e, "dual edges join the barycentres, along the face vectors"); }
    Eigen::Matrix<T,3,3> A = Eigen::Matrix<T,3,3>::Zero(), B = A; for (int i = 0; i < 6; i++) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) A(a,b) += pev[i](a)*dav[i](b); for (int i = 0; i < 4; i++) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) B(a,b) += pav[i](a)*dev[i](b);
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { vp_close(A(a,b), a == b ? sg*v : T(0), 1e-8, "edges and dual faces split the volume"); vp_close(B(a,b), a == b ? sg*v : T(0), 1e-8, "faces and dual edges split the volume"); } }
VP_H(P30_stokes) { auto p = tet(true); M m; build_tet(m, p, {{0,1,2,3}}); auto cl = *m.cells_begin(); auto G = disk::grad_matrix(m, cl); auto C = disk::curl_matrix(m, cl); auto pav = disk::primal_area_vectors(m, cl); auto pev = disk::primal_edge_vectors(m, cl); W g = symw("g"), r = symw("r");
    Eigen::Matrix<T,4,1> u; Eigen::Matrix<T,6,1> e, w; for (int i = 0; i < 4; i++) u(i) = g(0)*p[i].x() + g(1)*p[i].y() + g(2)*p[i].z();
    for (int i = 0; i < 6; i++) { W mid = W(p[E[i][0]].x()+p[E[i][1]].x(), p[E[i][0]].y()+p[E[i][1]].y(), p[E[i][0]].z()+p[E[i][1]].z())*T(0.5); e(i) = dt(g, pev[i]); w(i) = dt(cr(r, mid), pev[i]); }
    auto I = disk::integrate_on_primal_edges(m, cl, disk::vec3<T>(g)); for (int i = 0; i < 6; i++) { T s = 0; for (int k = 0; k < 4; k++) s += G(i,k)*u(k); vp_close(s, e(i), 1e-9, "gradients are differences"); vp_close(I(i), e(i), 1e-9, "circulation of a constant field"); }
    for (int i = 0; i < 4; i++) { T s = 0; for (int k = 0; k < 6; k++) s += C(i,k)*w(k); vp_close(s, 2*dt(r, pav[i]), 1e-8, "the flux of the curl is the circulation around the face"); for (int k = 0; k < 4; k++) { T z = 0; for (int l = 0; l < 6; l++) z += C(i,l)*G(l,k); vp_check(z == 0, "gradients have no curl"); } } }
VP_H(P30_integrals) { auto p = tet(true); T v = vol(p); vp_assume(v < 0 ? v < -0.02 : v > 0.02); M m; build_tet(m, p, {{0,1,2,3}}); auto cl = *m.cells_begin(); disk::vec3<T> g = symw("g"); auto pav = disk::primal_area_vectors(m, cl); auto dev = disk::dual_edge_vectors(m, cl); auto dav = disk::dual_area_vectors(m, cl);
    auto F = disk::integrate_on_primal_faces(m, cl, g); auto D = disk::integrate_on_dual_edges(m, cl, g); auto A = disk::integrate_on_dual_faces(m, cl, g); vp_check(F.size() == 4 && D.size() == 4 && A.size() == 6, "sizes"); for (int i = 0; i < 4; i++) { vp_close(F(i), dt(g, pav[i]), 1e-9, "flux of a constant field through the faces"); vp_close(D(i), dt(g, dev[i]), 1e-9, "circulation of a constant field along the dual edges"); } for (int i = 0; i < 6; i++) vp_close(A(i), dt(g, dav[i]), 1e-9, "flux of a constant field through the dual faces"); }
static Eigen::Matrix<T,3,3> material() { Eigen::Matrix<T,3,3> K; for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) K(i,j) = K(j,i) = vp_real("k",-2,2); return K; }
VP_H(P30_mass) { auto p = tet(false); M m; build_tet(m, p, {{0,1,2,3}}); auto cl = *m.cells_begin(); auto pev = disk::primal_edge_vectors(m, cl); auto dav = disk::dual_area_vectors(m, cl); auto pav = disk::primal_area_vectors(m, cl); auto dev = disk::dual_edge_vectors(m, cl); int axis = vp_pick("field",0,2); W f(axis == 0, axis == 1, axis == 2); bool sc = vp_bool("scalar"); T s = sc ? vp_real("s",-2,2) : T(0); Eigen::Matrix<T,3,3> K = sc ? Eigen::Matrix<T,3,3>(s*Eigen::Matrix<T,3,3>::Identity()) : material();
    Eigen::Matrix<T,6,6> Me; Eigen::Matrix<T,4,4> Mf; if (sc) { Me = disk::edge_matrix(m, cl, s); Mf = disk::face_matrix(m, cl, s); } else { disk::static_matrix<T,3,3> t = K; Me = disk::edge_matrix(m, cl, t); Mf = disk::face_matrix(m, cl, t); }
    W k(K(0,axis), K(1,axis), K(2,axis)); for (int i = 0; i < 6; i++) { T r = 0; for (int j = 0; j < 6; j++) { r += Me(i,j)*dt(f, pev[j]); vp_close(Me(i,j), Me(j,i), 1e-12, "symmetric"); } vp_close(r, dt(k, dav[i]), 1e-9, "constant fields give the flux through the dual faces"); }
    for (int i = 0; i < 4; i++) { T r = 0; for (int j = 0; j < 4; j++) { r += Mf(i,j)*dt(f, pav[j]); vp_close(Mf(i,j), Mf(j,i), 1e-12, "symmetric"); } vp_close(r, dt(k, dev[i]), 1e-9, "constant fluxes give the circulation along the dual edges"); } }
VP_H(P30_positive) { auto p = tet(false); M m; build_tet(m, p, {{0,1,2,3}}); auto cl = *m.cells_begin(); T s = vp_real("s",0.25,2); auto Me = disk::edge_matrix(m, cl, s); auto Mf = disk::face_matrix(m, cl, s); // pivots
    Eigen::Matrix<T,-1,-1> A = Me; for (int q = 0; q < 2; q++) { int n = A.rows(); for (int i = 0; i < n; i++) { vp_check(A(i,i) > 1e-6, "positive definite"); for (int r = i+1; r < n; r++) { T l = A(r,i)/A(i,i); for (int c = i; c < n; c++) A(r,c) -= l*A(i,c); } } A = Mf; } }
// normals of a cell; vectors of a single face
VP_H(P30_normals) { auto p = tet(true); T v = vol(p); vp_assume(v < 0 ? v < -0.02 : v > 0.02); M m; build_tet(m, p, {{0,1,2,3}}); auto cl = *m.cells_begin(); auto fcs = faces(m, cl); auto n = disk::priv::normals(m, cl); for (int i = 0; i < 4; i++) { int o = opposite(fcs[i]); int j[3], c = 0; for (int k = 0; k < 4; k++) if (k != o) j[c++] = k; vp_close(dt(n[i],n[i]), 1, 1e-8, "unit"); vp_close(dt(n[i], vec(p[j[0]],p[j[1]])), 0, 1e-8, "orthogonal to the face"); vp_close(dt(n[i], vec(p[j[0]],p[j[2]])), 0, 1e-8, "orthogonal to the face"); vp_check(dt(n[i], vec(p[o],p[j[0]])) > 0, "outward"); } }
VP_H(P30_face_vectors) { auto p = tet(true); T v = vol(p); bool neg = v < 0; vp_assume(neg ? v < -0.02 : v > 0.02); M m; build_tet(m, p, {{0,1,2,3}}); auto cl = *m.cells_begin(); auto fcs = faces(m, cl); int i = vp_pick("face",0,3); auto fc = fcs[i]; int o = opposite(fc); int j[3], c = 0; for (int k = 0; k < 4; k++) if (k != o) j[c++] = k; auto pev = disk::primal_edge_vectors(m, fc); auto dev = disk::dual_edge_vectors(m, fc, cl); auto ed = disk::edges(m, fc); static const int L[3][2] = {{0,1},{0,2},{1,2}};
    W bar(0,0,0); for (int k = 0; k < 3; k++) bar += W(p[j[k]].x(),p[j[k]].y(),p[j[k]].z())/T(3);
    for (int k = 0; k < 3; k++) { int a = j[L[k][0]], b = j[L[k][1]]; auto q = ed[k].point_ids(); vp_check(int(size_t(q[0])) == a && int(size_t(q[1])) == b, "edges of a face"); same(pev[k], vec(p[a],p[b]), "edge vectors of a face"); W mid = W(p[a].x()+p[b].x(), p[a].y()+p[b].y(), p[a].z()+p[b].z())*T(0.5); W e = bar - mid; for (int x = 0; x < 3; x++) { T d = dev[k](x)*dev[k](x) - e(x)*e(x); vp_close(d, 0, 1e-8, "dual edges of a face join the barycentres"); } vp_check(dt(cr(pev[k], W(dev[k])), vec(p[o],p[j[0]])) > 0, "edge times dual edge points out of the cell"); } }
VP_H(P30_face_normals) { std::vector<P3> p{V3(0.125,-0.125,0),V3(1.125,0.25,0.125),V3(0.25,1.25,-0.125),V3(0.125,0.25,1.125)}; { int k = vp_pick("vertex",0,3), a = vp_pick("axis",0,2); p[k].at(a) += vp_real("move",-0.5,0.5); } M m; build_tet(m, p, {{0,1,2,3}}); auto cl = *m.cells_begin(); auto fc = faces(m, cl)[vp_pick("face",0,3)]; int o = opposite(fc); int j[3], c = 0; for (int k = 0; k < 4; k++) if (k != o) j[c++] = k; W N = cr(vec(p[j[0]],p[j[1]]), vec(p[j[0]],p[j[2]])); vp_assume(dt(N,N) > 0.02); auto n = disk::priv::normals(m, fc); static const int L[3][3] = {{0,1,2},{0,2,1},{1,2,0}};
    for (int k = 0; k < 3; k++) { vp_close(dt(n[k],n[k]), 1, 1e-8, "unit"); vp_close(dt(n[k], vec(p[j[L[k][0]]],p[j[L[k][1]]])), 0, 1e-8, "orthogonal to the edge"); vp_close(dt(n[k], N), 0, 1e-8, "in the plane of the face"); vp_check(dt(n[k], vec(p[j[L[k][2]]],p[j[L[k][0]]])) > 0, "outward"); } }
VP_H(P30_edges) { M m; build_tet(m, {V3(0.,0.,0.),V3(1.,0.1,0.),V3(0.2,0.9,0.),V3(0.1,0.2,1.),V3(0.9,1.,0.8)}, {{0,1,2,3},{1,2,3,4}}); { size_t n = 0; auto es = disk::edges(m); for (auto& e : es) { vp_check(size_t(disk::offset(m, e)) == n, "number of an edge"); n++; } vp_check(n == es.size() && n == 9, "all edges are listed"); for (auto& cl : m) { auto a = disk::edges(m, cl); auto id = disk::edge_ids(m, cl); for (int i = 0; i < 6; i++) vp_check(*(es.begin() + id[i]) == a[i], "edge numbers of a cell"); for (auto& fc : faces(m, cl)) { auto b = disk::edges(m, fc); auto jd = disk::edge_ids(m, fc); for (int i = 0; i < 3; i++) vp_check(*(es.begin() + jd[i]) == b[i], "edge numbers of a face"); } }
    typename M::edge_type bad({disk::point_identifier<3>(0), disk::point_identifier<3>(4)}); bool t = false; try { disk::offset(m, bad); } catch (std::invalid_argument&) { t = true; } vp_check(t, "edges that are not in the mesh are refused"); } vp_print("x", vp_real("x",0,1)); }
