//@bound triangles, rectangles, segments, tetrahedra and prisms with vertices anywhere in boxes around reference positions, both orientations of the vertex order; star-shaped polygons of up to 6 vertices with one vertex moving in a box; hexahedral boxes with symbolic sides
//@assume cells are star-shaped with respect to their barycentre (the stated domain of the property)
#include "meshes.hpp"
using namespace vp;
// unit, orthogonal to the side, pointing away from the cell's other vertices
template<typename M> static void check2(const M& msh, const typename M::cell_type& cl, const std::vector<P2>& loop, T tol) {
    T sx = 0, sy = 0;
    for (auto& fc : faces(msh, cl)) {
        auto n = normal(msh, cl, fc); auto q = points(msh, fc);
        vp_close(n[0]*n[0]+n[1]*n[1], 1, tol, "unit normal");
        T dx = q[1].x()-q[0].x(), dy = q[1].y()-q[0].y();
        vp_close(n[0]*dx+n[1]*dy, 0, tol, "normal orthogonal to the face");
        T m = measure(msh, fc); sx += m*n[0]; sy += m*n[1];
        // outward: walking the loop counterclockwise, the outward normal is (dy,-dx)
        for (size_t i = 0; i < loop.size(); i++) { auto &a = loop[i], &b = loop[(i+1)%loop.size()];
            T e1 = (a.x()-q[0].x()), e2 = a.y()-q[0].y(), f1 = b.x()-q[1].x(), f2 = b.y()-q[1].y(), g1 = a.x()-q[1].x(), g2 = a.y()-q[1].y(), h1 = b.x()-q[0].x(), h2 = b.y()-q[0].y();
            bool fw = !vp_is_sym(e1) && e1 == 0 && !vp_is_sym(e2) && e2 == 0 && !vp_is_sym(f1) && f1 == 0 && !vp_is_sym(f2) && f2 == 0, bw = !vp_is_sym(g1) && g1 == 0 && !vp_is_sym(g2) && g2 == 0 && !vp_is_sym(h1) && h1 == 0 && !vp_is_sym(h2) && h2 == 0;
            if (fw || bw) { T ox = b.y()-a.y(), oy = a.x()-b.x(); vp_check(n[0]*ox + n[1]*oy > 0, "normal points outward"); } }
        auto nf = normal(msh, fc); vp_close(nf[0]*nf[0]+nf[1]*nf[1], 1, tol, "unit face normal"); vp_close(nf[0]*dx+nf[1]*dy, 0, tol, "face normal orthogonal");
        auto nf2 = normal(msh, fc); vp_close(nf[0], nf2[0], 0, "face normal depends on the face only");
    }
    vp_close(sx, 0, 10*tol, "normals weighted by lengths sum to zero (x)"); vp_close(sy, 0, 10*tol, "normals weighted by lengths sum to zero (y)");
}
VP_H(P07_triangle) { disk::simplicial_mesh<T,2> msh; std::vector<P2> p{pt2("a",0,0,0.2), pt2("b",1,0.1,0.2), pt2("c",0.2,1,0.2)}; std::vector<P2> l = p; if (vp_bool("clockwise")) std::swap(p[1], p[2]); build_tri(msh, p, {{0,1,2}}); check2(msh, *msh.cells_begin(), l, 1e-9); }
VP_H(P07_rectangle) { disk::cartesian_mesh<T,2> msh; P2 o = pt2("o",0,0,3); T ux = vp_real("ux",0.2,3), uy = vp_real("uy",-3,3), s = vp_real("s",0.1,4);
    std::vector<P2> p{o, V2(o.x()+ux,o.y()+uy), V2(o.x()-s*uy,o.y()+s*ux), V2(o.x()+ux-s*uy,o.y()+uy+s*ux)}; build_cart(msh, p, {{0,1,2,3}}); check2(msh, *msh.cells_begin(), {p[0],p[1],p[3],p[2]}, 1e-7); }
static void moving(std::vector<P2> p, T r, bool cw) { int k = vp_pick("which", 0, p.size()-1); p[k] = pt2("p", p[k].x(), p[k].y(), r); auto l = p; std::vector<size_t> loop(p.size()); std::iota(loop.begin(), loop.end(), 0); if (cw) std::reverse(loop.begin(), loop.end());
    disk::generic_mesh<T,2> msh; build_poly(msh, p, {loop}); check2(msh, *msh.cells_begin(), l, 1e-8); }
VP_H(P07_quad) { moving({V2(0,0),V2(1,0.1),V2(1.1,1),V2(-0.1,0.9)}, 0.2, vp_bool("cw")); }
VP_H(P07_pentagon) { moving({V2(0,0),V2(1,-0.2),V2(1.5,0.7),V2(0.6,1.3),V2(-0.3,0.8)}, 0.2, false); }
VP_H(P07_arrow) { moving({V2(0,0),V2(1,-0.6),V2(0.5,0.4),V2(0,1.2),V2(-0.6,0.1)}, 0.05, false); }
VP_H(P07_1d) { disk::generic_mesh<T,1> msh; T a = vp_real("a",-3,3), l = vp_real("l",0.01,3); build_1d(msh, {a, a+l, a+l+1}); for (auto& cl : msh) { auto f = faces(msh, cl); vp_close(normal(msh,cl,f[0]), -1, 0, "left normal"); vp_close(normal(msh,cl,f[1]), 1, 0, "right normal"); } }
template<typename M> static void check3(const M& msh, const typename M::cell_type& cl, const std::vector<P3>& all, T tol) {

    for (auto& fc : faces(msh, cl)) {
        auto n = normal(msh, cl, fc); auto q = points(msh, fc);
        vp_close(n[0]*n[0]+n[1]*n[1]+n[2]*n[2], 1, tol, "unit normal");
        for (size_t i = 1; i < q.size(); i++) vp_close(n[0]*(q[i].x()-q[0].x())+n[1]*(q[i].y()-q[0].y())+n[2]*(q[i].z()-q[0].z()), 0, tol, "normal orthogonal to the face");
        auto bc = all[0]; for (size_t i = 1; i < all.size(); i++) bc = bc + all[i]; bc = bc/T(all.size());
        vp_check(n[0]*(q[0].x()-bc.x())+n[1]*(q[0].y()-bc.y())+n[2]*(q[0].z()-bc.z()) > 0, "normal points away from the interior");
        auto nf = normal(msh, fc); vp_close(nf[0]*nf[0]+nf[1]*nf[1]+nf[2]*nf[2], 1, tol, "unit face normal"); T dp = nf[0]*n[0]+nf[1]*n[1]+nf[2]*n[2]; vp_close(dp*dp, 1, 10*tol, "face normal parallel to the outward normal");
    }

}
VP_H(P07_tet) { disk::simplicial_mesh<T,3> msh; std::vector<P3> p{V3(0,0,0),V3(1,0.1,0),V3(0.2,1,0.1),V3(0.1,0.2,1)}; int k = vp_pick("which",0,3); p[k] = pt3("p", p[k].x(), p[k].y(), p[k].z(), 0.2); if (vp_bool("mirror")) std::swap(p[1], p[2]);
    build_tet(msh, p, {{0,1,2,3}}); check3(msh, *msh.cells_begin(), p, 1e-8); }
VP_H(P07_box) { disk::cartesian_mesh<T,3> msh; P3 o = pt3("o",0,0,0,2); T a = vp_real("a",0.1,3), b = vp_real("b",0.1,3), c = vp_real("c",0.1,3);
    std::vector<P3> p; for (int i = 0; i < 8; i++) p.push_back(V3(o.x()+(i&1?a:0), o.y()+(i&2?b:0), o.z()+(i&4?c:0))); build_cart(msh, p, {{0,1,2,3,4,5,6,7}}); check3(msh, *msh.cells_begin(), p, 1e-8); }
VP_H(P07_prism) { disk::generic_mesh<T,3> msh; T h = vp_real("h",0.3,2), t = vp_real("t",-0.3,0.3); std::vector<P3> p{V3(0,0,0),V3(1,0,0),V3(0.3+t,1,0),V3(0,0,h),V3(1,0,h),V3(0.3+t,1,h)}; if (vp_bool("shear")) for (int i = 3; i < 6; i++) p[i] = V3(p[i].x()+t, p[i].y(), p[i].z());
    build_poly3(msh, p, {{{0,1,2},{3,4,5},{0,1,4,3},{1,2,5,4},{0,2,5,3}}}); check3(msh, *msh.cells_begin(), p, 1e-8); }
// star-shaped cells where the mean of the vertices is on the wrong side of an edge (many hanging nodes on a reentrant part)
VP_H(P07_hanging) { T d = vp_real("d",0.55,0.72), h = vp_real("hang",0.25,0.4); disk::generic_mesh<T,2> msh; std::vector<P2> p; auto lerp = [](T x, T y, T u, T v, T t) { return P2(x+t*(u-x), y+t*(v-y)); };
    p = {V2(0,0),V2(1,-1),lerp(1,-1,d,0,h),lerp(1,-1,d,0,2*h),P2(d,T(0)),lerp(d,0,1,1,h),lerp(d,0,1,1,2*h),V2(1,1)}; bool cw = vp_bool("cw"); std::vector<size_t> loop(p.size()); std::iota(loop.begin(), loop.end(), 0); if (cw) std::reverse(loop.begin(), loop.end()); build_poly(msh, p, {loop}); check2(msh, *msh.cells_begin(), p, 1e-7); }
