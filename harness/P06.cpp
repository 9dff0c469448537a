//@bound triangles: every vertex anywhere in a box of half-width 0.25 around a reference triangle, both orientations; rectangles: any corner, side in any direction, any aspect; polygons of 4 to 6 vertices (convex and an arrow head), every vertex in a box around a reference position; segments anywhere
#include "meshes.hpp"
using namespace vp;
VP_H(P06_triangle) {
    disk::simplicial_mesh<T,2> msh;
    std::vector<P2> p{pt2("a",0,0,0.25), pt2("b",1,0.1,0.25), pt2("c",0.2,1,0.25)};
    if (vp_bool("clockwise")) std::swap(p[1], p[2]);
    build_tri(msh, p, {{0,1,2}});
    auto cl = *msh.cells_begin();
    T s = signed_area(p), as = s < 0 ? -s : s;
    T m = measure(msh, cl), ms = measure(msh, cl, true);
    vp_check(m > 0, "area positive"); vp_close(m*m, s*s, 1e-9, "area of a triangle"); vp_close(ms*as, m*s, 1e-9, "signed area of a triangle");
    auto b = barycenter(msh, cl);
    vp_close(3*b.x(), p[0].x()+p[1].x()+p[2].x(), 1e-12, "barycenter x"); vp_close(3*b.y(), p[0].y()+p[1].y()+p[2].y(), 1e-12, "barycenter y");
    vp_check(points(msh, cl).size() == 3, "three points");
}
VP_H(P06_face) {
    disk::simplicial_mesh<T,2> msh; std::vector<P2> p{pt2("a",0,0,3), pt2("b",0,0,3), V2(20,30)};
    build_tri(msh, p, {{0,1,2}});
    auto fc = *msh.faces_begin(); T l = measure(msh, fc), dx = p[1].x()-p[0].x(), dy = p[1].y()-p[0].y();
    vp_check(l >= 0, "length nonnegative"); vp_close(l*l, dx*dx+dy*dy, 1e-9, "length of a face");
    auto b = barycenter(msh, fc); vp_close(2*b.x(), p[0].x()+p[1].x(), 1e-12, "midpoint x"); vp_close(2*b.y(), p[0].y()+p[1].y(), 1e-12, "midpoint y");
    T h = diameter(msh, fc); vp_close(h*h, l*l, 1e-9, "diameter of a face is its length");
}
VP_H(P06_rectangle) {
    disk::cartesian_mesh<T,2> msh;
    P2 o = pt2("o",0,0,3); T ux = vp_real("ux",0.2,3), uy = vp_real("uy",-3,3), s = vp_real("s",0.1,4);
    std::vector<P2> p{o, V2(o.x()+ux,o.y()+uy), V2(o.x()-s*uy,o.y()+s*ux), V2(o.x()+ux-s*uy,o.y()+uy+s*ux)};
    build_cart(msh, p, {{0,1,2,3}});
    auto cl = *msh.cells_begin();
    T m = measure(msh, cl), a = s*(ux*ux+uy*uy);
    vp_check(m > 0, "area positive"); vp_close(m*m, a*a, 1e-7, "area of a rectangle");
    auto b = barycenter(msh, cl); vp_close(2*b.x(), p[0].x()+p[3].x(), 1e-9, "centre x"); vp_close(2*b.y(), p[0].y()+p[3].y(), 1e-9, "centre y");
    T per = 0; for (auto& fc : faces(msh, cl)) { T l = measure(msh, fc); per += l*l; }
    vp_close(per, 2*(1+s*s)*(ux*ux+uy*uy), 1e-7, "side lengths of a rectangle");
}
static void polygon(const std::vector<P2>& p, bool bary) {
    disk::generic_mesh<T,2> msh; std::vector<size_t> loop(p.size()); std::iota(loop.begin(), loop.end(), 0);
    build_poly(msh, p, {loop});
    auto cl = *msh.cells_begin();
    T s = signed_area(p);
    vp_close(measure(msh, cl), s, 1e-9, "area of a polygon");
    if (bary) { auto b = barycenter(msh, cl); vp_close(b.x()*s, poly_moment(p,1,0), 1e-9, "centroid x"); vp_close(b.y()*s, poly_moment(p,0,1), 1e-9, "centroid y"); }
    vp_check(faces(msh, cl).size() == p.size() && howmany_faces(msh, cl) == p.size(), "one face per side");
}
VP_H(P06_bary) { int n = vp_pick("n", 3, 6); std::vector<P2> p; for (int i = 0; i < n; i++) p.push_back(pt2("p", std::cos(2*M_PI*i/n)+0.3, std::sin(2*M_PI*i/n), 0.2));
    disk::generic_mesh<T,2> msh; std::vector<size_t> loop(n); std::iota(loop.begin(), loop.end(), 0); build_poly(msh, p, {loop}); auto cl = *msh.cells_begin(); auto b = barycenter(msh, cl); T s = signed_area(p);
    vp_close(b.x()*s, poly_moment(p,1,0), 1e-9, "centroid x"); vp_close(b.y()*s, poly_moment(p,0,1), 1e-9, "centroid y"); }
// sides between fixed vertices, one vertex anywhere in a box: every vertex in turn
static void one_moving(std::vector<P2> p, T r) { int k = vp_pick("which", 0, p.size()-1); p[k] = pt2("p", p[k].x(), p[k].y(), r); polygon(p, true); }
VP_H(P06_quad) { one_moving({V2(0,0),V2(1,0.1),V2(1.1,1),V2(-0.1,0.9)}, 0.2); }
VP_H(P06_pentagon) { one_moving({V2(0,0),V2(1,-0.2),V2(1.5,0.7),V2(0.6,1.3),V2(-0.3,0.8)}, 0.2); }
VP_H(P06_hexagon) { one_moving({V2(0,0),V2(1,-0.2),V2(1.5,0.7),V2(1,1.3),V2(0.2,1.4),V2(-0.3,0.8)}, 0.15); }
VP_H(P06_arrow) { one_moving({V2(0,0),V2(1,-0.6),V2(0.5,0.4),V2(0,1.2),V2(-0.6,0.1)}, 0.08); }   // nonconvex, star-shaped with respect to its centroid
VP_H(P06_hanging) { T t = vp_real("t", 0.2, 0.8); std::vector<P2> p{V2(0,0),V2(1,0),V2(1,t),V2(1,1),V2(0,1)}; polygon(p, true); }   // flat angle
VP_T(P06_quad2) { std::vector<P2> p{pt2("a",0,0,0.15),V2(1,0.1),pt2("c",1.1,1,0.15),V2(-0.1,0.9)}; polygon(p, true); }
VP_H(P06_1d) { disk::generic_mesh<T,1> msh; T a = vp_real("a",-3,3), l = vp_real("l",0.01,3), l2 = vp_real("l2",0.01,3); build_1d(msh, {a, a+l, a+l+l2}); auto it = msh.cells_begin();
    vp_close(measure(msh, *it), l, 1e-9, "length of a 1D cell"); vp_close(barycenter(msh, *it).x(), a+l/2, 1e-9, "midpoint of a 1D cell"); ++it; vp_close(measure(msh, *it), l2, 1e-9, "length of a 1D cell");
    vp_close(measure(msh, *msh.faces_begin()), 1, 0, "measure of a point"); vp_close(diameter(msh, *it), l2, 1e-9, "diameter of a 1D cell"); }
