//@bound every coordinate any real in [-10,10], scale factors in [-5,5] minus 0 for division; dimensions 1, 2, 3
#include "meshes.hpp"
using namespace vp;
template<size_t D> disk::point<T,D> sp(const char* n) { disk::point<T,D> p; for (size_t i = 0; i < D; i++) p[i] = vp_real(n, -10, 10); return p; }
template<size_t D> static void algebra() {
    auto a = sp<D>("a"), b = sp<D>("b"); T s = vp_real("s", 0.1, 5); if (vp_bool("neg")) s = -s;
    auto c = a+b, d = a-b, e = a*s, f = s*a, g = a/s, h = -a, m = disk::midpoint(a,b);
    for (size_t i = 0; i < D; i++) {
        vp_close(c[i], a[i]+b[i], 1e-12, "sum"); vp_close(d[i], a[i]-b[i], 1e-12, "difference"); vp_close(e[i], a[i]*s, 1e-12, "scaling"); vp_close(f[i], a[i]*s, 1e-12, "scaling from the left");
        vp_close(g[i]*s, a[i], 1e-12, "division by a scalar"); vp_close(h[i], -a[i], 1e-12, "opposite"); vp_close(2*m[i], a[i]+b[i], 1e-12, "midpoint");
        vp_close(a.to_vector()(i), a[i], 0, "to_vector"); vp_close(disk::to_vector(a)(i), a[i], 0, "free to_vector"); vp_close(disk::point<T,D>(a.to_vector())[i], a[i], 0, "from vector");
        vp_close(a.at(i), a[i], 0, "at");
        vp_close((a + b.to_vector())[i], a[i]+b[i], 1e-12, "point plus vector"); vp_close((b.to_vector() + a)[i], a[i]+b[i], 1e-12, "vector plus point");
    }
    T q = disk::distance(a,b), r = 0; for (size_t i = 0; i < D; i++) r += (a[i]-b[i])*(a[i]-b[i]);
    vp_close(q*q, r, 1e-9, "distance squared"); vp_check(q >= 0, "distance nonnegative"); vp_close(q, disk::distance(b,a), 1e-12, "distance symmetric");
    disk::point<T,D> z; for (size_t i = 0; i < D; i++) vp_close(z[i], 0, 0, "default point is the origin");
    disk::point<T,D> w; w = a; w.set_all(s); for (size_t i = 0; i < D; i++) vp_close(w[i], s, 0, "set_all");
}
VP_H(P02_1d) { algebra<1>(); auto a = sp<1>("c"); vp_close(a.x(), a[0], 0, "x"); disk::point<T,1> l{a[0]}; vp_close(l.x(), a[0], 0, "list"); }
VP_H(P02_2d) { algebra<2>(); auto a = sp<2>("c"), b = sp<2>("d"); vp_close(a.x(), a[0], 0, "x"); vp_close(a.y(), a[1], 0, "y"); vp_close(disk::det(a,b), a[0]*b[1]-a[1]*b[0], 1e-12, "determinant");
    disk::point<T,2> l({a[0], a[1]}); vp_close(l.y(), a[1], 0, "list"); disk::point<T,2> m(b[0], b[1]); vp_close(m.x(), b[0], 0, "components"); m.y() = a[0]; vp_close(m[1], a[0], 0, "y is assignable"); vp_close(m[0], b[0], 0, "x kept"); }
VP_H(P02_3d) { algebra<3>(); auto a = sp<3>("c"); vp_close(a.x(), a[0], 0, "x"); vp_close(a.y(), a[1], 0, "y"); vp_close(a.z(), a[2], 0, "z");
    disk::point<T,3> l({a[0], a[1], a[2]}); vp_close(l.z(), a[2], 0, "list"); disk::point<T,3> m(a[2], a[1], a[0]); vp_close(m.x(), a[2], 0, "components"); m.z() = a[1]; vp_close(m[2], a[1], 0, "z is assignable");
    bool th = false; try { disk::point<T,3> bad({a[0], a[1]}); } catch (const std::invalid_argument&) { th = true; } vp_check(th, "a list of the wrong length is rejected"); }
VP_H(P02_mixed) { T x = vp_real("x",-10,10); int k = vp_pick("k",-1,1); disk::point<T,2> a(x, k), b(k, x); disk::point<T,3> c(x, k, x), d(x, x, k), e(k, k, x); vp_close(a[0], x, 0, "real and integer arguments: first"); vp_close(a[1], k, 0, "real and integer arguments: second"); vp_close(b[0], k, 0, "integer first"); vp_close(b[1], x, 0, "real second"); vp_close(c[0], x, 0, "3D first"); vp_close(c[1], k, 0, "3D second"); vp_close(c[2], x, 0, "3D third"); vp_close(d[0], x, 0, "3D first"); vp_close(d[1], x, 0, "3D second"); vp_close(e[2], x, 0, "3D third"); }
