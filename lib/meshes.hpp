// Mesh builders for the harnesses (through the library's public storage) and exact oracles.
#pragma once
#include <iostream>
#include <cmath>
#include <cstdint>
#include <array>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <numeric>
#include "vp.hpp"
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/geometry/geometry.hpp"

namespace vp {
typedef double T;
using P1 = disk::point<T,1>; using P2 = disk::point<T,2>; using P3 = disk::point<T,3>;

inline P2 V2(T x, T y) { return P2(x, y); }
inline P3 V3(T x, T y, T z) { return P3(x, y, z); }
// ---------- builders
template<typename Storage>
void finish_boundary(Storage& st, size_t nfaces, const std::vector<int>& count)
{
    st->boundary_info.resize(nfaces);
    for (size_t i = 0; i < nfaces; i++) if (count[i] == 1) st->boundary_info[i] = disk::boundary_descriptor(i % 3, true);
}
inline void build_tri(disk::simplicial_mesh<T,2>& msh, const std::vector<P2>& pts, const std::vector<std::array<size_t,3>>& tris)
{
    auto st = msh.backend_storage();
    st->points = pts;
    for (size_t i = 0; i < pts.size(); i++) st->nodes.push_back({ disk::point_identifier<2>(i) });
    std::vector<std::array<size_t,2>> es;
    for (auto t : tris) { std::sort(t.begin(), t.end()); es.push_back({t[0],t[1]}); es.push_back({t[0],t[2]}); es.push_back({t[1],t[2]}); }
    std::sort(es.begin(), es.end());
    std::vector<int> cnt;
    for (size_t i = 0; i < es.size(); i++) { if (i && es[i] == es[i-1]) cnt.back()++; else { st->edges.push_back({ es[i][0], es[i][1] }); cnt.push_back(1); } }
    for (auto& t : tris) st->surfaces.push_back({ t[0], t[1], t[2] });
    std::sort(st->surfaces.begin(), st->surfaces.end());
    st->subdomain_info.resize(tris.size());
    finish_boundary(st, st->edges.size(), cnt);
}
inline void build_tet(disk::simplicial_mesh<T,3>& msh, const std::vector<P3>& pts, const std::vector<std::array<size_t,4>>& tets)
{
    auto st = msh.backend_storage();
    st->points = pts;
    for (size_t i = 0; i < pts.size(); i++) st->nodes.push_back({ disk::point_identifier<3>(i) });
    std::vector<std::array<size_t,2>> es; std::vector<std::array<size_t,3>> fs;
    for (auto t : tets) {
        std::sort(t.begin(), t.end());
        for (int i = 0; i < 4; i++) for (int j = i+1; j < 4; j++) { es.push_back({t[i],t[j]}); for (int k = j+1; k < 4; k++) fs.push_back({t[i],t[j],t[k]}); }
    }
    std::sort(es.begin(), es.end()); es.erase(std::unique(es.begin(), es.end()), es.end());
    for (auto& e : es) st->edges.push_back({ e[0], e[1] });
    std::sort(fs.begin(), fs.end());
    std::vector<int> cnt;
    for (size_t i = 0; i < fs.size(); i++) { if (i && fs[i] == fs[i-1]) cnt.back()++; else { st->surfaces.push_back({ fs[i][0], fs[i][1], fs[i][2] }); cnt.push_back(1); } }
    for (auto& t : tets) st->volumes.push_back({ t[0], t[1], t[2], t[3] });
    std::sort(st->volumes.begin(), st->volumes.end());
    st->subdomain_info.resize(tets.size());
    finish_boundary(st, st->surfaces.size(), cnt);
}
// cell nodes in the library's order (x fastest): (0,0),(1,0),(0,1),(1,1)
inline void build_cart(disk::cartesian_mesh<T,2>& msh, const std::vector<P2>& pts, const std::vector<std::array<size_t,4>>& quads)
{
    auto st = msh.backend_storage();
    st->points = pts;
    for (size_t i = 0; i < pts.size(); i++) st->nodes.push_back({ disk::point_identifier<2>(i) });
    std::vector<std::array<size_t,2>> es;
    for (auto& q : quads) { es.push_back({q[0],q[1]}); es.push_back({q[0],q[2]}); es.push_back({q[1],q[3]}); es.push_back({q[2],q[3]}); }
    std::sort(es.begin(), es.end());
    std::vector<int> cnt;
    for (size_t i = 0; i < es.size(); i++) { if (i && es[i] == es[i-1]) cnt.back()++; else { st->edges.push_back({ es[i][0], es[i][1] }); cnt.push_back(1); } }
    for (auto& q : quads) st->surfaces.push_back({ q[0], q[1], q[2], q[3] });
    std::sort(st->surfaces.begin(), st->surfaces.end());
    st->subdomain_info.resize(quads.size());
    finish_boundary(st, st->edges.size(), cnt);
}
inline void build_cart(disk::cartesian_mesh<T,3>& msh, const std::vector<P3>& pts, const std::vector<std::array<size_t,8>>& hexs)
{
    auto st = msh.backend_storage();
    st->points = pts;
    for (size_t i = 0; i < pts.size(); i++) st->nodes.push_back({ disk::point_identifier<3>(i) });
    std::vector<std::array<size_t,2>> es; std::vector<std::array<size_t,4>> fs;
    for (auto& p : hexs) {
        int E[12][2] = {{0,1},{2,3},{4,5},{6,7},{0,2},{1,3},{4,6},{5,7},{0,4},{1,5},{2,6},{3,7}};
        for (auto& e : E) es.push_back({p[e[0]], p[e[1]]});
        int F[6][4] = {{0,2,6,4},{1,3,7,5},{0,1,3,2},{4,5,7,6},{0,4,5,1},{2,6,7,3}};
        for (auto& f : F) fs.push_back({p[f[0]],p[f[1]],p[f[2]],p[f[3]]});
        st->volumes.push_back({p[0],p[1],p[2],p[3],p[4],p[5],p[6],p[7]});
    }
    std::sort(es.begin(), es.end()); es.erase(std::unique(es.begin(), es.end()), es.end());
    for (auto& e : es) st->edges.push_back({ e[0], e[1] });
    std::sort(fs.begin(), fs.end());
    std::vector<int> cnt;
    for (size_t i = 0; i < fs.size(); i++) { if (i && fs[i] == fs[i-1]) cnt.back()++; else { st->surfaces.push_back({ fs[i][0], fs[i][1], fs[i][2], fs[i][3] }); cnt.push_back(1); } }
    std::sort(st->volumes.begin(), st->volumes.end());
    st->subdomain_info.resize(hexs.size());
    finish_boundary(st, st->surfaces.size(), cnt);
}
// polygons: vertex loops, counterclockwise
inline void build_poly(disk::generic_mesh<T,2>& msh, const std::vector<P2>& pts, const std::vector<std::vector<size_t>>& polys)
{
    using mesh_type = disk::generic_mesh<T,2>;
    using node_type = mesh_type::node_type; using edge_type = mesh_type::edge_type; using surface_type = mesh_type::surface_type;
    using nid = node_type::id_type;
    auto st = msh.backend_storage();
    st->points = pts;
    for (size_t i = 0; i < pts.size(); i++) st->nodes.push_back(node_type(disk::point_identifier<2>(i)));
    std::vector<std::array<size_t,2>> es;
    for (auto& p : polys) for (size_t i = 0; i < p.size(); i++) { size_t a = p[i], b = p[(i+1)%p.size()]; if (a > b) std::swap(a,b); es.push_back({a,b}); }
    std::sort(es.begin(), es.end());
    std::vector<int> cnt; std::vector<std::array<size_t,2>> ue;
    for (size_t i = 0; i < es.size(); i++) { if (i && es[i] == es[i-1]) cnt.back()++; else { ue.push_back(es[i]); st->edges.push_back(edge_type(nid(es[i][0]), nid(es[i][1]))); cnt.push_back(1); } }
    std::vector<surface_type> sf;
    for (auto& p : polys) {
        std::vector<edge_type::id_type> se;
        for (size_t i = 0; i < p.size(); i++) {
            size_t a = p[i], b = p[(i+1)%p.size()]; if (a > b) std::swap(a,b);
            for (size_t k = 0; k < ue.size(); k++) if (ue[k][0] == a && ue[k][1] == b) se.push_back(edge_type::id_type(k));
        }
        std::sort(se.begin(), se.end());
        surface_type s(se);
        s.set_point_ids(p.begin(), p.end());
        sf.push_back(s);
    }
    std::sort(sf.begin(), sf.end());
    st->surfaces = sf;
    st->subdomain_info.resize(polys.size());
    finish_boundary(st, st->edges.size(), cnt);
}
// polyhedra: each cell a list of faces, each face a vertex loop
inline void build_poly3(disk::generic_mesh<T,3>& msh, const std::vector<P3>& pts, const std::vector<std::vector<std::vector<size_t>>>& cells)
{
    using mesh_type = disk::generic_mesh<T,3>;
    using node_type = mesh_type::node_type; using edge_type = mesh_type::edge_type; using surface_type = mesh_type::surface_type; using volume_type = mesh_type::volume_type;
    using nid = node_type::id_type;
    auto st = msh.backend_storage();
    st->points = pts;
    for (size_t i = 0; i < pts.size(); i++) st->nodes.push_back(node_type(disk::point_identifier<3>(i)));
    std::vector<std::array<size_t,2>> es;
    for (auto& c : cells) for (auto& p : c) for (size_t i = 0; i < p.size(); i++) { size_t a = p[i], b = p[(i+1)%p.size()]; if (a > b) std::swap(a,b); es.push_back({a,b}); }
    std::sort(es.begin(), es.end()); es.erase(std::unique(es.begin(), es.end()), es.end());
    for (auto& e : es) st->edges.push_back(edge_type(nid(e[0]), nid(e[1])));
    struct F { std::vector<size_t> eids, loop; };
    std::vector<F> fs; std::vector<int> cnt;
    auto edge_ids = [&](const std::vector<size_t>& p) {
        std::vector<size_t> r;
        for (size_t i = 0; i < p.size(); i++) { size_t a = p[i], b = p[(i+1)%p.size()]; if (a > b) std::swap(a,b); for (size_t k = 0; k < es.size(); k++) if (es[k][0] == a && es[k][1] == b) r.push_back(k); }
        std::sort(r.begin(), r.end()); return r; };
    for (auto& c : cells) for (auto& p : c) { auto r = edge_ids(p); bool dup = false; for (auto& f : fs) if (f.eids == r) dup = true; if (!dup) fs.push_back({r, p}); }
    std::sort(fs.begin(), fs.end(), [](const F& a, const F& b) { return a.eids < b.eids; });
    cnt.assign(fs.size(), 0);
    for (auto& f : fs) {
        std::vector<edge_type::id_type> ids; for (auto e : f.eids) ids.push_back(edge_type::id_type(e));
        surface_type s(ids); s.set_point_ids(f.loop.begin(), f.loop.end()); st->surfaces.push_back(s);
    }
    std::vector<volume_type> vs;
    for (auto& c : cells) {
        std::vector<size_t> r; std::vector<size_t> vts;
        for (auto& p : c) { auto e = edge_ids(p); for (size_t k = 0; k < fs.size(); k++) if (fs[k].eids == e) { r.push_back(k); cnt[k]++; } for (auto v : p) vts.push_back(v); }
        std::sort(r.begin(), r.end()); std::sort(vts.begin(), vts.end()); vts.erase(std::unique(vts.begin(), vts.end()), vts.end());
        std::vector<surface_type::id_type> ids; for (auto x : r) ids.push_back(surface_type::id_type(x));
        volume_type v(ids); v.set_point_ids(vts.begin(), vts.end()); vs.push_back(v);
    }
    std::sort(vs.begin(), vs.end());
    st->volumes = vs;
    st->subdomain_info.resize(cells.size());
    finish_boundary(st, st->surfaces.size(), cnt);
}
inline void build_1d(disk::generic_mesh<T,1>& msh, const std::vector<T>& xs)
{
    using mesh_type = disk::generic_mesh<T,1>;
    using node_type = mesh_type::node_type; using edge_type = mesh_type::edge_type; using nid = node_type::id_type;
    auto st = msh.backend_storage();
    for (size_t i = 0; i < xs.size(); i++) { st->points.push_back(P1(xs[i])); st->nodes.push_back(node_type(disk::point_identifier<1>(i))); }
    for (size_t i = 0; i + 1 < xs.size(); i++) st->edges.push_back(edge_type(nid(i), nid(i+1)));
    st->subdomain_info.resize(xs.size() - 1);
    st->boundary_info.resize(xs.size());
    st->boundary_info.front() = disk::boundary_descriptor(0, true); st->boundary_info.back() = disk::boundary_descriptor(1, true);
}
inline std::vector<std::vector<size_t>> hex_faces(size_t o = 0)
{
    std::vector<std::vector<size_t>> f = {{0,2,6,4},{1,3,7,5},{0,1,3,2},{4,5,7,6},{0,4,5,1},{2,6,7,3}};
    for (auto& x : f) for (auto& y : x) y += o; return f;
}

// ---------- exact integrals
inline T ipow(T x, int n) { T r = 1; for (int i = 0; i < n; i++) r *= x; return r; }
inline T binom(int n, int k) { T r = 1; for (int i = 1; i <= k; i++) { r *= (n - k + i); r /= i; } return r; }
inline T factd(int n) { T r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
// signed integral of x^i y^j over the polygon (positive when counterclockwise)
inline T poly_moment(const std::vector<P2>& p, int i, int j)
{
    T s = 0;
    for (size_t k = 0; k < p.size(); k++) {
        T x0 = p[k].x(), y0 = p[k].y(), dx = p[(k+1)%p.size()].x() - x0, dy = p[(k+1)%p.size()].y() - y0;
        for (int a = 0; a <= i+1; a++) for (int b = 0; b <= j; b++)
            s += binom(i+1,a)*binom(j,b)*ipow(x0,i+1-a)*ipow(dx,a)*ipow(y0,j-b)*ipow(dy,b)*dy/(a+b+1)/(i+1);
    }
    return s;
}
// integral over a segment/triangle/tetra of x^i y^j z^k divided by its measure: expand in barycentric coordinates
template<size_t N>   // N vertices
T simplex_mean_moment(const std::array<std::array<T,3>,N>& v, const std::array<int,3>& e)
{
    // polynomial in lambda: map exponent vector -> coefficient, flat list
    typedef std::array<int,N> X;
    std::vector<std::pair<X,T>> poly{{X{},T(1)}};
    int deg = 0;
    for (int c = 0; c < 3; c++) for (int r = 0; r < e[c]; r++) {
        deg++;
        std::vector<std::pair<X,T>> q;
        for (auto& m : poly) for (size_t k = 0; k < N; k++) {
            X x = m.first; x[k]++;
            size_t f = 0; while (f < q.size() && q[f].first != x) f++;
            if (f == q.size()) q.push_back({x, m.second*v[k][c]}); else q[f].second += m.second*v[k][c];
        }
        poly = q;
    }
    T s = 0;
    for (auto& m : poly) { T w = factd(N-1)/factd(deg + N-1); for (size_t k = 0; k < N; k++) w *= factd(m.first[k]); s += m.second*w; }
    return s;
}
inline std::array<T,3> a3(const P3& p) { return {p.x(), p.y(), p.z()}; }
inline T det3(const P3& a, const P3& b, const P3& c, const P3& d)
{
    T u[3] = {b.x()-a.x(), b.y()-a.y(), b.z()-a.z()}, v[3] = {c.x()-a.x(), c.y()-a.y(), c.z()-a.z()}, w[3] = {d.x()-a.x(), d.y()-a.y(), d.z()-a.z()};
    return u[0]*(v[1]*w[2]-v[2]*w[1]) - u[1]*(v[0]*w[2]-v[2]*w[0]) + u[2]*(v[0]*w[1]-v[1]*w[0]);
}
inline T tet_moment(const P3& a, const P3& b, const P3& c, const P3& d, int i, int j, int k)   // signed
{
    return det3(a,b,c,d)/6 * simplex_mean_moment<4>({a3(a),a3(b),a3(c),a3(d)}, {i,j,k});
}
inline T seg_mean_moment(const P2& a, const P2& b, int i, int j) { return simplex_mean_moment<2>({{{a.x(),a.y(),0},{b.x(),b.y(),0}}}, {i,j,0}); }
inline T tri_mean_moment(const P3& a, const P3& b, const P3& c, int i, int j, int k) { return simplex_mean_moment<3>({a3(a),a3(b),a3(c)}, {i,j,k}); }
inline T signed_area(const std::vector<P2>& p) { return poly_moment(p, 0, 0); }
inline T cross2(const P2& a, const P2& b, const P2& c) { return (b.x()-a.x())*(c.y()-a.y()) - (b.y()-a.y())*(c.x()-a.x()); }

// ---------- symbolic inputs
inline P2 pt2(const char* n, T x, T y, T r) { T a = vp_real(n, x-r, x+r), b = vp_real(n, y-r, y+r); return P2(a, b); }
inline P3 pt3(const char* n, T x, T y, T z, T r) { T a = vp_real(n, x-r, x+r), b = vp_real(n, y-r, y+r), c = vp_real(n, z-r, z+r); return P3(a, b, c); }
// full polynomials of total degree <= d with symbolic coefficients in [-1,1]
struct Pol2 { int d; std::vector<T> c;
    Pol2(const char* n, int deg) : d(deg) { for (int k = 0; k <= d; k++) for (int i = 0; i <= k; i++) c.push_back(vp_real(n, -1, 1)); }
    Pol2(int deg) : d(deg), c((deg+1)*(deg+2)/2, T(0)) {}
    T& at(int i, int j) { return c[(i+j)*(i+j+1)/2 + i]; }
    T at(int i, int j) const { return (i < 0 || j < 0 || i+j > d) ? T(0) : c[(i+j)*(i+j+1)/2 + i]; }
    T operator()(T x, T y) const { T s = 0; for (int k = 0; k <= d; k++) for (int i = 0; i <= k; i++) s += at(i,k-i)*ipow(x,i)*ipow(y,k-i); return s; }
    T operator()(const P2& p) const { return (*this)(p.x(), p.y()); }
    Pol2 dx() const { Pol2 r(std::max(d-1,0)); for (int k = 1; k <= d; k++) for (int i = 1; i <= k; i++) r.at(i-1,k-i) += i*at(i,k-i); return r; }
    Pol2 dy() const { Pol2 r(std::max(d-1,0)); for (int k = 1; k <= d; k++) for (int i = 0; i < k; i++) r.at(i,k-i-1) += (k-i)*at(i,k-i); return r; }
    T integral(const std::vector<P2>& poly) const { T s = 0; for (int k = 0; k <= d; k++) for (int i = 0; i <= k; i++) s += at(i,k-i)*poly_moment(poly,i,k-i); return s; }
    T mean(const P2& a, const P2& b) const { T s = 0; for (int k = 0; k <= d; k++) for (int i = 0; i <= k; i++) s += at(i,k-i)*seg_mean_moment(a,b,i,k-i); return s; }
};
struct Pol3 { int d; std::vector<T> c; std::vector<std::array<int,3>> e;
    void init(int deg) { d = deg; for (int k = 0; k <= d; k++) for (int i = 0; i <= k; i++) for (int j = 0; j <= k-i; j++) e.push_back({i,j,k-i-j}); c.assign(e.size(), T(0)); }
    Pol3(const char* n, int deg) { init(deg); for (auto& x : c) x = vp_real(n, -1, 1); }
    Pol3(int deg) { init(deg); }
    size_t find(int i, int j, int k) const { for (size_t q = 0; q < e.size(); q++) if (e[q][0]==i && e[q][1]==j && e[q][2]==k) return q; return e.size(); }
    T operator()(T x, T y, T z) const { T s = 0; for (size_t q = 0; q < e.size(); q++) s += c[q]*ipow(x,e[q][0])*ipow(y,e[q][1])*ipow(z,e[q][2]); return s; }
    T operator()(const P3& p) const { return (*this)(p.x(), p.y(), p.z()); }
    Pol3 diff(int v) const { Pol3 r(std::max(d-1,0)); for (size_t q = 0; q < e.size(); q++) if (e[q][v] > 0) { auto x = e[q]; x[v]--; r.c[r.find(x[0],x[1],x[2])] += e[q][v]*c[q]; } return r; }
};

// ---------- one-cell meshes of every kind: f(mesh, cell)
template<typename F> void with_cell2(int k, F f) {
    if (k == 0) { disk::simplicial_mesh<T,2> m; build_tri(m, {V2(0.1,0.2),V2(1.3,0.4),V2(0.5,1.1)}, {{0,1,2}}); f(m, *m.cells_begin()); }
    else if (k == 1) { disk::cartesian_mesh<T,2> m; build_cart(m, {V2(-0.3,0.2),V2(0.9,0.2),V2(-0.3,1.1),V2(0.9,1.1)}, {{0,1,2,3}}); f(m, *m.cells_begin()); }
    else if (k == 2) { disk::generic_mesh<T,2> m; build_poly(m, {V2(0,0),V2(1,-0.2),V2(1.5,0.7),V2(0.6,1.3),V2(-0.3,0.8)}, {{0,1,2,3,4}}); f(m, *m.cells_begin()); }
    else { disk::generic_mesh<T,2> m; build_poly(m, {V2(0,0),V2(1.2,0.1),V2(1.0,0.9),V2(-0.1,1.3)}, {{0,1,2,3}}); f(m, *m.cells_begin()); }
}
template<typename F> void with_cell3(int k, F f) {
    if (k == 0) { disk::simplicial_mesh<T,3> m; build_tet(m, {V3(0.1,-0.1,0),V3(1.1,0.2,0.1),V3(0.2,1.2,-0.1),V3(0.1,0.3,1.1)}, {{0,1,2,3}}); f(m, *m.cells_begin()); }
    else if (k == 1) { disk::cartesian_mesh<T,3> m; std::vector<P3> p; for (int i = 0; i < 8; i++) p.push_back(V3(-0.3+(i&1?0.7:0.), 0.1+(i&2?0.9:0.), 0.2+(i&4?1.1:0.))); build_cart(m, p, {{0,1,2,3,4,5,6,7}}); f(m, *m.cells_begin()); }
    else { disk::generic_mesh<T,3> m; build_poly3(m, {V3(0,0,0),V3(1,0,0),V3(0.3,1,0),V3(0.1,0,0.8),V3(1.1,0,0.8),V3(0.4,1,0.8)}, {{{0,1,2},{3,4,5},{0,1,4,3},{1,2,5,4},{0,2,5,3}}}); f(m, *m.cells_begin()); }
}
template<size_t D> disk::point<T,D> sympt(const char* n, T r) { disk::point<T,D> p; for (size_t i = 0; i < D; i++) p.at(i) = vp_real(n, -r, r); return p; }
template<size_t D> disk::point<T,D> bump(disk::point<T,D> p, int a, T h) { p.at(a) += h; return p; }
// derivative in direction a of a polynomial of degree <= 10 (g: point -> something with +,-,*), by a symmetric formula exact for those
template<size_t D, typename G> auto deriv(const disk::point<T,D>& p, int a, int deg, G g) {
    static const T w[5][5] = {{1./2}, {2./3,-1./12}, {3./4,-3./20,1./60}, {4./5,-1./5,4./105,-1./280}, {5./6,-5./21,5./84,-5./504,1./1260}};
    int n = deg <= 2 ? 0 : deg <= 4 ? 1 : deg <= 6 ? 2 : deg <= 8 ? 3 : 4; T h = 0.25;
    auto d = ((g(bump(p,a,h)) - g(bump(p,a,-h))) * (w[n][0]/h)).eval();
    for (int i = 1; i <= n; i++) d += (g(bump(p,a,(i+1)*h)) - g(bump(p,a,-(i+1)*h))) * (w[n][i]/h);
    return d;
}
}
namespace vp {
// ---------- small meshes with several cells, an interior face and boundary faces with ids 0, 1, 2
template<typename F> void with_mesh2(int k, F f) {
    if (k == 0) { disk::simplicial_mesh<T,2> m; build_tri(m, {V2(0.,0.),V2(1.,0.1),V2(0.2,0.9),V2(1.3,1.1)}, {{0,1,2},{1,3,2}}); f(m); }
    else if (k == 1) { disk::cartesian_mesh<T,2> m; build_cart(m, {V2(0.,0.),V2(0.7,0.),V2(1.5,0.),V2(0.,0.9),V2(0.7,0.9),V2(1.5,0.9)}, {{0,1,3,4},{1,2,4,5}}); f(m); }
    else if (k == 2) { disk::generic_mesh<T,2> m; build_poly(m, {V2(0.,0.),V2(1.,-0.2),V2(1.2,0.8),V2(0.5,1.2),V2(-0.3,0.8),V2(2.1,0.1),V2(1.9,1.)}, {{0,1,2,3,4},{1,5,6,2}}); f(m); }
    else { disk::generic_mesh<T,2> m; build_poly(m, {V2(0.,0.),V2(1.,0.),V2(2.,0.),V2(0.,1.),V2(1.,1.),V2(2.,1.),V2(0.,2.),V2(1.,2.),V2(2.,2.)}, {{0,1,4,3},{1,2,5,4},{3,4,7,6},{4,5,8,7}}); f(m); }
}
template<typename F> void with_mesh3(int k, F f) {
    if (k == 0) { disk::simplicial_mesh<T,3> m; build_tet(m, {V3(0.,0.,0.),V3(1.,0.1,0.),V3(0.2,0.9,0.),V3(0.1,0.2,1.),V3(0.9,1.,0.8)}, {{0,1,2,3},{1,2,3,4}}); f(m); }
    else if (k == 1) { disk::cartesian_mesh<T,3> m; std::vector<P3> p; for (int i = 0; i < 12; i++) p.push_back(V3(0.7*(i%3), 0.9*((i/3)%2), 1.1*(i/6))); build_cart(m, p, {{0,1,3,4,6,7,9,10},{1,2,4,5,7,8,10,11}}); f(m); }
    else { disk::generic_mesh<T,3> m; build_poly3(m, {V3(0.,0.,0.),V3(1.,0.,0.),V3(0.3,1.,0.),V3(0.,0.,0.8),V3(1.,0.,0.8),V3(0.3,1.,0.8),V3(1.2,0.9,0.),V3(1.2,0.9,0.8)}, {{{0,1,2},{3,4,5},{0,1,4,3},{1,2,5,4},{0,2,5,3}},{{1,6,2},{4,7,5},{1,6,7,4},{6,2,5,7},{1,2,5,4}}}); f(m); }
}
}
