//@bound identifiers: every value below 2^31 (32 bit) or 2^63; elements: every choice of point ids below 8; sorted lists: up to 5 values (thorough 6) of any size, every query
#include "topo.hpp"
#include "diskpp/loaders/loader_utils.hpp"
using namespace vp;
struct tagA {};
VP_H(P03_identifier) { typedef disk::identifier<tagA,size_t,0> I; size_t a = vp_int("a",0,0x7fffffffffffffffL), b = vp_int("b",0,0x7fffffffffffffffL); I x(a), y(b), z(x), w; vp_check(size_t(x) == a && size_t(z) == a, "value of an identifier"); vp_check((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b), "identifiers compare as their values"); w = y; vp_check(size_t(w) == b && w == y, "assignment"); vp_check(refuses([]() { I u; size_t v = u; (void)v; }) && refuses([]() { size_t v = I::invalid(); (void)v; }), "invalid identifiers are refused"); }
VP_H(P03_identifier32) { typedef disk::identifier<tagA,uint32_t,0> I; uint32_t a = vp_int("a",0,0x7fffffffL), b = vp_int("b",0,0x7fffffffL); I x(a), y(b), z(x), w; vp_check(uint32_t(x) == a && uint32_t(z) == a, "value of an identifier"); vp_check((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b), "identifiers compare as their values"); w = y; vp_check(uint32_t(w) == b && w == y, "assignment"); vp_check(refuses([]() { I u; uint32_t v = u; (void)v; }) && refuses([]() { uint32_t v = I::invalid(); (void)v; }), "invalid identifiers are refused"); vp_check(!(I() == x) && I() != x, "invalid identifiers are no valid ones"); }
// elements are sets of points (simplices), tuples of points (cartesian) or pairs (generic edges)
template<size_t D, size_t C, size_t N> static void simplex_(const char*) { typedef disk::simplicial_element<D,C> E; typedef disk::point_identifier<D> I; size_t a[N], b[N]; for (size_t i = 0; i < N; i++) a[i] = vp_int("a",0,7); for (size_t i = 0; i < N; i++) b[i] = vp_int("b",0,7); auto mk = [](size_t* v) { if constexpr (N == 2) return E{I(v[0]),I(v[1])}; else if constexpr (N == 3) return E{I(v[0]),I(v[1]),I(v[2])}; else return E{I(v[0]),I(v[1]),I(v[2]),I(v[3])}; }; E e = mk(a), f = mk(b);
    auto srt = [](size_t* v) { for (size_t i = 0; i < N; i++) for (size_t j = 0; j+1 < N; j++) { size_t lo = v[j] < v[j+1] ? v[j] : v[j+1], hi = v[j] < v[j+1] ? v[j+1] : v[j]; v[j] = lo; v[j+1] = hi; } }; srt(a); srt(b); auto p = ids_of(e); int lt = 0, eq = 1; for (size_t i = 0; i < N; i++) { vp_check(p[i] == a[i], "points of a simplex are sorted"); lt |= eq & int(a[i] < b[i]); eq &= int(a[i] == b[i]); } vp_check((e == f) == bool(eq), "simplices are equal if their points are"); vp_check((e < f) == bool(lt), "simplices are ordered by their points"); vp_check(e.subelement_size() == (N == 2 ? 2 : N == 3 ? 3 : 4), "number of parts"); }
VP_H(P03_segment) { simplex_<2,1,2>(""); }
VP_H(P03_triangle) { simplex_<2,0,3>(""); }
VP_H(P03_triangle3) { simplex_<3,1,3>(""); }
VP_T(P03_tetrahedron) { simplex_<3,0,4>(""); }
template<size_t D, size_t C, size_t N> static void box_() { typedef disk::cartesian_element<D,C> E; size_t a[8] = {0,1,2,3,4,5,6,7}, b[8] = {0,1,2,3,4,5,6,7}; for (size_t i = 0; i < N && i < 4; i++) { a[i] = vp_int("a",0,7); b[i] = vp_int("b",0,7); } auto mk = [](size_t* v) { if constexpr (N == 2) return E{v[0],v[1]}; else if constexpr (N == 4) return E{v[0],v[1],v[2],v[3]}; else return E{v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7]}; }; E e = mk(a), f = mk(b); auto p = e.point_ids(); int lt = 0, eq = 1; for (size_t i = 0; i < N; i++) { vp_check(size_t(p[i]) == a[i], "points of a box"); lt |= eq & int(a[i] < b[i]); eq &= int(a[i] == b[i]); } vp_check((e == f) == bool(eq), "boxes are equal if their points are"); vp_check((e < f) == bool(lt), "boxes are ordered by their points"); }
VP_H(P03_boxes) { int k = vp_pick("kind",0,3); if (k == 0) box_<2,1,2>(); if (k == 1) box_<2,0,4>(); if (k == 2) box_<3,1,4>(); if (k == 3) box_<3,0,8>(); }
VP_H(P03_edge) { typedef disk::generic_mesh<T,2>::edge_type E; typedef disk::generic_mesh<T,2>::node_type::id_type I; size_t a = vp_int("a",0,7), b = vp_int("b",0,7), c = vp_int("c",0,7), d = vp_int("d",0,7); E e(I{a},I{b}), f(I{c},I{d}), g(I{b},I{a}); size_t al = a < b ? a : b, ah = a < b ? b : a, cl = c < d ? c : d, ch = c < d ? d : c; vp_check((e == f) == (al == cl && ah == ch) && (e < f) == (al < cl || (al == cl && ah < ch)), "edges compare as their ends"); vp_check(e == g, "edges have no direction"); auto s = e.faces_ids(); vp_check(size_t(s[0]) == al && size_t(s[1]) == ah, "ends of an edge"); auto p = ids_of(e); vp_check(p[0] == a && p[1] == b, "points of an edge"); }
VP_H(P03_node) { typedef disk::generic_mesh<T,2>::node_type N; typedef disk::point_identifier<2> I; size_t a = vp_int("a",0,1000), b = vp_int("b",0,1000); N n{I(a)}, m{I(b)}; vp_check((n == m) == (a == b) && (n < m) == (a < b) && ids_of(n)[0] == a, "nodes compare as their points"); }
// lists of elements
typedef disk::generic_mesh<T,2>::node_type ND; static ND nd(size_t i) { return ND(disk::point_identifier<2>(i)); }
VP_H(P03_find) { size_t n = vp_pick("n",0,5+vp_tier()), q = vp_int("q",0,100), v[6]; std::vector<ND> l; size_t pos = 0; bool in = false; for (size_t i = 0; i < n; i++) { v[i] = vp_int("v",0,100); if (i) vp_assume(v[i-1] < v[i]); l.push_back(nd(v[i])); if (v[i] == q) { in = true; pos = i; } } auto r = disk::find_element_id(l.begin(), l.end(), nd(q)); vp_check(r.first == in, "elements are found if they are there"); if (in) vp_check(size_t(r.second) == pos, "position of the element"); else vp_check(refuses([&]() { size_t x = r.second; (void)x; }), "missing elements have no position"); }
VP_H(P03_sort_uniq) { size_t n = vp_pick("n",0,4+vp_tier()), v[5], q = vp_int("q",0,9); std::vector<size_t> l; bool in = false; for (size_t i = 0; i < n; i++) { v[i] = vp_int("v",0,9); l.push_back(v[i]); in |= v[i] == q; } disk::priv::sort_uniq(l); bool has = false; for (size_t i = 0; i < l.size(); i++) { if (i) vp_check(l[i-1] < l[i], "sorted without repetition"); has |= l[i] == q; } vp_check(in == has, "the same values"); }
// filtered iteration
struct below { size_t t; bool operator()(size_t x) { return x < t; } };
VP_H(P03_filter) { size_t n = vp_pick("n",0,4+vp_tier()), t = vp_int("t",0,10); std::vector<size_t> v; for (size_t i = 0; i < n; i++) v.push_back(vp_int("v",0,10)); typedef disk::priv::filter_iterator<std::vector<size_t>::iterator, below> F; F b(below{t}, v.begin(), v.end()), e(below{t}, v.end(), v.end()); std::vector<size_t> want, got; for (auto x : v) if (x < t) want.push_back(x); F c = b; for (; b != e; ++b) got.push_back(*b); vp_check(got == want, "filtered values in order"); got.clear(); while (!(c == e)) { F o = c++; got.push_back(*o); } vp_check(got == want, "filtered values in order, one by one"); }
