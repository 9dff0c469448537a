// Mesh files held in memory, whose numbers may stand for symbolic values.
#pragma once
#include <regex>
#include "topo.hpp"
#include "diskpp/loaders/loader.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <sstream>
namespace vp {
static std::string file(const std::string& s) { int fd = memfd_create("mesh", 0); size_t o = 0; while (o < s.size()) { ssize_t w = write(fd, s.data() + o, s.size() - o); if (w <= 0) break; o += w; } return "/proc/self/fd/" + std::to_string(fd); }
static void num(std::string& s, size_t v) { char b[24]; int n = 0; do { b[n++] = char('0' + v%10); v /= 10; } while (v); while (n) s += b[--n]; }
// a number of the file: either the text itself or a token bound to a symbolic value
struct Num { std::string t; T v; };
static size_t nbound = 0;
static Num sym(const char* name, T lo, T hi) { size_t k = nbound++; T v = vp_real(name, lo, hi); std::string t = "0.90000"; num(t, 100 + k); T m = 0.90000 + 0; m = strtod(t.c_str(), nullptr); vp_bind_number(m, v); return {t, v}; }
static Num con(const char* t) { return {t, strtod(t, nullptr)}; }
typedef std::vector<std::vector<size_t>> Lists;
struct File {
    size_t dim; std::vector<std::vector<Num>> pts; Lists cells; std::vector<size_t> dom; Lists bnd; std::vector<size_t> bid;
    Lists edges, faces, cell_faces, face_edges;   // for the formats that list them
    std::string out;
    void put(size_t v) { num(out, v); out += ' '; } void nl() { out += '\n'; } void key(const char* k) { out += k; out += '\n'; }
    void coords(bool count = true) { if (count) { put(pts.size()); nl(); } for (auto& p : pts) { for (auto& c : p) { out += c.t; out += ' '; } nl(); } }
};
// what the file says is what the mesh has
template<typename M> void check_content(M& m, const File& f, bool domains, bool bids, T tol = 1e-12) {
    const size_t D = M::dimension; auto st = m.backend_storage();
    vp_check(m.points_size() == f.pts.size() && m.cells_size() == f.cells.size(), "numbers of points and cells of the file");
    for (size_t i = 0; i < f.pts.size(); i++) for (size_t a = 0; a < D; a++) vp_close(st->points[i].at(a), f.pts[i][a].v, tol, "points of the file");
    vp_check(st->subdomain_info.size() == m.cells_size(), "every cell has subdomain information");
    std::vector<int> seen(f.cells.size(), 0);
    for (auto& cl : m) { auto ids = sorted_ids(cl); size_t k = 0; for (; k < f.cells.size(); k++) { auto s = f.cells[k]; std::sort(s.begin(), s.end()); if (s == ids) break; } vp_check(k < f.cells.size(), "cells of the file"); seen[k]++; if (domains && st->subdomain_info.size() == m.cells_size()) vp_check(m.domain_info(cl).id() == f.dom[k], "subdomain of the file"); }
    for (int s : seen) vp_check(s == 1, "every cell of the file once");
    size_t i = 0, nb = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it, ++i) { auto ids = sorted_ids(*it); size_t k = 0; for (; k < f.bnd.size(); k++) { auto s = f.bnd[k]; std::sort(s.begin(), s.end()); if (s == ids) break; } vp_check(m.is_boundary(*it) == (k < f.bnd.size()), "boundary faces of the file"); if (k < f.bnd.size()) { nb++; if (bids) vp_check(m.boundary_id(*it) == f.bid[k], "boundary ids of the file"); } }
    vp_check(nb == f.bnd.size(), "every boundary face of the file");
}
static void rotate(std::vector<size_t>& v, size_t k) { std::rotate(v.begin(), v.begin() + k, v.end()); }
}
