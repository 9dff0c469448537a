// Exact real terms: multivariate rational functions over GMP rationals, with sqrt/opaque atoms.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <stdexcept>

namespace term {

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

typedef uint32_t MonoId;   // interned monomial, 0 = 1
typedef uint32_t AtomId;

struct MonoTable {
    // monomial = sorted list of (atom, exponent)
    typedef std::vector<std::pair<AtomId,uint32_t>> Mono;
    std::vector<Mono> monos;
    std::vector<uint32_t> degs;
    std::map<Mono, MonoId> ids;
    std::unordered_map<uint64_t, MonoId> prods;
    MonoTable() { monos.push_back({}); degs.push_back(0); ids[{}] = 0; }
    MonoId intern(const Mono& m) {
        auto it = ids.find(m);
        if (it != ids.end()) return it->second;
        MonoId id = monos.size();
        uint32_t d = 0; for (auto& p : m) d += p.second;
        monos.push_back(m); degs.push_back(d); ids[m] = id;
        return id;
    }
    MonoId mul(MonoId a, MonoId b) {
        if (a == 0) return b;
        if (b == 0) return a;
        if (a > b) std::swap(a,b);
        uint64_t k = (uint64_t(a) << 32) | b;
        auto it = prods.find(k);
        if (it != prods.end()) return it->second;
        const Mono ma = monos[a], mb = monos[b];
        Mono r; size_t i = 0, j = 0;
        while (i < ma.size() || j < mb.size()) {
            if (j == mb.size() || (i < ma.size() && ma[i].first < mb[j].first)) r.push_back(ma[i++]);
            else if (i == ma.size() || mb[j].first < ma[i].first) r.push_back(mb[j++]);
            else { r.push_back({ma[i].first, ma[i].second + mb[j].second}); i++; j++; }
        }
        MonoId id = intern(r);
        prods[k] = id;
        return id;
    }
    // graded ordering, consistent with multiplication: degree, then lex on exponents
    bool less(MonoId a, MonoId b) const {
        if (a == b) return false;
        if (degs[a] != degs[b]) return degs[a] < degs[b];
        const Mono &x = monos[a], &y = monos[b];
        size_t n = std::min(x.size(), y.size());
        for (size_t i = 0; i < n; i++) {
            if (x[i].first != y[i].first) return x[i].first > y[i].first; // having smaller atom = bigger
            if (x[i].second != y[i].second) return x[i].second < y[i].second;
        }
        return x.size() < y.size();
    }
    bool divides(MonoId a, MonoId b, MonoId& q) { // b / a
        const Mono &x = monos[a], &y = monos[b];
        Mono r; size_t i = 0;
        for (size_t j = 0; j < y.size(); j++) {
            if (i < x.size() && x[i].first == y[j].first) {
                if (x[i].second > y[j].second) return false;
                if (x[i].second < y[j].second) r.push_back({y[j].first, y[j].second - x[i].second});
                i++;
            } else r.push_back(y[j]);
        }
        if (i != x.size()) return false;
        q = intern(r);
        return true;
    }
};
extern MonoTable MT;

// polynomial: terms sorted by MonoId (arbitrary but fixed order)
struct Poly {
    std::vector<std::pair<MonoId, mpq_class>> t;
    bool zero() const { return t.empty(); }
    bool is_const() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
    mpq_class cst() const { return t.empty() ? mpq_class(0) : t[0].second; }
    static Poly constant(const mpq_class& c) { Poly p; if (c != 0) p.t.push_back({0,c}); return p; }
    static Poly atom(AtomId a) { Poly p; p.t.push_back({MT.intern({{a,1}}), 1}); return p; }
    bool operator<(const Poly& o) const { return t < o.t; }
    bool operator==(const Poly& o) const { return t == o.t; }
};
Poly add(const Poly&, const Poly&);
Poly sub(const Poly&, const Poly&);
Poly neg(const Poly&);
Poly mul(const Poly&, const Poly&);
Poly scale(const Poly&, const mpq_class&);
bool divexact(const Poly& a, const Poly& b, Poly& q);
MonoId leading(const Poly&);
// p = c * q with q having leading coefficient 1
Poly primitive(const Poly& p, mpq_class& c);
uint32_t degree(const Poly&);

struct RF {                         // num / prod den_i^e_i ; den_i primitive, non-constant
    Poly num;
    std::vector<std::pair<Poly,uint32_t>> den;   // sorted by Poly
    bool is_const() const { return den.empty() && num.is_const(); }
};
enum AtomKind { A_INPUT, A_SQRT, A_OPAQUE };
struct Atom {
    AtomKind kind;
    std::string name;
    double lo, hi; bool bounded;
    Poly arg;                       // for sqrt: s^2 = arg
    std::string fn; std::vector<RF> args;  // opaque
};
extern std::vector<Atom> atoms;
AtomId new_input(const std::string& name, double lo, double hi, bool bounded);

RF rf_const(const mpq_class&);
RF rf_double(double d);
RF rf_poly(const Poly&);
RF rf_add(const RF&, const RF&);
RF rf_sub(const RF&, const RF&);
RF rf_neg(const RF&);
RF rf_mul(const RF&, const RF&);
RF rf_div(const RF&, const RF&);      // assumes divisor nonzero
RF rf_opaque(const std::string& fn, const std::vector<RF>& args);
RF rf_sqrt(const RF& a);   // requires every den factor positive; not for perfect squares
bool poly_sqrt(const Poly& p, Poly& q);   // p == q*q ?
bool rf_eq(const RF&, const RF&);
double rf_eval(const RF&, const std::vector<double>& vals);
double poly_eval(const Poly&, const std::vector<double>& vals);
mpq_class to_q(double d);
std::string poly_str(const Poly&, size_t maxterms = 8);
void poly_atoms(const Poly&, std::set<AtomId>&);   // transitive closure through sqrt definitions
// interval enclosure; returns false if unbounded
bool poly_interval(const Poly&, mpq_class& lo, mpq_class& hi);
bool mono_interval(MonoId m, mpq_class& lo, mpq_class& hi);
double atom_eval(AtomId a, const std::vector<double>& vals);
}
