#include "term.hpp"
#include <sstream>
namespace term {
MonoTable MT;
std::vector<Atom> atoms;

AtomId new_input(const std::string& name, double lo, double hi, bool bounded) {
    Atom a; a.kind = A_INPUT; a.name = name; a.lo = lo; a.hi = hi; a.bounded = bounded;
    atoms.push_back(a); return atoms.size()-1;
}
mpq_class to_q(double d) { mpq_class q; mpq_set_d(q.get_mpq_t(), d); return q; }

Poly add(const Poly& a, const Poly& b) {
    if (a.zero()) return b;
    if (b.zero()) return a;
    Poly r; r.t.reserve(a.t.size()+b.t.size());
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
        else if (i == a.t.size() || b.t[j].first < a.t[i].first) r.t.push_back(b.t[j++]);
        else { mpq_class c = a.t[i].second + b.t[j].second; if (c != 0) r.t.push_back({a.t[i].first, c}); i++; j++; }
    }
    return r;
}
Poly neg(const Poly& a) { Poly r = a; for (auto& x : r.t) x.second = -x.second; return r; }
Poly sub(const Poly& a, const Poly& b) { return add(a, neg(b)); }
Poly scale(const Poly& a, const mpq_class& c) {
    if (c == 0) return Poly();
    if (c == 1) return a;
    Poly r = a; for (auto& x : r.t) x.second *= c; return r;
}
Poly mul(const Poly& a, const Poly& b) {
    if (a.zero() || b.zero()) return Poly();
    if (a.is_const()) return scale(b, a.cst());
    if (b.is_const()) return scale(a, b.cst());
    if (a.t.size() * b.t.size() > 40000000ul) throw Unsupported("polynomial product too large");
    std::unordered_map<MonoId, mpq_class> acc;
    acc.reserve(a.t.size() + b.t.size());
    mpq_class tmp;
    for (auto& x : a.t) for (auto& y : b.t) {
        tmp = x.second * y.second;
        acc[MT.mul(x.first, y.first)] += tmp;
    }
    Poly r; r.t.reserve(acc.size());
    for (auto& p : acc) if (p.second != 0) r.t.push_back({p.first, p.second});
    std::sort(r.t.begin(), r.t.end(), [](auto& x, auto& y){ return x.first < y.first; });
    if (r.t.size() > 400000) throw Unsupported("polynomial too large");
    return r;
}
MonoId leading(const Poly& p) {
    MonoId m = p.t[0].first;
    for (auto& x : p.t) if (MT.less(m, x.first)) m = x.first;
    return m;
}
static const mpq_class& coef_of(const Poly& p, MonoId m) {
    for (auto& x : p.t) if (x.first == m) return x.second;
    throw std::logic_error("coef_of");
}
Poly primitive(const Poly& p, mpq_class& c) {
    if (p.zero()) { c = 1; return p; }
    c = coef_of(p, leading(p));
    return scale(p, mpq_class(1)/c);
}
uint32_t degree(const Poly& p) { uint32_t d = 0; for (auto& x : p.t) d = std::max(d, MT.degs[x.first]); return d; }

bool divexact(const Poly& a, const Poly& b, Poly& q) {
    if (b.zero()) return false;
    if (a.zero()) { q = Poly(); return true; }
    if (b.is_const()) { q = scale(a, mpq_class(1)/b.cst()); return true; }
    if (degree(a) < degree(b)) return false;
    // quick filter: if the atoms of b are not in a
    {
        std::set<AtomId> sa, sb;
        for (auto& x : a.t) for (auto& p : MT.monos[x.first]) sa.insert(p.first);
        for (auto& x : b.t) for (auto& p : MT.monos[x.first]) if (!sa.count(p.first)) return false;
    }
    auto cmp = [](MonoId x, MonoId y){ return MT.less(y, x); };   // descending
    std::map<MonoId, mpq_class, decltype(cmp)> rem(cmp);
    for (auto& x : a.t) rem[x.first] = x.second;
    MonoId lb = leading(b); mpq_class cb = coef_of(b, lb);
    std::vector<std::pair<MonoId,mpq_class>> qt;
    size_t steps = 0;
    while (!rem.empty()) {
        auto it = rem.begin();
        MonoId qm;
        if (!MT.divides(lb, it->first, qm)) return false;
        if (++steps > 20000) return false;
        mpq_class qc = it->second / cb;
        qt.push_back({qm, qc});
        for (auto& y : b.t) {
            MonoId m = MT.mul(qm, y.first);
            auto& c = rem[m];
            c -= qc * y.second;
            if (c == 0) rem.erase(m);
        }
    }
    std::sort(qt.begin(), qt.end(), [](auto& x, auto& y){ return x.first < y.first; });
    q.t = qt;
    return true;
}

RF rf_const(const mpq_class& c) { RF r; r.num = Poly::constant(c); return r; }
RF rf_double(double d) { return rf_const(to_q(d)); }
RF rf_poly(const Poly& p) { RF r; r.num = p; return r; }

static void den_mul(RF& r, const Poly& f, uint32_t e) {
    for (auto& d : r.den) if (d.first == f) { d.second += e; return; }
    r.den.push_back({f,e});
    std::sort(r.den.begin(), r.den.end());
}
// reduce s^2 -> arg in the numerator; rationalise single-sqrt denominators
static bool has_sqrt_sq(const Poly& p) {
    for (auto& x : p.t) for (auto& m : MT.monos[x.first])
        if (m.second >= 2 && atoms[m.first].kind == A_SQRT) return true;
    return false;
}
static Poly reduce_sqrt(Poly p) {
    while (has_sqrt_sq(p)) {
        Poly out;
        Poly plain;
        for (auto& x : p.t) {
            bool hit = false;
            for (auto& m : MT.monos[x.first]) if (m.second >= 2 && atoms[m.first].kind == A_SQRT) { hit = true; break; }
            if (!hit) { plain.t.push_back(x); continue; }
            auto mono = MT.monos[x.first];
            Poly f = Poly::constant(x.second);
            MonoTable::Mono rest;
            for (auto& m : mono) {
                if (m.second >= 2 && atoms[m.first].kind == A_SQRT) {
                    for (uint32_t k = 0; k < m.second/2; k++) f = mul(f, atoms[m.first].arg);
                    if (m.second % 2) rest.push_back({m.first,1});
                } else rest.push_back(m);
            }
            Poly rp; rp.t.push_back({MT.intern(rest), 1});
            out = add(out, mul(f, rp));
        }
        p = add(out, plain);
    }
    return p;
}
static void normalise(RF& r) {
    r.num = reduce_sqrt(r.num);
    // denominators that are a bare sqrt atom: 1/s = s/arg ; monomial denominators are split in atoms
    bool again = true; int guard = 0;
    while (again && guard++ < 50) {
        again = false;
        for (size_t i = 0; i < r.den.size(); i++) {
            Poly f = r.den[i].first; uint32_t e = r.den[i].second;
            if (f.t.size() == 1) {
                auto mono = MT.monos[f.t[0].first];
                if (mono.size() > 1 || mono[0].second > 1) {
                    r.den.erase(r.den.begin()+i);
                    for (auto& m : mono) den_mul(r, Poly::atom(m.first), m.second*e);
                    again = true; break;
                }
                AtomId a = mono[0].first;
                if (atoms[a].kind == A_SQRT) {
                    r.den.erase(r.den.begin()+i);
                    mpq_class c; Poly pa = primitive(atoms[a].arg, c);
                    uint32_t full = (e+1)/2;
                    if (e % 2) r.num = mul(r.num, f);
                    mpq_class cc = 1; for (uint32_t k = 0; k < full; k++) cc *= c;
                    r.num = scale(r.num, mpq_class(1)/cc);
                    if (!pa.is_const()) den_mul(r, pa, full);
                    r.num = reduce_sqrt(r.num);
                    again = true; break;
                }
            }
        }
    }
    if (r.num.zero()) { r.den.clear(); return; }
    // cancel common factors
    for (size_t i = 0; i < r.den.size();) {
        bool removed = false;
        while (r.den[i].second > 0) {
            Poly q;
            if (r.num.is_const()) break;
            if (!divexact(r.num, r.den[i].first, q)) break;
            r.num = q;
            if (--r.den[i].second == 0) { r.den.erase(r.den.begin()+i); removed = true; break; }
        }
        if (!removed) i++;
    }
}
static Poly pw(const Poly& f, uint32_t e) { Poly r = Poly::constant(1); for (uint32_t i = 0; i < e; i++) r = mul(r, f); return r; }

RF rf_add(const RF& a, const RF& b) {
    RF r;
    if (a.den.empty() && b.den.empty()) { r.num = add(a.num, b.num); return r; }
    if (a.num.zero()) return b;
    if (b.num.zero()) return a;
    // lcm
    r.den = a.den;
    for (auto& d : b.den) {
        bool f = false;
        for (auto& x : r.den) if (x.first == d.first) { x.second = std::max(x.second, d.second); f = true; }
        if (!f) r.den.push_back(d);
    }
    std::sort(r.den.begin(), r.den.end());
    auto lift = [&](const RF& x) {
        Poly n = x.num;
        for (auto& d : r.den) {
            uint32_t e = 0;
            for (auto& y : x.den) if (y.first == d.first) e = y.second;
            if (d.second > e) n = mul(n, pw(d.first, d.second - e));
        }
        return n;
    };
    r.num = add(lift(a), lift(b));
    normalise(r);
    return r;
}
RF rf_neg(const RF& a) { RF r = a; r.num = neg(a.num); return r; }
RF rf_sub(const RF& a, const RF& b) { return rf_add(a, rf_neg(b)); }
RF rf_mul(const RF& a, const RF& b) {
    RF r;
    r.num = mul(a.num, b.num);
    r.den = a.den;
    if (r.num.zero()) { r.den.clear(); return r; }
    for (auto& d : b.den) den_mul(r, d.first, d.second);
    normalise(r);
    return r;
}
RF rf_div(const RF& a, const RF& b) {
    if (b.num.zero()) throw Unsupported("division by identically zero term");
    RF inv;
    mpq_class c; Poly p = primitive(b.num, c);
    inv.num = Poly::constant(mpq_class(1)/c);
    for (auto& d : b.den) inv.num = mul(inv.num, pw(d.first, d.second));
    if (!p.is_const()) den_mul(inv, p, 1);
    RF r;
    r.num = mul(a.num, inv.num);
    r.den = a.den;
    if (r.num.zero()) { r.den.clear(); return r; }
    for (auto& d : inv.den) den_mul(r, d.first, d.second);
    normalise(r);
    return r;
}
bool rf_eq(const RF& a, const RF& b) { return rf_sub(a,b).num.zero(); }

static std::map<std::pair<std::string,std::vector<std::pair<Poly,std::vector<std::pair<Poly,uint32_t>>>>>, AtomId> opaque_ids;
RF rf_opaque(const std::string& fn, const std::vector<RF>& args) {
    std::vector<std::pair<Poly,std::vector<std::pair<Poly,uint32_t>>>> key;
    for (auto& a : args) key.push_back({a.num, a.den});
    auto k = std::make_pair(fn, key);
    auto it = opaque_ids.find(k);
    AtomId id;
    if (it == opaque_ids.end()) {
        Atom a; a.kind = A_OPAQUE; a.name = fn + "#" + std::to_string(atoms.size());
        a.bounded = false; a.lo = a.hi = 0; a.fn = fn; a.args = args;
        if (fn == "sin" || fn == "cos") { a.bounded = true; a.lo = -1; a.hi = 1; }
        atoms.push_back(a); id = atoms.size()-1; opaque_ids[k] = id;
    } else id = it->second;
    return rf_poly(Poly::atom(id));
}
static bool q_sqrt(const mpq_class& c, mpq_class& r) {
    if (c < 0) return false;
    if (mpz_perfect_square_p(c.get_num_mpz_t()) && mpz_perfect_square_p(c.get_den_mpz_t())) {
        mpz_class n, d; mpz_sqrt(n.get_mpz_t(), c.get_num_mpz_t()); mpz_sqrt(d.get_mpz_t(), c.get_den_mpz_t());
        r = mpq_class(n, d); r.canonicalize(); return true;
    }
    return false;
}
bool q_sqrt_(const mpq_class& a, mpq_class& b) { return q_sqrt(a,b); }
static std::map<Poly, AtomId> sqrt_ids;
bool poly_sqrt(const Poly& p, Poly& q) {
    if (p.zero()) { q = p; return true; }
    if (p.t.size() > 400) return false;
    MonoId lm = leading(p);
    MonoTable::Mono h;
    for (auto& f : MT.monos[lm]) { if (f.second % 2) return false; h.push_back({f.first, f.second/2}); }
    mpq_class c;
    if (!q_sqrt_(coef_of(p, lm), c)) return false;
    Poly q0; q0.t.push_back({MT.intern(h), c});
    q = q0;
    MonoId hm = q0.t[0].first;
    for (int it = 0; it < 60; it++) {
        Poly rem = sub(p, mul(q,q));
        if (rem.zero()) return true;
        MonoId rm = leading(rem), d;
        if (!MT.divides(hm, rm, d)) return false;
        if (!MT.less(d, hm)) return false;
        Poly t; t.t.push_back({d, coef_of(rem, rm) / (2*c)});
        for (auto& x : q.t) if (x.first == d) return false;
        q = add(q, t);
    }
    return false;
}
RF rf_sqrt(const RF& a) {
    // sqrt(N/D) = sqrt(N*D_odd)/ (D_even_half * D_odd); caller guarantees prod den > 0 factorwise positive
    if (a.num.zero()) return a;
    Poly N = a.num; RF r; 
    std::vector<std::pair<Poly,uint32_t>> den;
    for (auto& d : a.den) {
        if (d.second % 2) { N = mul(N, d.first); den.push_back({d.first, (d.second+1)/2}); }
        else den.push_back({d.first, d.second/2});
    }
    N = reduce_sqrt(N);
    mpq_class c; Poly P = primitive(N, c);
    // keep P0 positive leading: sqrt(c*P)
    mpq_class rc;
    Poly arg; mpq_class outer = 1;
    mpq_class ac = c < 0 ? mpq_class(-c) : c;
    if (q_sqrt(ac, rc)) { outer = rc; arg = c < 0 ? neg(P) : P; }
    else {
        // factor out powers of 4 to limit the number of distinct atoms
        arg = N; outer = 1;
        // canonical: divide by square part of dyadic content
        mpz_class n = ac.get_num(), d = ac.get_den();
        long v = (long)mpz_scan1(n.get_mpz_t(),0) - (long)mpz_scan1(d.get_mpz_t(),0);
        long h = v >= 0 ? v/2 : -((-v+1)/2);
        mpq_class f = 1;
        if (h > 0) f = mpq_class(mpz_class(1) << (2*h)); else if (h < 0) f = mpq_class(mpz_class(1), mpz_class(1) << (-2*h));
        mpq_class g; q_sqrt(f, g);
        arg = scale(N, mpq_class(1)/f); outer = g;
    }
    RF res;
    if (arg.is_const() && q_sqrt(arg.cst(), rc)) { res = rf_const(rc * outer); }
    else {
        AtomId id;
        auto it = sqrt_ids.find(arg);
        if (it == sqrt_ids.end()) {
            Atom at; at.kind = A_SQRT; at.name = "sqrt#" + std::to_string(atoms.size()); at.bounded = false; at.lo = at.hi = 0;
            at.arg = arg;
            atoms.push_back(at); id = atoms.size()-1; sqrt_ids[arg] = id;
        } else id = it->second;
        res.num = scale(Poly::atom(id), outer);
    }
    for (auto& d : den) { RF dd; dd.num = Poly::constant(1); dd.den.push_back(d); res = rf_mul(res, dd); }
    return res;
}
double atom_eval(AtomId a, const std::vector<double>& vals) {
    const Atom& at = atoms[a];
    if (at.kind == A_INPUT) return vals.at(a);
    if (at.kind == A_SQRT) { double v = poly_eval(at.arg, vals); return v < 0 ? 0 : std::sqrt(v); }
    std::vector<double> as; for (auto& r : at.args) as.push_back(rf_eval(r, vals));
    if (at.fn == "sin") return std::sin(as[0]);
    if (at.fn == "cos") return std::cos(as[0]);
    if (at.fn == "exp") return std::exp(as[0]);
    if (at.fn == "log") return std::log(as[0]);
    if (at.fn == "pow") return std::pow(as[0], as[1]);
    if (at.fn == "atan2") return std::atan2(as[0], as[1]);
    if (at.fn == "tan") return std::tan(as[0]);
    if (at.fn == "acos") return std::acos(as[0]);
    if (at.fn == "asin") return std::asin(as[0]);
    if (at.fn == "atan") return std::atan(as[0]);
    if (at.fn == "sinh") return std::sinh(as[0]);
    if (at.fn == "cosh") return std::cosh(as[0]);
    if (at.fn == "tanh") return std::tanh(as[0]);
    if (at.fn == "log10") return std::log10(as[0]);
    if (at.fn == "cbrt") return std::cbrt(as[0]);
    return std::nan("");
}
double poly_eval(const Poly& p, const std::vector<double>& vals) {
    std::unordered_map<AtomId,double> cache;
    double s = 0;
    for (auto& x : p.t) {
        double m = x.second.get_d();
        for (auto& f : MT.monos[x.first]) {
            auto it = cache.find(f.first);
            double v;
            if (it == cache.end()) { v = atom_eval(f.first, vals); cache[f.first] = v; } else v = it->second;
            m *= std::pow(v, (double)f.second);
        }
        s += m;
    }
    return s;
}
double rf_eval(const RF& r, const std::vector<double>& vals) {
    double n = poly_eval(r.num, vals);
    for (auto& d : r.den) n /= std::pow(poly_eval(d.first, vals), (double)d.second);
    return n;
}
std::string poly_str(const Poly& p, size_t maxterms) {
    std::ostringstream os; size_t n = 0;
    for (auto& x : p.t) {
        if (n++ >= maxterms) { os << " + ...(" << p.t.size() << " terms)"; break; }
        os << (n > 1 ? " + " : "") << x.second.get_d();
        for (auto& f : MT.monos[x.first]) { os << "*" << atoms[f.first].name; if (f.second > 1) os << "^" << f.second; }
    }
    if (p.t.empty()) os << "0";
    return os.str();
}
void poly_atoms(const Poly& p, std::set<AtomId>& s) {
    for (auto& x : p.t) for (auto& f : MT.monos[x.first]) {
        if (s.insert(f.first).second) {
            if (atoms[f.first].kind == A_SQRT) poly_atoms(atoms[f.first].arg, s);
        }
    }
}
static bool atom_interval(AtomId a, mpq_class& lo, mpq_class& hi) {
    const Atom& at = atoms[a];
    if (at.bounded) { lo = to_q(at.lo); hi = to_q(at.hi); return true; }
    if (at.kind == A_SQRT) {
        mpq_class l, h;
        if (!poly_interval(at.arg, l, h)) return false;
        lo = 0; if (h < 0) h = 0;
        double d = std::sqrt(h.get_d()) * (1 + 1e-12) + 1e-300; hi = to_q(d);
        if (l > 0) { double e = std::sqrt(l.get_d()) * (1 - 1e-12); lo = to_q(e); }
        return true;
    }
    return false;
}
bool mono_interval(MonoId m, mpq_class& lo, mpq_class& hi) {
    lo = 1; hi = 1;
    for (auto& f : MT.monos[m]) {
        mpq_class l, h;
        if (!atom_interval(f.first, l, h)) return false;
        mpq_class pl = 1, ph = 1;
        for (uint32_t i = 0; i < f.second; i++) { pl *= l; ph *= h; }
        if (f.second % 2 == 0) {
            if (l <= 0 && h >= 0) { ph = std::max(pl, ph); pl = 0; }
            else if (pl > ph) std::swap(pl, ph);
        }
        mpq_class c[4] = { lo*pl, lo*ph, hi*pl, hi*ph };
        lo = *std::min_element(c, c+4); hi = *std::max_element(c, c+4);
    }
    return true;
}
bool poly_interval(const Poly& p, mpq_class& lo, mpq_class& hi) {
    lo = 0; hi = 0;
    for (auto& x : p.t) {
        mpq_class l, h;
        if (!mono_interval(x.first, l, h)) return false;
        if (x.second >= 0) { lo += x.second*l; hi += x.second*h; } else { lo += x.second*h; hi += x.second*l; }
    }
    return true;
}
}
