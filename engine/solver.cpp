#include "engine.hpp"
#include <sys/wait.h>
#include <sys/file.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <cerrno>
#include <random>
#include <sstream>
#include <iostream>
#include <iomanip>

std::vector<PC> pc;
struct InputRec { std::string name; char kind; AtomId atom; std::optional<z3::expr> e; unsigned w; bool sgn; double lo, hi; };
static std::vector<InputRec> inputs;
static std::map<std::string,int> name_count;

static std::string uniq(const std::string& n) {
    int k = name_count[n]++;
    return k == 0 ? n : n + "@" + std::to_string(k);
}
std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b,8,"\\u%04x",c); r += b; }
        else r += c;
    }
    return r;
}
void record(const std::string& json) {
    int fd = open(g_out.c_str(), O_WRONLY|O_APPEND|O_CREAT, 0644);
    flock(fd, LOCK_EX);
    std::string s = json + "\n";
    size_t off = 0; while (off < s.size()) { ssize_t k = write(fd, s.data()+off, s.size()-off); if (k <= 0) break; off += k; }
    flock(fd, LOCK_UN);
    close(fd);
}

// ---------- expressions
static std::map<AtomId, unsigned> atom_var;      // atom -> var index
static std::vector<z3::expr> vars;               // var index -> z3 const
static std::vector<std::vector<PC>> var_side;    // side constraints for var
static std::map<unsigned, unsigned> decl_var;    // func_decl id -> var index
static unsigned new_var(const z3::expr& e) {
    unsigned id = vars.size(); vars.push_back(e); var_side.push_back({});
    decl_var[e.decl().id()] = id; return id;
}
static z3::expr q_expr(const mpq_class& q) { return Z->real_val(q.get_str().c_str()); }
static z3::expr atom_expr(AtomId a);
static void fill(PC& c);

static z3::expr mono_expr(MonoId m) {
    std::optional<z3::expr> r;
    for (auto& f : MT.monos[m]) {
        z3::expr a = atom_expr(f.first);
        for (uint32_t i = 0; i < f.second; i++) r = r ? (*r * a) : a;
    }
    return r ? *r : Z->real_val(1);
}
static std::map<Poly, z3::expr> poly_cache;
z3::expr poly_expr(const Poly& p) {
    auto it = poly_cache.find(p);
    if (it != poly_cache.end()) return it->second;
    z3::expr_vector ts(*Z);
    for (auto& x : p.t) {
        if (x.first == 0) ts.push_back(q_expr(x.second));
        else if (x.second == 1) ts.push_back(mono_expr(x.first));
        else ts.push_back(q_expr(x.second) * mono_expr(x.first));
    }
    z3::expr r = ts.size() == 0 ? Z->real_val(0) : ts.size() == 1 ? ts[0] : z3::sum(ts);
    poly_cache.emplace(p, r);
    return r;
}
static z3::expr atom_expr(AtomId a) {
    auto it = atom_var.find(a);
    if (it != atom_var.end()) return vars[it->second];
    z3::expr v = Z->real_const(("a" + std::to_string(a) + "_" + atoms[a].name).c_str());
    unsigned id = new_var(v); atom_var[a] = id;
    auto side = [&](const z3::expr& e) { PC c{e, {}, false, true, false, nullptr}; fill(c); var_side[id].push_back(c); };
    if (atoms[a].bounded) { side(v >= q_expr(to_q(atoms[a].lo))); side(v <= q_expr(to_q(atoms[a].hi))); }
    if (atoms[a].kind == A_SQRT) { side(v >= 0); z3::expr ap = poly_expr(atoms[a].arg); side(v*v == ap); }
    if (atoms[a].kind == A_OPAQUE && atoms[a].fn == "exp") side(v > 0);
    return v;
}
// variables of an expression
static std::map<unsigned, std::vector<unsigned>> var_cache;
static std::map<unsigned, bool> nl_cache;
static std::vector<z3::expr> keep;      // keeps cached asts alive
static const std::vector<unsigned>& expr_vars(const z3::expr& e, bool& nonlin) {
    auto it = var_cache.find(e.id());
    if (it != var_cache.end()) { nonlin = nl_cache[e.id()]; return it->second; }
    std::set<unsigned> seen; std::set<unsigned> vs; bool nl = false;
    std::vector<z3::expr> st{e};
    while (!st.empty()) {
        z3::expr x = st.back(); st.pop_back();
        if (!seen.insert(x.id()).second) continue;
        if (!x.is_app()) continue;
        if (x.num_args() == 0) { auto d = decl_var.find(x.decl().id()); if (d != decl_var.end()) vs.insert(d->second); continue; }
        auto k = x.decl().decl_kind();
        if (k == Z3_OP_MUL) { int nn = 0; for (unsigned i = 0; i < x.num_args(); i++) if (!x.arg(i).is_numeral()) nn++; if (nn > 1) nl = true; }
        for (unsigned i = 0; i < x.num_args(); i++) st.push_back(x.arg(i));
    }
    keep.push_back(e);
    nl_cache[e.id()] = nl; nonlin = nl;
    return var_cache[e.id()] = std::vector<unsigned>(vs.begin(), vs.end());
}
static void fill(PC& c) {
    c.vars = expr_vars(c.e, c.nonlin);
    c.real = c.bv = false;
    for (auto v : c.vars) { if (vars[v].is_real()) c.real = true; else c.bv = true; }
}
z3::expr bool_expr(Sym* s) {
    if (s->k == Sym::BOOL) {
        if (!s->e && s->cmp) {
            z3::expr p = poly_expr(s->cmp->p);
            switch (s->cmp->rel) { case R_EQ: s->e = (p == 0); break; case R_NE: s->e = (p != 0); break; case R_GT: s->e = (p > 0); break; case R_GE: s->e = (p >= 0); break; }
        }
        return *s->e;
    }
    if (s->k == Sym::BV) return *s->e != Z->bv_val(0, s->w);
    throw Unsupported("real used as boolean");
}
Sym* mk_real(const RF& r) { Sym* s = new Sym(Sym::REAL); s->rf = r; return s; }
static double q_to_double(const mpq_class& q) {
    // round to nearest
    double d = q.get_d();                    // truncates
    mpq_class e0 = q - to_q(d); if (e0 < 0) e0 = -e0;
    double up = std::nextafter(d, q > 0 ? INFINITY : -INFINITY);
    mpq_class e1 = q - to_q(up); if (e1 < 0) e1 = -e1;
    return e1 < e0 ? up : d;
}
V real_v(const RF& r) {
    if (r.is_const()) return V(d2bits(q_to_double(r.num.cst())));
    return V(mk_real(r));
}
V bool_v(const z3::expr& e0) {
    z3::expr e = e0.simplify();
    if (e.is_true()) return V(u64(1));
    if (e.is_false()) return V(u64(0));
    Sym* s = new Sym(Sym::BOOL); s->e = e; s->w = 1; return V(s);
}
// c*s + d*t (s,t square roots) or c*s + k: compare squares instead. Returns false if not of that form.
static bool unroot(const Poly& p, Poly& out) {
    if (p.t.size() == 0 || p.t.size() > 2) return false;
    auto root = [](MonoId m, AtomId& a) { auto& f = MT.monos[m]; if (f.size() != 1 || f[0].second != 1 || atoms[f[0].first].kind != A_SQRT) return false; a = f[0].first; return true; };
    AtomId a, b;
    if (p.t.size() == 1) { if (!root(p.t[0].first, a)) return false; out = p.t[0].second > 0 ? atoms[a].arg : neg(atoms[a].arg); return true; }
    auto t0 = p.t[0], t1 = p.t[1];
    if (t0.second > 0 == t1.second > 0) return false;
    Poly s0, s1;                       // squares of the two nonnegative magnitudes
    if (t0.first == 0) s0 = Poly::constant(t0.second*t0.second); else if (root(t0.first, a)) s0 = scale(atoms[a].arg, t0.second*t0.second); else return false;
    if (t1.first == 0) s1 = Poly::constant(t1.second*t1.second); else if (root(t1.first, b)) s1 = scale(atoms[b].arg, t1.second*t1.second); else return false;
    out = t0.second > 0 ? sub(s0, s1) : sub(s1, s0);
    return true;
}
V cmp_v(const Poly& p, Rel rel) {
    { Poly q; if (unroot(p, q)) return cmp_v(q, rel); }
    if (p.is_const()) {
        mpq_class c = p.cst(); bool b = rel == R_EQ ? c == 0 : rel == R_NE ? c != 0 : rel == R_GT ? c > 0 : c >= 0;
        return V(u64(b));
    }
    Sym* s = new Sym(Sym::BOOL); s->w = 1; s->cmp.reset(new Cmp{p, rel}); return V(s);
}
static std::map<unsigned, std::pair<__int128,__int128>> bv_in_range;      // by declaration
static std::map<unsigned, std::pair<__int128,__int128>> bv_rng_cache;
static std::pair<__int128,__int128> bv_range(const z3::expr& e, int depth = 0) {
    unsigned w = e.get_sort().bv_size();
    typedef __int128 L;
    std::pair<L,L> full{-((L)1 << (w-1)), ((L)1 << (w-1)) - 1};
    if (w > 64 || depth > 60) return full;
    auto it = bv_rng_cache.find(e.id());
    if (it != bv_rng_cache.end()) return it->second;
    std::pair<L,L> r = full;
    auto fits = [&](L lo, L hi) { if (lo >= full.first && hi <= full.second) r = {lo, hi}; };
    if (e.is_numeral()) { uint64_t x; if (Z3_get_numeral_uint64(*Z, e, &x)) { L v = w < 64 && (x >> (w-1) & 1) ? (L)x - ((L)1 << w) : (L)(int64_t)x; r = {v, v}; } }
    else if (e.is_app()) {
        auto k = e.decl().decl_kind(); unsigned n = e.num_args();
        auto R = [&](unsigned i) { return bv_range(e.arg(i), depth+1); };
        if (n == 0) { auto f = bv_in_range.find(e.decl().id()); if (f != bv_in_range.end()) r = f->second; }
        else if (k == Z3_OP_SIGN_EXT) { r = R(0); }
        else if (k == Z3_OP_ZERO_EXT) { auto a = R(0); if (a.first >= 0) r = a; else { unsigned aw = e.arg(0).get_sort().bv_size(); r = {0, ((L)1 << aw) - 1}; } }
        else if (k == Z3_OP_BADD) { L lo = 0, hi = 0; for (unsigned i = 0; i < n; i++) { auto a = R(i); lo += a.first; hi += a.second; } fits(lo, hi); }
        else if (k == Z3_OP_BSUB && n == 2) { auto a = R(0), b = R(1); fits(a.first - b.second, a.second - b.first); }
        else if (k == Z3_OP_BNEG) { auto a = R(0); fits(-a.second, -a.first); }
        else if (k == Z3_OP_BMUL) {
            L lo = 1, hi = 1; bool ok = true;
            for (unsigned i = 0; i < n && ok; i++) { auto a = R(i); L lim = (L)1 << 62; if (a.first < -lim || a.second > lim || lo < -lim || hi > lim) { ok = false; break; }
                L v[4] = {lo*a.first, lo*a.second, hi*a.first, hi*a.second}; lo = *std::min_element(v,v+4); hi = *std::max_element(v,v+4); }
            if (ok) fits(lo, hi);
        }
        else if (k == Z3_OP_ITE) { auto a = R(1), b = R(2); r = {std::min(a.first,b.first), std::max(a.second,b.second)}; }
        else if (k == Z3_OP_BSREM || k == Z3_OP_BSREM_I) { auto a = R(0), b = R(1); L m = std::max(b.first < 0 ? -b.first : b.first, b.second < 0 ? -b.second : b.second);
            if (m > 0) { L lo = a.first < 0 ? std::max(a.first, 1-m) : 0, hi = a.second > 0 ? std::min(a.second, m-1) : 0; (void)lo; if (b.first > 0 || b.second < 0) r = {lo, hi}; else r = {std::min(a.first,(L)0), std::max(a.second,(L)0)}; } }
        else if (k == Z3_OP_BSDIV || k == Z3_OP_BSDIV_I) { auto a = R(0), b = R(1); L m = std::max(a.first < 0 ? -a.first : a.first, a.second < 0 ? -a.second : a.second); if (b.first > 0 || b.second < 0) fits(-m, m); else fits(-std::max(m,(L)1), std::max(m,(L)1)); }
        else if (k == Z3_OP_EXTRACT && e.lo() == 0) { auto a = R(0); fits(a.first, a.second); }
    }
    keep.push_back(e);
    bv_rng_cache[e.id()] = r;
    return r;
}
unsigned bv_bits(const z3::expr& e) {
    auto r = bv_range(e);
    unsigned k = 1;
    while (k < 100 && !(r.first >= -((__int128)1 << (k-1)) && r.second <= ((__int128)1 << (k-1)) - 1)) k++;
    return k;
}
V bv_v(const z3::expr& e0) {
    z3::expr e = e0.simplify();
    unsigned w = e.get_sort().bv_size();
    if (e.is_numeral()) { uint64_t x; if (Z3_get_numeral_uint64(*Z, e, &x)) return V(u64(x)); }
    Sym* s = new Sym(Sym::BV); s->e = e; s->w = w; return V(s);
}
V new_real_input(const std::string& name, double lo, double hi) {
    std::string n = uniq(name);
    AtomId a = new_input(n, lo, hi, std::isfinite(lo) && std::isfinite(hi));
    inputs.push_back({n, 'r', a, {}, 0, false, lo, hi});
    return V(mk_real(rf_poly(Poly::atom(a))));
}
V new_bv_input(const std::string& name, unsigned w, i64 lo, i64 hi, bool sg) {
    std::string n = uniq(name);
    z3::expr e = Z->bv_const(("b_" + n).c_str(), w);
    new_var(e);
    if (sg || hi >= 0) bv_in_range[e.decl().id()] = {lo, hi};
    inputs.push_back({n, 'i', 0, e, w, sg, (double)lo, (double)hi});
    z3::expr l = Z->bv_val((int64_t)lo, w), h = Z->bv_val((int64_t)hi, w);
    assume_expr(sg ? (e >= l && e <= h) : (z3::uge(e,l) && z3::ule(e,h)));
    Sym* s = new Sym(Sym::BV); s->e = e; s->w = w; return V(s);
}
V new_bool_input(const std::string& name) {
    std::string n = uniq(name);
    z3::expr e = Z->bool_const(("p_" + n).c_str());
    new_var(e);
    inputs.push_back({n, 'b', 0, e, 1, false, 0, 1});
    Sym* s = new Sym(Sym::BOOL); s->e = e; s->w = 1; return V(s);
}

// ---------- queries
enum Res { SAT, UNSAT, UNKNOWN };
static std::vector<PC> cone(const std::vector<const z3::expr*>& es) {
    std::set<unsigned> vs; std::vector<unsigned> todo;
    auto addv = [&](const std::vector<unsigned>& v) { for (auto x : v) if (vs.insert(x).second) todo.push_back(x); };
    bool nl;
    for (auto e : es) addv(expr_vars(*e, nl));
    std::vector<PC> out; std::vector<char> used(pc.size(), 0);
    std::set<unsigned> side_done;
    bool ch = true;
    while (ch) {
        ch = false;
        while (!todo.empty()) {
            unsigned v = todo.back(); todo.pop_back();
            if (side_done.insert(v).second) { auto sc = var_side[v]; for (auto& c : sc) { out.push_back(c); addv(c.vars); } ch = true; }
        }
        for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
            bool hit = false; for (auto v : pc[i].vars) if (vs.count(v)) { hit = true; break; }
            if (hit) { used[i] = 1; out.push_back(pc[i]); addv(pc[i].vars); ch = true; }
        }
    }
    return out;
}
static Res query(const std::vector<PC>& cs, const std::vector<z3::expr>& extra, unsigned timeout, z3::model* mout = nullptr) {
    SH->queries++;
    if (SH->stop) throw PathEnd{"stopped",""};
    double t0 = now();
    if (t0 > g_deadline) { SH->deadline_hit++; throw PathEnd{"deadline",""}; }
    bool nonlin = false, real = false, bv = false;
    auto acc = [&](const std::vector<unsigned>& v, bool nl) { nonlin |= nl; for (auto x : v) { if (vars[x].is_real()) real = true; else bv = true; } };
    for (auto& c : cs) acc(c.vars, c.nonlin);
    for (auto& e : extra) { bool nl; auto& v = expr_vars(e, nl); acc(v, nl); }
    Res res = UNKNOWN;
    unsigned to = std::min<double>(timeout, std::max(100.0, (g_deadline - t0)*1000));
    auto attempt = [&](z3::solver s, unsigned t) -> Res {
        try {
            z3::params p(*Z); p.set("timeout", t); s.set(p);
            for (auto& c : cs) s.add(c.e);
            for (auto& e : extra) s.add(e);
            auto r = s.check();
            if (r == z3::sat) { if (mout) *mout = s.get_model(); return SAT; }
            if (r == z3::unsat) return UNSAT;
            return UNKNOWN;
        } catch (z3::exception& ex) { return UNKNOWN; }
    };
    if (nonlin && real && !bv) {
        SH->nra++;
        // nlsat does not always honour its timeout: decide in a subprocess that can be killed
        int fd[2]; pid_t ch = -1;
        if (pipe(fd) == 0) {
            ch = fork();
            if (ch == 0) {
                close(fd[0]); z3::model* keepm = mout; mout = nullptr;
                res = attempt(z3::tactic(*Z, "qfnra-nlsat").mk_solver(), to);
                if (res == UNKNOWN) res = attempt(z3::solver(*Z, "QF_NRA"), std::min(to, 2000u));
                char c = (char)res; (void)!write(fd[1], &c, 1); (void)keepm; _exit(0);
            }
            close(fd[1]);
            if (ch > 0) {
                struct pollfd pf{fd[0], POLLIN, 0};
                double lim = now() + to/1000.0 + std::min(to/1000.0, 2.0) + 0.5;
                while (true) { double left = lim - now(); if (left <= 0) break; int k = poll(&pf, 1, (int)(left*1000) + 1); if (k > 0) { char c; if (read(fd[0], &c, 1) == 1) res = (Res)c; break; } if (k < 0 && errno != EINTR) break; }
                kill(ch, SIGKILL); int st; while (waitpid(ch, &st, 0) < 0 && errno == EINTR) {}
            }
            close(fd[0]);
        }
        if (res == SAT && mout) {
            res = attempt(z3::tactic(*Z, "qfnra-nlsat").mk_solver(), 4*to);
            if (res == UNKNOWN) res = attempt(z3::solver(*Z, "QF_NRA"), 4*std::min(to, 2000u));
        }
    } else {
        if (bv && !real) SH->bvq++; else SH->lra++;
        res = bv && !real ? attempt(z3::solver(*Z, "QF_BV"), to) : attempt(z3::solver(*Z), to);
    }
    SH->solver_us += (long)((now()-t0)*1e6);
    static bool slow = getenv("VP_SLOW"); if (slow && now()-t0 > 1) { std::string o = "SLOW " + std::to_string(now()-t0) + "\n"; for (auto& c : cs) o += c.e.to_string() + "\n"; for (auto& e : extra) o += "+ " + e.to_string() + "\n"; std::cerr << o; }
    if (res == SAT) SH->sat++; else if (res == UNSAT) SH->unsat++; else SH->unknown++;
    return res;
}

// ---------- known signs (syntactic consequences of the path condition), plus intervals
static std::map<Poly,int> known;   // primitive poly -> mask of possible signs: 1 neg, 2 zero, 4 pos
static int quick_sign_mask(const Poly& p) {
    if (p.is_const()) { auto c = p.cst(); return c < 0 ? 1 : c == 0 ? 2 : 4; }
    mpq_class c; Poly q = primitive(p, c);
    int m = 7;
    auto it = known.find(q);
    if (it != known.end()) m = it->second;
    mpq_class lo, hi;
    if (q.t.size() < 200 && poly_interval(q, lo, hi)) {
        if (lo > 0) m &= 4; else if (lo >= 0) m &= 6;
        if (hi < 0) m &= 1; else if (hi <= 0) m &= 3;
    }
    if (c < 0) m = ((m & 1) << 2) | (m & 2) | ((m & 4) >> 2);
    return m;
}
static void learn(const Poly& p, int mask) {
    mpq_class c; Poly q = primitive(p, c);
    if (c < 0) mask = ((mask & 1) << 2) | (mask & 2) | ((mask & 4) >> 2);
    auto it = known.find(q);
    if (it == known.end()) known[q] = mask; else it->second &= mask;
}
static int rel_mask(Rel r) { return r == R_EQ ? 2 : r == R_NE ? 5 : r == R_GT ? 4 : 6; }
static Cmp negate(const Cmp& c) {
    switch (c.rel) { case R_EQ: return {c.p, R_NE}; case R_NE: return {c.p, R_EQ}; case R_GT: return {neg(c.p), R_GE}; default: return {neg(c.p), R_GT}; }
}
static void pool_filter(const Cmp& c);
static void pool_refresh();
static std::vector<std::vector<double>> pool;
static bool cmp_true(const Cmp& c, const std::vector<double>& v);
void assume_expr(const z3::expr& e, std::shared_ptr<Cmp> c) {
    if (c) pool_refresh();
    z3::expr s = e;
    if (s.is_true()) return;
    if (!c && s.is_and()) { for (unsigned i = 0; i < s.num_args(); i++) assume_expr(s.arg(i)); return; }
    PC p{s, {}, false, false, false, c}; fill(p);
    pc.push_back(p);
    if (c) { learn(c->p, rel_mask(c->rel)); pool_filter(*c); }
}
static std::shared_ptr<Cmp> cp(const std::unique_ptr<Cmp>& c) { return c ? std::make_shared<Cmp>(*c) : nullptr; }
void assume_sym(Sym* s) {
    if (s->cmp) {
        int m = quick_sign_mask(s->cmp->p), r = rel_mask(s->cmp->rel);
        if ((m & ~r) == 0) return;
        if ((m & r) == 0) { SH->infeasible++; throw PathEnd{"infeasible","assume"}; }
    }
    z3::expr e = bool_expr(s);
    bool ok = false;
    if (s->cmp) { pool_refresh(); for (auto& v : pool) if (cmp_true(*s->cmp, v)) { ok = true; break; } }
    if (!ok && query(cone({&e}), {e}, g_qtimeout) == UNSAT) { SH->infeasible++; throw PathEnd{"infeasible","assume"}; }
    assume_expr(e, cp(s->cmp));
}

// ---------- sample pool: points that satisfy the real part of the path condition, used to see quickly that a branch is feasible
static bool cmp_true(const Cmp& c, const std::vector<double>& v);
static std::mt19937_64 prng(777);
static bool gen_point(std::vector<double>& v) {
    v.assign(atoms.size(), 0.0);
    for (auto& in : inputs) if (in.kind == 'r') {
        double lo = std::isfinite(in.lo) ? in.lo : -2, hi = std::isfinite(in.hi) ? in.hi : 2;
        v[in.atom] = lo + (hi-lo)*std::uniform_real_distribution<double>(0,1)(prng);
    }
    for (auto& c : pc) if (c.cmp) { if (!cmp_true(*c.cmp, v)) return false; } else if (c.real) return false;
    return true;
}
static void pool_refresh() {
    size_t na = atoms.size();
    for (auto& v : pool) if (v.size() < na) {
        size_t o = v.size(); v.resize(na, 0.0);
        for (auto& in : inputs) if (in.kind == 'r' && in.atom >= o) { double lo = std::isfinite(in.lo) ? in.lo : -2, hi = std::isfinite(in.hi) ? in.hi : 2; v[in.atom] = lo + (hi-lo)*std::uniform_real_distribution<double>(0,1)(prng); }
    }
    if (pool.size() < 12) { std::vector<double> v; for (int i = 0; i < 200 && pool.size() < 48; i++) if (gen_point(v)) pool.push_back(v); }
}
static void pool_filter(const Cmp& c) {
    std::vector<std::vector<double>> r;
    for (auto& v : pool) { if (v.size() < atoms.size()) v.resize(atoms.size(), 0.0); if (cmp_true(c, v)) r.push_back(std::move(v)); }
    pool.swap(r);
}
static std::vector<pid_t> children;
pid_t do_fork() {
    SH->forks++;
    if (SH->paths + SH->live > g_maxpaths) { SH->deadline_hit++; throw PathEnd{"deadline","path limit"}; }
    std::cout.flush();
    bool serial = SH->live >= 8;
    pid_t p = fork();
    if (p < 0) { SH->errors++; throw PathEnd{"error","fork failed"}; }
    if (p == 0) { children.clear(); SH->live++; arm_alarm(); return 0; }
    if (serial) { int st; SH->live--; waitpid(p, &st, 0); SH->live++; if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) SH->errors++; }
    else children.push_back(p);
    return p;
}
void wait_children() {
    for (auto p : children) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) SH->errors++; }
    children.clear();
}
bool decide_expr(const z3::expr& e0, std::shared_ptr<Cmp> c) {
    z3::expr e = c ? e0 : e0.simplify();
    if (e.is_true()) return true;
    if (e.is_false()) return false;
    if (now() > g_deadline) { SH->deadline_hit++; throw PathEnd{"deadline",""}; }
    z3::expr ne = e.is_not() ? e.arg(0) : !e;
    if (!c) for (auto& p : pc) { if (z3::eq(p.e, e)) return true; if (z3::eq(p.e, ne)) return false; }
    bool st = false, sf = false;
    if (c) {
        pool_refresh();
        Cmp nc = negate(*c);
        for (auto& v : pool) { if (!st && cmp_true(*c, v)) st = true; if (!sf && cmp_true(nc, v)) sf = true; if (st && sf) break; }
    }
    if (!st || !sf) {
        auto cn = cone({&e});
        if (!st && query(cn, {e}, g_qtimeout) == UNSAT) { return false; }
        if (!sf && query(cn, {ne}, g_qtimeout) == UNSAT) { return true; }
    }
    pid_t p = do_fork();
    if (p == 0) { // child: false side
        if (c) { auto n = std::make_shared<Cmp>(negate(*c)); assume_expr(ne, n); } else assume_expr(ne);
        return false;
    }
    assume_expr(e, c);
    return true;
}
bool decide(Sym* b) {
    if (b->cmp) {
        int m = quick_sign_mask(b->cmp->p), r = rel_mask(b->cmp->rel);
        if ((m & ~r) == 0) { SH->trivial++; return true; }
        if ((m & r) == 0) { SH->trivial++; return false; }
        // orient to a canonical polynomial so that repeated decisions hit the cache
        return decide_expr(bool_expr(b), cp(b->cmp));
    }
    return decide_expr(bool_expr(b));
}
int sign_of(const Poly& p) {
    int m = quick_sign_mask(p);
    if (!(m & 1)) { if (m == 6) { learn(p, 5); } return 1; }
    if (!(m & 4)) return -1;
    auto c = std::make_shared<Cmp>(Cmp{p, R_GT});
    z3::expr e = poly_expr(p) > 0;
    return decide_expr(e, c) ? 1 : -1;
}
// the outermost if-then-else; with a value, one whose condition the path condition states
static bool find_ite(const z3::expr& e, z3::expr& out, std::set<unsigned>& seen, bool* value = nullptr) {
    if (!e.is_app() || !seen.insert(Z3_get_ast_id(*Z, e)).second) return false;
    if (e.is_ite() && !e.arg(0).is_true() && !e.arg(0).is_false()) {
        if (!value) { out = e; return true; }
        z3::expr c = e.arg(0), n = !c; for (auto& p : pc) { if (z3::eq(p.e, c)) { out = e; *value = true; return true; } if (z3::eq(p.e, n)) { out = e; *value = false; return true; } }
    }
    for (unsigned i = 0; i < e.num_args(); i++) if (find_ite(e.arg(i), out, seen, value)) return true;
    return false;
}
u64 concretize(const z3::expr& e0, unsigned w) {
    z3::expr e = e0;
    int guard = 0;
    while (true) {
        if (++guard > 300) throw Unsupported("too many values for a symbolic index");
        { z3::expr t(*Z); bool v; std::set<unsigned> seen; uint64_t x;
          while (find_ite(e, t, seen, &v)) { z3::expr_vector from(*Z), to(*Z); from.push_back(t); to.push_back(v ? t.arg(1) : t.arg(2)); e = e.substitute(from, to).simplify(); seen.clear(); }
          if (e.is_numeral() && Z3_get_numeral_uint64(*Z, e, &x)) return x; }
        z3::model m(*Z);
        auto cn = cone({&e});
        Res r = query(cn, {}, g_qtimeout, &m);
        auto split = [&]() { // decide the conditions inside one by one
            z3::expr t(*Z); std::set<unsigned> seen;
            if (!find_ite(e, t, seen)) throw Unsupported("cannot concretize");
            z3::expr_vector from(*Z), to(*Z); from.push_back(t); to.push_back(decide_expr(t.arg(0)) ? t.arg(1) : t.arg(2));
            e = e.substitute(from, to).simplify();
        };
        if (r != SAT) { split(); continue; }
        z3::expr v = m.eval(e, true); uint64_t x = 0; Z3_get_numeral_uint64(*Z, v, &x);
        z3::expr eq = (e == v).simplify(); if (eq.is_true()) return x;
        Res o = query(cone({&eq}), {!eq}, g_qtimeout);
        if (o == UNSAT) return x;
        if (o != SAT) { z3::expr t(*Z); std::set<unsigned> seen; if (find_ite(e, t, seen)) { split(); continue; } }
        if (decide_expr(eq)) return x;
    }
}
double concretize_floor(const RF& r) {
    // largest integer k <= r ; den sign decided by caller (all den positive)
    Poly D = Poly::constant(1); for (auto& d : r.den) for (uint32_t i = 0; i < d.second; i++) D = mul(D, d.first);
    z3::expr n = poly_expr(r.num), d = poly_expr(D);
    int guard = 0;
    while (true) {
        if (++guard > 200) throw Unsupported("too many integer values");
        z3::model m(*Z);
        auto cn = cone({&n, &d});
        if (query(cn, {}, g_qtimeout, &m) != SAT) throw Unsupported("cannot concretize real");
        z3::expr vn = m.eval(n, true), vd = m.eval(d, true);
        double q = std::strtod(vn.get_decimal_string(20).c_str(), 0) / std::strtod(vd.get_decimal_string(20).c_str(), 0);
        double k = std::floor(q);
        Poly l = sub(r.num, scale(D, to_q(k))), h = sub(scale(D, to_q(k+1)), r.num);
        auto cl = std::make_shared<Cmp>(Cmp{l, R_GE}); 
        if (!decide_expr(poly_expr(l) >= 0, cl)) continue;
        auto ch = std::make_shared<Cmp>(Cmp{h, R_GT});
        if (!decide_expr(poly_expr(h) > 0, ch)) continue;
        return k;
    }
}

// ---------- models, witnesses, violations
static std::string num_dec(const z3::expr& v) {
    std::string s = v.get_decimal_string(25);
    if (!s.empty() && s.back() == '?') s.pop_back();
    return s;
}
typedef std::map<std::string,std::string> Vals;
static Vals model_vals(const z3::model& m) {
    Vals r;
    for (auto& in : inputs) {
        if (in.kind == 'r') {
            auto it = atom_var.find(in.atom);
            std::string d;
            if (it == atom_var.end() || !m.has_interp(vars[it->second].decl())) {
                // unconstrained: pick something generic
                double lo = std::isfinite(in.lo) ? in.lo : -1, hi = std::isfinite(in.hi) ? in.hi : 1;
                double x = lo + (hi-lo) * (0.3 + 0.4*std::fmod(0.61803398875*(in.atom+1), 1.0));
                std::ostringstream os; os << std::setprecision(17) << x; d = os.str();
            } else {
                z3::expr v = m.eval(vars[it->second], true);
                double x = std::strtod(num_dec(v).c_str(), 0);
                std::ostringstream os; os << std::setprecision(17) << x; d = os.str();
            }
            r[in.name] = d;
        } else if (in.kind == 'b') {
            z3::expr v = m.eval(*in.e, true); r[in.name] = v.is_true() ? "1" : "0";
        } else {
            z3::expr v = m.eval(*in.e, true); uint64_t x = 0; Z3_get_numeral_uint64(*Z, v, &x);
            if (in.sgn && in.w < 64 && (x >> (in.w-1))) x |= ~0ull << in.w;
            r[in.name] = in.sgn ? std::to_string((int64_t)x) : std::to_string(x);
        }
    }
    return r;
}
static std::string vals_json(const Vals& v) {
    std::string s = "{"; bool first = true;
    for (auto& p : v) { if (!first) s += ","; first = false; s += "\"" + jesc(p.first) + "\":\"" + p.second + "\""; }
    return s + "}";
}
static void report(const std::string& kind, const std::string& label, const std::vector<Vals>& vs, const std::string& detail, const std::string& how) {
    SH->checks_failed++;
    std::string s = "{\"t\":\"viol\",\"kind\":\"" + kind + "\",\"label\":\"" + jesc(label) + "\",\"how\":\"" + how + "\",\"detail\":\"" + jesc(detail) + "\",\"models\":[";
    for (size_t i = 0; i < vs.size(); i++) { if (i) s += ","; s += vals_json(vs[i]); }
    s += "]}";
    record(s);
}
static std::mt19937_64 rng(12345);
static bool cmp_true(const Cmp& c, const std::vector<double>& v) {
    double x = poly_eval(c.p, v);
    if (!(x == x)) return false;
    switch (c.rel) { case R_EQ: return std::fabs(x) < 1e-12; case R_NE: return x != 0; case R_GT: return x > 1e-9; default: return x >= 0; }
}
// random points of the box that satisfy the path condition (candidates for replay only)
static std::vector<Vals> sample(int want, std::function<bool(const std::vector<double>&)> pred) {
    std::vector<Vals> out;
    for (auto& in : inputs) if (in.kind != 'r') return out;
    for (auto& c : pc) if (!c.cmp) return out;
    for (int it = 0; it < 3000 && (int)out.size() < want; it++) {
        std::vector<double> v(atoms.size(), 0.0);
        for (auto& in : inputs) {
            double lo = std::isfinite(in.lo) ? in.lo : -2, hi = std::isfinite(in.hi) ? in.hi : 2;
            v[in.atom] = lo + (hi-lo)*std::uniform_real_distribution<double>(0,1)(rng);
        }
        bool ok = true;
        for (auto& c : pc) if (!cmp_true(*c.cmp, v)) { ok = false; break; }
        if (!ok || !pred(v)) continue;
        Vals r;
        for (auto& in : inputs) { std::ostringstream os; os << std::setprecision(17) << v[in.atom]; r[in.name] = os.str(); }
        out.push_back(r);
    }
    return out;
}
static std::vector<PC> all_pc() {
    std::vector<PC> r = pc;
    // every variable mentioned, with its side constraints
    std::set<unsigned> vs; std::vector<unsigned> todo;
    for (auto& c : pc) for (auto v : c.vars) if (vs.insert(v).second) todo.push_back(v);
    while (!todo.empty()) { unsigned v = todo.back(); todo.pop_back(); auto sc = var_side[v]; for (auto& c : sc) { r.push_back(c); for (auto x : c.vars) if (vs.insert(x).second) todo.push_back(x); } }
    return r;
}
static std::vector<PC> full_with(const z3::expr& e) {
    auto r = all_pc(); auto c2 = cone({&e});
    std::set<unsigned> have; for (auto& c : r) have.insert(c.e.id());
    for (auto& c : c2) if (have.insert(c.e.id()).second) r.push_back(c);
    return r;
}
void check_fail(const std::string& kind, const std::string& label) {
    SH->checks++;
    std::vector<Vals> ms;
    z3::model m(*Z);
    auto cs = all_pc();
    Res r = cs.empty() ? SAT : query(cs, {}, 4*g_qtimeout, &m);
    if (r == UNSAT) { SH->infeasible++; throw PathEnd{"infeasible", "path condition unsat at failure"}; }
    if (r == SAT) { if (cs.empty()) { z3::solver s(*Z); s.check(); m = s.get_model(); } ms.push_back(model_vals(m)); }
    auto more = sample(2, [](auto&){ return true; });
    for (auto& x : more) ms.push_back(x);
    report(kind, label, ms, "", r == SAT ? "solver" : "unknown");
}
void check_sym(Sym* b, const std::string& label) {
    SH->checks++;
    if (b->cmp) {
        int m = quick_sign_mask(b->cmp->p), r = rel_mask(b->cmp->rel);
        if ((m & ~r) == 0) { SH->trivial++; return; }
    }
    z3::expr e = bool_expr(b), ne = !e;
    auto cn = cone({&e});
    z3::model m(*Z);
    Res r = query(cn, {ne}, 6*g_qtimeout, &m);
    if (r == UNSAT) { assume_expr(e, cp(b->cmp)); return; }
    std::vector<Vals> ms;
    if (r == SAT) { z3::model m2(*Z); auto cs = full_with(ne); if (query(cs, {ne}, 6*g_qtimeout, &m2) == SAT) m = m2; ms.push_back(model_vals(m)); }
    if (b->cmp) { Cmp n = negate(*b->cmp); auto more = sample(2, [&](auto& v){ return cmp_true(n, v); }); for (auto& x : more) ms.push_back(x); }
    if (r == UNKNOWN && ms.empty()) { SH->checks_unknown++; record("{\"t\":\"unknown\",\"label\":\"" + jesc(label) + "\"}"); }
    else report("check", label, ms, b->cmp ? poly_str(b->cmp->p) : "", r == SAT ? "solver" : "sampled");
    if (query(cn, {e}, g_qtimeout) == UNSAT) throw PathEnd{"done","assertion fails everywhere"};
    assume_expr(e, cp(b->cmp));
}
// |diff| <= tol for all values allowed by the path condition
void check_close(const RF& diff, double tol, const std::string& label) {
    SH->checks++;
    if (diff.is_const()) {
        mpq_class c = diff.num.cst(); if (c < 0) c = -c;
        z3::expr e = q_expr(c) > q_expr(to_q(tol));
        SH->queries++; SH->lra++;
        static z3::solver* cs = nullptr; if (!cs) cs = new z3::solver(*Z, "QF_LRA");
        cs->push(); cs->add(e); bool ok = cs->check() == z3::unsat; cs->pop();
        if (ok) { SH->unsat++; return; }
        SH->sat++;
        check_fail("check", label); return;
    }
    Poly D = Poly::constant(1);
    for (auto& d : diff.den) for (uint32_t i = 0; i < d.second; i++) D = mul(D, d.first);
    int sd = D.is_const() ? (D.cst() > 0 ? 1 : -1) : sign_of(D);
    if (sd < 0) D = neg(D);
    Poly N = diff.num;
    mpq_class qt = to_q(tol);
    Poly hiP = sub(N, scale(D, qt)), loP = sub(neg(N), scale(D, qt));     // violation: hiP > 0 or loP > 0
    // (1) linear relaxation over monomials, with the path condition's polynomial constraints
    {
        double t0 = now();
        SH->queries++; SH->lra++;
        z3::solver s(*Z, "QF_LRA");
        z3::params pp(*Z); pp.set("timeout", 4*g_qtimeout); s.set(pp);
        std::map<MonoId, z3::expr> mv;
        auto lin = [&](const Poly& p) {
            z3::expr_vector ts(*Z); ts.push_back(Z->real_val(0));
            for (auto& x : p.t) {
                if (x.first == 0) { ts.push_back(q_expr(x.second)); continue; }
                auto it = mv.find(x.first);
                if (it == mv.end()) {
                    z3::expr v = Z->real_const(("m" + std::to_string(x.first)).c_str());
                    mv.emplace(x.first, v); it = mv.find(x.first);
                    mpq_class l, h;
                    if (mono_interval(x.first, l, h)) { s.add(v >= q_expr(l)); s.add(v <= q_expr(h)); }
                }
                ts.push_back(q_expr(x.second) * it->second);
            }
            return z3::sum(ts);
        };
        try {
            // terms too small to matter are gathered into one bounded unknown (sound: it may take any value up to the sum of their bounds)
            Poly big; mpq_class E = 0, cut = qt/1000/(1 + (int)N.t.size());
            if (D.is_const()) {
                for (auto& x : N.t) {
                    mpq_class l, h, m; if (x.first == 0) { m = abs(x.second); } else if (mono_interval(x.first, l, h)) { l = abs(l); h = abs(h); m = abs(x.second) * (l > h ? l : h); } else { big.t.push_back(x); continue; }
                    if (m <= cut*D.cst()) E += m; else big.t.push_back(x);
                }
                E = to_q(E.get_d()*1.001 + 1e-300);
                z3::expr slack = Z->real_const("small!terms"); s.add(slack >= q_expr(-E)); s.add(slack <= q_expr(E));
                z3::expr nb = lin(big) + slack; mpq_class lim = qt*abs(D.cst());
                s.add(nb > q_expr(lim) || nb < q_expr(-lim));
            } else s.add(lin(hiP) > 0 || lin(loP) > 0);
            for (auto& c : pc) if (c.cmp && c.cmp->p.t.size() < 200) {
                z3::expr p = lin(c.cmp->p);
                if (c.cmp->rel == R_EQ) s.add(p == 0); else if (c.cmp->rel == R_GT) s.add(p > 0); else if (c.cmp->rel == R_GE) s.add(p >= 0);
            }
            auto r = s.check();
            SH->solver_us += (long)((now()-t0)*1e6);
            if (r == z3::unsat) { SH->unsat++; return; }
            if (r == z3::sat) SH->sat++; else SH->unknown++;
        } catch (z3::exception& e) { SH->unknown++; }
    }
    // (2) exact query
    Res r = UNKNOWN; z3::model m(*Z);
    std::vector<Vals> ms;
    if (hiP.t.size() < 3000) {
        z3::expr viol = poly_expr(hiP) > 0 || poly_expr(loP) > 0;
        auto cn = cone({&viol});
        r = query(cn, {viol}, 4*g_qtimeout, &m);
        if (r == UNSAT) return;
        if (r == SAT) {
            auto cs = full_with(viol);
            // prefer a large violation, which survives rounding in the replay
            for (double big : {1e-2, 1e-4, 1e-6}) {
                if (big <= 10*tol) break;
                mpq_class qb = to_q(big);
                z3::expr v2 = poly_expr(sub(N, scale(D, qb))) > 0 || poly_expr(sub(neg(N), scale(D, qb))) > 0;
                z3::model m2(*Z);
                if (query(cs, {v2}, 2*g_qtimeout, &m2) == SAT) { ms.push_back(model_vals(m2)); break; }
            }
            z3::model m3(*Z);
            if (query(cs, {viol}, 2*g_qtimeout, &m3) == SAT) m = m3;
            ms.push_back(model_vals(m));
        }
    }
    auto more = sample(3, [&](auto& v){ double n = poly_eval(N, v), d = poly_eval(D, v); return std::fabs(n) > 1.5*tol*std::fabs(d); });
    for (auto& x : more) ms.push_back(x);
    if (ms.empty()) { SH->checks_unknown++; record("{\"t\":\"unknown\",\"label\":\"" + jesc(label) + "\",\"detail\":\"" + jesc(poly_str(N)) + "\"}"); return; }
    report("close", label, ms, poly_str(N) + (D.is_const() ? "" : "  /  " + poly_str(D)), r == SAT ? "solver" : "sampled");
}
static Vals pool_vals(const std::vector<double>& v) {
    Vals r;
    for (auto& in : inputs) { std::ostringstream os; os << std::setprecision(17) << (in.kind == 'r' ? v[in.atom] : 0.0); r[in.name] = os.str(); }
    return r;
}
void end_path_witness() {
    if (SH->witnesses >= 12) return;
    SH->witnesses++;
    Vals v;
    pool_refresh();
    bool anybv = false, anyreal = false, nl = false; std::vector<PC> bvpc;
    for (auto& in : inputs) if (in.kind == 'r') anyreal = true; else anybv = true;
    for (auto& c : pc) { if (c.real && c.nonlin) nl = true; if (!c.real) bvpc.push_back(c); }
    if (anyreal && !pool.empty()) {
        v = pool_vals(pool[0]);
        if (anybv) {
            z3::model m(*Z);
            if (bvpc.empty()) { z3::solver s(*Z); s.check(); m = s.get_model(); }
            else if (query(bvpc, {}, g_qtimeout, &m) != SAT) return;
            Vals w = model_vals(m);
            for (auto& in : inputs) if (in.kind != 'r') v[in.name] = w[in.name];
        }
    } else {
        if (nl) return;
        z3::model m(*Z);
        auto cs = all_pc();
        if (cs.empty()) { z3::solver s(*Z); s.check(); v = model_vals(s.get_model()); }
        else if (query(cs, {}, g_qtimeout, &m) == SAT) v = model_vals(m);
        else return;
    }
    record("{\"t\":\"witness\",\"vals\":" + vals_json(v) + "}");
}
void dump_pc() { std::cerr << "=== path\n"; for (auto& p : pc) std::cerr << p.e.to_string() << "\n"; }
