#pragma once
#include "term.hpp"
#include <z3++.h>
#include <optional>
#include <functional>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <atomic>

using namespace term;
typedef uint64_t u64; typedef int64_t i64;

enum Rel { R_EQ, R_GT, R_GE, R_NE };       // p rel 0
struct Cmp { Poly p; Rel rel; };
struct Sym {
    int rc = 0;
    enum K { REAL, BOOL, BV } k;
    RF rf;
    std::optional<z3::expr> e;
    unsigned w = 0;
    std::unique_ptr<Cmp> cmp;
    Sym(K kk) : k(kk) {}
};
struct V {
    u64 c; Sym* s;
    V() : c(0), s(nullptr) {}
    V(u64 x) : c(x), s(nullptr) {}
    V(Sym* x) : c(0xA5A5A5A5A5A5A5A5ull), s(x) { if (s) s->rc++; }
    V(const V& o) : c(o.c), s(o.s) { if (s) s->rc++; }
    V(V&& o) noexcept : c(o.c), s(o.s) { o.s = nullptr; }
    V& operator=(const V& o) { if (o.s) o.s->rc++; rel(); c = o.c; s = o.s; return *this; }
    V& operator=(V&& o) noexcept { if (this != &o) { rel(); c = o.c; s = o.s; o.s = nullptr; } return *this; }
    ~V() { rel(); }
    inline void rel() { if (s) { if (--s->rc == 0) delete s; s = nullptr; } }
};
static inline double bits2d(u64 b) { double d; memcpy(&d,&b,8); return d; }
static inline u64 d2bits(double d) { u64 b; memcpy(&b,&d,8); return b; }
static inline float bits2f(u64 b) { uint32_t x = b; float f; memcpy(&f,&x,4); return f; }
static inline u64 f2bits(float f) { uint32_t b; memcpy(&b,&f,4); return b; }

struct PathEnd { std::string status, msg; };   // thrown to end a path

// ---- shared statistics
struct Shared {
    std::atomic<long> queries, sat, unsat, unknown, paths, forks, checks, checks_failed, checks_unknown,
        infeasible, unsupported, steps, live, witnesses, lra, nra, trivial, bvq, reach, errors, deadline_hit, zero_div;
    std::atomic<long> solver_us;
    std::atomic<int> stop;
};
extern Shared* SH;
extern z3::context* Z;
extern double g_deadline;
extern std::string g_out;
extern int g_tier;
extern long g_maxpaths;
extern unsigned g_qtimeout;
double now();

// ---- solver layer (solver.cpp)
struct PC { z3::expr e; std::vector<unsigned> vars; bool nonlin; bool real, bv; std::shared_ptr<Cmp> cmp; };
extern std::vector<PC> pc;
z3::expr poly_expr(const Poly&);
z3::expr bool_expr(Sym*);
Sym* mk_real(const RF&);
V real_v(const RF&);
V bool_v(const z3::expr& e);
V cmp_v(const Poly&, Rel);
unsigned bv_bits(const z3::expr& e);   // smallest k such that the signed value is known to fit in k bits
V bv_v(const z3::expr& e);
bool decide(Sym* b);                        // decides/forks a boolean
bool decide_expr(const z3::expr& e, std::shared_ptr<Cmp> c = nullptr);
int sign_of(const Poly& p);                 // decides/forks: -1, 0(assumed not), 1
void assume_expr(const z3::expr& e, std::shared_ptr<Cmp> c = nullptr);
void assume_sym(Sym*);
void check_sym(Sym* b, const std::string& label);     // b must hold
void check_close(const RF& diff, double tol, const std::string& label);
void check_fail(const std::string& kind, const std::string& label);  // unconditional failure on this path
u64 concretize(const z3::expr& e, unsigned w);
double concretize_floor(const RF& r);
void end_path_witness();
void record(const std::string& json);
std::string jesc(const std::string&);
V new_real_input(const std::string& name, double lo, double hi);
V new_bv_input(const std::string& name, unsigned w, i64 lo, i64 hi, bool is_signed);
V new_bool_input(const std::string& name);
std::vector<double> input_vals_from(const std::map<std::string,double>&);
extern std::vector<std::string> g_funcs_hit;
pid_t do_fork();
void arm_alarm();
void wait_children();
