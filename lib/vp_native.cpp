// Native runtime: runs a harness on one concrete input, read from the file in VP_VALUES (lines "name value").
#include "vp.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <fstream>
#include <exception>
#include <dlfcn.h>
static std::map<std::string,std::string> vals;
static std::map<std::string,int> cnt;
static int fails = 0; static long checks = 0;
static std::string get(const char* n, bool& ok) {
    int k = cnt[n]++; std::string s = n; if (k) s += "@" + std::to_string(k);
    auto it = vals.find(s); ok = it != vals.end(); return ok ? it->second : "";
}
[[noreturn]] static void fin(int rc) { fflush(stdout); fflush(stderr); _Exit(rc); }
extern "C" {
double vp_real(const char* n, double lo, double hi) {
    bool ok; std::string s = get(n, ok); double v = ok ? strtod(s.c_str(), 0) : (std::isfinite(lo) && std::isfinite(hi) ? lo + 0.41*(hi-lo) : 0.41);
    if (v < lo) v = lo; if (v > hi) v = hi; return v; }
int64_t vp_int(const char* n, int64_t lo, int64_t hi) { bool ok; std::string s = get(n, ok); int64_t v = ok ? strtoll(s.c_str(),0,10) : lo; if (v<lo) v=lo; if (v>hi) v=hi; return v; }
int32_t vp_i32(const char* n, int64_t lo, int64_t hi) { return (int32_t)vp_int(n, lo, hi); }
bool vp_bool(const char* n) { bool ok; std::string s = get(n, ok); return ok && atoi(s.c_str()); }
uint8_t vp_byte(const char* n) { bool ok; std::string s = get(n, ok); return ok ? (uint8_t)strtoull(s.c_str(),0,10) : 0; }
int64_t vp_pick(const char* n, int64_t lo, int64_t hi) { return vp_int(n, lo, hi); }
void vp_assume(bool b) { if (!b) { if (fails) { fin(1); } fprintf(stderr, "VP-ASSUME-FAILED\n"); fin(5); } }
void vp_check(bool b, const char* l) { checks++; if (!b) { fails++; fprintf(stderr, "VP-FAIL %s\n", l); } }
void vp_close(double a, double b, double tol, const char* l) { checks++; double d = a - b; if (!(fabs(d) <= tol)) { fails++; fprintf(stderr, "VP-FAIL %s : got %.17g expected %.17g (tolerance %g)\n", l, a, b, tol); } }
void vp_reach(const char*) {}
int vp_tier() { const char* t = getenv("VP_TIER"); return t ? atoi(t) : 0; }
bool vp_symbolic() { return false; }
bool vp_is_sym(double) { return false; }
static std::map<double,double> magic;
void vp_bind_number(double m, double v) { magic[m] = v; }
static double bound(double r) { auto it = magic.find(r); return it == magic.end() ? r : it->second; }
void vp_done() { fprintf(stderr, "VP-DONE checks=%ld fails=%d\n", checks, fails); fin(fails ? 1 : 0); }
void vp_print(const char* l, double v) { fprintf(stderr, "%s = %.17g\n", l, v); }
double __real_strtod(const char*, char**);
#ifdef VP_WRAP
double __wrap_strtod(const char* s, char** e) { return bound(__real_strtod(s, e)); }
std::istream& __real__ZNSi10_M_extractIdEERSiRT_(std::istream*, double*);
std::istream& __wrap__ZNSi10_M_extractIdEERSiRT_(std::istream* s, double* d) { std::istream& r = __real__ZNSi10_M_extractIdEERSiRT_(s, d); *d = bound(*d); return r; }
#endif
const char* __asan_default_options() { return "detect_leaks=0:exitcode=1:allocator_may_return_null=1"; }
}
int main(int argc, char** argv) {
    if (argc < 2) return 4;
    if (const char* f = getenv("VP_VALUES")) { std::ifstream i(f); std::string line; while (std::getline(i, line)) { size_t p = line.rfind(' '); if (p != std::string::npos) vals[line.substr(0,p)] = line.substr(p+1); } }
    void (*fn)() = (void(*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(stderr, "no such harness\n"); return 4; }
    try { fn(); }
    catch (const std::exception& e) { fprintf(stderr, "VP-FAIL uncaught exception: %s\n", e.what()); fin(1); }
    catch (...) { fprintf(stderr, "VP-FAIL uncaught exception\n"); fin(1); }
    fprintf(stderr, "VP-DONE checks=%ld fails=%d\n", checks, fails);
    fin(fails ? 1 : 0);
}
