// Intrinsics of the symbolic engine (engine/) and of the native replay runtime (lib/vp_native.cpp).
#pragma once
#include <cstdint>
extern "C" {
double  vp_real(const char* name, double lo, double hi);      // any real in [lo,hi]
int64_t vp_int(const char* name, int64_t lo, int64_t hi);     // any 64-bit integer in [lo,hi]
int32_t vp_i32(const char* name, int64_t lo, int64_t hi);     // any 32-bit integer in [lo,hi]
bool    vp_bool(const char* name);
uint8_t vp_byte(const char* name);
int64_t vp_pick(const char* name, int64_t lo, int64_t hi);    // one path per value
void    vp_assume(bool);
void    vp_check(bool, const char* label);                    // must hold
void    vp_close(double a, double b, double tol, const char* label);   // |a-b| <= tol
void    vp_reach(const char* name);
int     vp_tier();
bool    vp_symbolic();
bool    vp_is_sym(double);
void    vp_bind_number(double magic, double value);           // strtod results equal to magic become value
void    vp_done();
void    vp_print(const char* label, double v);
}
#define VP_H(n) extern "C" __attribute__((noinline, used)) void vph_##n()
#define VP_T(n) extern "C" __attribute__((noinline, used)) void vpt_##n()
