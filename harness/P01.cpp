//@bound numerators in [-4,4] (thorough [-12,12]) symbolic 32-bit machine integers; denominators 1..3 (thorough 1..7) for binary operations, any of [-9,9] minus 0 symbolic for construction, order, simplification; gcd up to 24 (thorough 60); compound expressions of up to three operands
#include <cstdint>
#include <cstdlib>
#include "vp.hpp"
#include "diskpp/mesh/rational.hpp"
typedef disk::rational<int> R;
static int num(const char* n) { return vp_tier() ? vp_i32(n, -12, 12) : vp_i32(n, -4, 4); }
static int den(const char* n) { int d = vp_i32(n, -9, 9); vp_assume(d != 0); return d; }
static int posden(const char* n) { return (int)vp_pick(n, 1, vp_tier() ? 7 : 3); }
// value equality with p/q, q of either sign
static bool eqv(const R& r, int p, int q) { return r.num()*q == p*r.den(); }
VP_H(P01_ctor) { int a = num("a"), b = den("b"); R r(a,b); vp_check(r.den() > 0, "denominator positive"); vp_check(eqv(r,a,b), "value kept"); }
VP_H(P01_add) { int a = num("a"), b = posden("b"), c = num("c"), d = posden("d"); R r = R(a,b) + R(c,d);
  vp_check(r.den() > 0, "sum: denominator positive"); vp_check(eqv(r, a*d + b*c, b*d), "sum: value"); }
VP_H(P01_sub) { int a = num("a"), b = posden("b"), c = num("c"), d = posden("d"); R r = R(a,b) - R(c,d);
  vp_check(r.den() > 0, "difference: denominator positive"); vp_check(eqv(r, a*d - b*c, b*d), "difference: value"); }
VP_H(P01_mul) { int a = num("a"), b = posden("b"), c = num("c"), d = posden("d"); R r = R(a,b) * R(c,d);
  vp_check(eqv(r, a*c, b*d), "product: value"); vp_check(r.den() > 0, "product: denominator positive"); }
VP_H(P01_div) { int a = num("a"), b = posden("b"), c = num("c"), d = posden("d"); vp_assume(c != 0); R r = R(a,b) / R(c,d);
  vp_check(eqv(r, a*d, b*c), "quotient: value"); vp_check(r.den() > 0, "quotient: denominator positive"); }
VP_H(P01_muli) { int a = num("a"), b = posden("b"), c = num("c"); R r = R(a,b) * c; R q(a,b); q *= c;
  vp_check(eqv(r, a*c, b) && eqv(q, a*c, b), "integer product: value"); vp_check(r.den() > 0 && q.den() > 0, "integer product: denominator positive"); }
VP_H(P01_divi) { int a = num("a"), b = posden("b"), c = den("c"); R r = R(a,b) / c; R q(a,b); q /= c;
  vp_check(eqv(r, a, b*c) && eqv(q, a, b*c), "integer quotient: value"); vp_check(r.den() > 0 && q.den() > 0, "integer quotient: denominator positive"); }
VP_T(P01_diveq) { int a = num("a"), b = posden("b"), c = num("c"), d = posden("d"); vp_assume(c != 0); R r(a,b); r /= R(c,d);
  vp_check(eqv(r, a*d, b*c), "quotient assignment: value"); vp_check(r.den() > 0, "quotient assignment: denominator positive"); }
VP_H(P01_order) { int a = num("a"), b = den("b"), c = num("c"), d = den("d"); R x(a,b), y(c,d);
  int s = (b > 0 ? a : -a)*(d > 0 ? d : -d) - (d > 0 ? c : -c)*(b > 0 ? b : -b);
  vp_check((x < y) == (s < 0), "<"); vp_check((x <= y) == (s <= 0), "<="); vp_check((x > y) == (s > 0), ">"); vp_check((x >= y) == (s >= 0), ">="); }
VP_H(P01_sign_after_ops) { int a = vp_i32("a",-2,2), b = posden("b"), c = vp_i32("c",-2,2), d = posden("d"); R p = R(a,b)*R(c,d); R z(0);
  vp_check((p < z) == (a*c < 0), "sign of a product by comparison"); vp_check((p > z) == (a*c > 0), "sign of a product by comparison >");
  if (c != 0) { R q = R(a,b)/R(c,d); vp_check((q < z) == (a*c < 0), "sign of a quotient by comparison"); } }
VP_H(P01_abs_neg_inv) { int a = num("a"), b = posden("b"); R x(a,b); R m = abs(x); vp_check(m.num() >= 0 && m.den() > 0 && eqv(m, a < 0 ? -a : a, b), "abs");
  vp_check(eqv(-x, -a, b), "negation"); if (a != 0) { R i = inv(x); vp_check(i.den() > 0 && eqv(i, b, a), "inverse"); } }
VP_H(P01_simplify) { int a = num("a"), b = vp_tier() ? den("b") : vp_i32("b",-6,6); vp_assume(b != 0); R x(a,b); x.simplify(); vp_check(x.den() > 0 && eqv(x, a, b), "simplify keeps the value");
  int n = x.num() < 0 ? -x.num() : x.num(); for (int k = 2; k <= 9; k++) vp_check(!(n % k == 0 && x.den() % k == 0), "simplify: lowest terms"); }
VP_H(P01_gcd) { int a = vp_i32("a",0,vp_tier()?60:24), b = vp_i32("b",0,vp_tier()?60:24); vp_assume(a > 0 || b > 0); int g = disk::gcd(a,b); vp_check(g > 0 && a % g == 0 && b % g == 0, "gcd divides");
  int k = vp_i32("k",1,vp_tier()?60:24); if (a % k == 0 && b % k == 0) vp_check(g % k == 0, "gcd is greatest"); if (a > 0 && b > 0) vp_check(disk::lcm(a,b)*g == a*b, "lcm"); }
VP_H(P01_double) { int a = vp_pick("a",-4,4), b = vp_pick("b",1,4); vp_close(double(R(a,b)), double(a)/b, 1e-12, "conversion to double"); }
VP_T(P01_chain) { int a = vp_i32("a",-3,3), b = vp_pick("b",1,3), c = vp_i32("c",-3,3), d = vp_pick("d",1,3), e = vp_i32("e",-3,3), f = vp_pick("f",1,3);
  R r = R(a,b)*R(c,d) + R(e,f); vp_check(r.den() > 0 && eqv(r, a*c*f + e*b*d, b*d*f), "x*y+z"); R q = (R(a,b) + R(c,d))*R(e,f); vp_check(eqv(q, (a*d+c*b)*e, b*d*f), "(x+y)*z"); }
