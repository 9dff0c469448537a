//@bound symmetric positive definite matrices of size 1 (symbolic) and 2 to 4 (fixed, two of each), every right-hand side and initial guess with entries up to 2 along a line, tolerances between 1/1024 and 1/2, at most four iterations
//@assume the Lua state is replaced by a table of the values the user has set
#include <fstream>
#include <iostream>
#include "hho.hpp"
#include "diskpp/solvers/solver.hpp"
using namespace vp;
// numbers that refuse to be divided by zero (the shipped flags make no promise about what comes out)
struct N { T v; N() : v(0) {} N(T a) : v(a) {} N(int a) : v(a) {} N& operator+=(const N& o) { v += o.v; return *this; } N& operator-=(const N& o) { v -= o.v; return *this; } N& operator*=(const N& o) { v *= o.v; return *this; } N& operator/=(const N& o) { vp_check(o.v != 0, "no division by zero"); v /= o.v; return *this; } explicit operator double() const { return v; } };
static N operator+(N a, const N& b) { return a += b; } static N operator-(N a, const N& b) { return a -= b; } static N operator*(N a, const N& b) { return a *= b; } static N operator/(N a, const N& b) { return a /= b; } static N operator-(const N& a) { return N(-a.v); }
static bool operator<(const N& a, const N& b) { return a.v < b.v; } static bool operator>(const N& a, const N& b) { return a.v > b.v; } static bool operator<=(const N& a, const N& b) { return a.v <= b.v; } static bool operator>=(const N& a, const N& b) { return a.v >= b.v; } static bool operator==(const N& a, const N& b) { return a.v == b.v; } static bool operator!=(const N& a, const N& b) { return a.v != b.v; }
static N sqrt(const N& a) { return N(std::sqrt(a.v)); } static N abs(const N& a) { return N(std::fabs(a.v)); } static N abs2(const N& a) { return a*a; } static N conj(const N& a) { return a; } static N real(const N& a) { return a; } static N imag(const N&) { return N(0); } static std::ostream& operator<<(std::ostream& o, const N&) { return o; }
namespace Eigen { template<> struct NumTraits<N> : NumTraits<double> { typedef N Real; typedef N NonInteger; typedef N Nested; typedef N Literal; enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1, AddCost = 1, MulCost = 1 }; }; }
typedef Eigen::SparseMatrix<T> Sp;
static Sp sp(const Mat& a) { Sp s(a.rows(), a.cols()); std::vector<Eigen::Triplet<T>> t; for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) t.push_back({i,j,a(i,j)}); s.setFromTriplets(t.begin(), t.end()); return s; }
static Mat fixed_matrix(int n, int k) { Mat a = Mat::Zero(n,n); for (int i = 0; i < n; i++) { a(i,i) = 2 + i*(k ? 1 : 0.5); if (i) a(i,i-1) = a(i-1,i) = k ? -1 : 0.25; } return a; }
static Vec plane(const char* n, int sz) { T t = vp_real(n,-2,2); Vec v(sz); for (int i = 0; i < sz; i++) v(i) = i == 1 || sz == 1 ? t : i ? T(0.5) : T(1); return v; }
static T n2(const Vec& v) { T s = 0; for (int i = 0; i < v.size(); i++) s += v(i)*v(i); return s; }
typedef disk::solvers::conjugated_gradient_params<T> Par;
VP_H(P39_sizes) { int r = vp_pick("rows",1,3), c = vp_pick("columns",1,3), nb = vp_pick("rhs",1,3), nx = vp_pick("x",1,3); Mat a = Mat::Zero(r,c); for (int i = 0; i < std::min(r,c); i++) a(i,i) = 2; Vec b = plane("b",nb), x = plane("x",nx); Vec x0 = x; Par p; p.max_iter = 2; bool ok = disk::solvers::conjugated_gradient(p, sp(a), b, x); vp_check(ok == (r == c && nb == c && nx == c), "wrong sizes are refused"); if (!ok) for (int i = 0; i < nx; i++) vp_check(x(i) == x0(i), "refused systems leave the vector alone"); }
VP_H(P39_one) { Mat a(1,1); a(0,0) = vp_real("a",0.25,4); Vec b(1), x(1); b(0) = vp_real("b",-2,2); x(0) = vp_real("x",-2,2); Par p; p.max_iter = vp_pick("limit",0,2); p.use_initial_guess = vp_bool("guess"); bool ok = disk::solvers::conjugated_gradient(p, sp(a), b, x); vp_check(ok, "solved"); T d = a(0,0)*x(0)-b(0); vp_close(d, 0, 1e-7, "solution"); }
// exact after as many iterations as unknowns
VP_H(P39_exact) { int n = vp_pick("size",2,4); Mat a = fixed_matrix(n, vp_pick("matrix",0,1)); Vec b = plane("b",n), x = plane("x",n); Par p; p.rr_tol = 1e-9; p.rr_max = 1e9; p.max_iter = n; p.use_initial_guess = false; if (n == 3) b(2) = b(0); disk::solvers::conjugated_gradient(p, sp(a), b, x); Vec r = mul(a,x); for (int i = 0; i < n; i++) vp_close(r(i), b(i), 1e-6, "solution"); }
// when it stops before its limit the residual has been reduced as asked
VP_H(P39_tolerance) { int n = 2; Mat a = fixed_matrix(n, vp_pick("matrix",0,1)); Vec b = plane("b",n), x0 = Vec::Zero(n), x = x0; Par p; p.rr_tol = vp_real("tol",1./1024,0.5); p.rr_max = 1e6; p.max_iter = vp_pick("limit",1,2); if (vp_bool("guess")) { p.use_initial_guess = true; x0(0) = 0.5; x0(1) = -0.25; x = x0; } disk::solvers::conjugated_gradient(p, sp(a), b, x);
    Vec r0 = b - mul(a,x0), r = b - mul(a,x); T den = n2(r0); if (den == 0) { for (int i = 0; i < n; i++) vp_check(x(i) == x0(i), "a solved system stays solved"); return; } vp_assume(den > 0.01);
    if (p.max_iter == 1) { Vec ar = mul(a,r0); T ad = 0; for (int i = 0; i < n; i++) ad += r0(i)*ar(i); for (int i = 0; i < n; i++) { T d = (x(i)-x0(i))*ad - den*r0(i); vp_close(d, 0, 1e-7, "the first step minimizes the energy along the residual"); } return; }
    T lhs = n2(r), rhs = p.rr_tol*p.rr_tol*den; vp_check(lhs <= rhs + 1e-7, "stops with a small residual"); }
VP_H(P39_zero) { int n = vp_pick("size",1,3); Mat a = fixed_matrix(n, vp_pick("matrix",0,1)); Vec g = plane("g",n); bool guess = vp_bool("guess"); Vec b = Vec::Zero(n), x = g; if (guess) { b = mul(a,g); } Par p; p.use_initial_guess = guess; bool ok = disk::solvers::conjugated_gradient(p, sp(a), b, x); vp_check(ok, "solved"); for (int i = 0; i < n; i++) vp_close(x(i), guess ? g(i) : T(0), 1e-9, "the solution of a solved system"); }
VP_H(P39_division) { int n = vp_pick("size",1,2); Mat a = fixed_matrix(n, vp_pick("matrix",0,1)); Vec g = plane("g",n), b = Vec::Zero(n); bool guess = vp_bool("guess"), solved = vp_bool("solved"); if (guess == solved) b = mul(a,g); typedef Eigen::Matrix<N,-1,1> VN; VN bb(n), x(n); Eigen::SparseMatrix<N> A(n,n); for (int i = 0; i < n; i++) { bb(i) = N(b(i)); x(i) = N(g(i)); for (int j = 0; j < n; j++) if (a(i,j) != 0) A.insert(i,j) = N(a(i,j)); } disk::solvers::conjugated_gradient_params<N> p; p.use_initial_guess = guess; p.max_iter = n; p.rr_tol = N(0.25); bool ok = disk::solvers::conjugated_gradient(p, A, bb, x); vp_check(ok, "solved"); if (solved) for (int i = 0; i < n; i++) vp_close(x(i).v, guess ? g(i) : T(0), 1e-9, "the solution of a solved system"); vp_print("x", x(0).v); }
// what the user sets is used
VP_H(P39_user) { sol::state lua; disk::solvers::init_lua(lua); int n = 2; Mat a = fixed_matrix(n, 1); Vec b = plane("b",n); Vec x = plane("x",n), y = x; Par p; p.max_iter = 1000; p.rr_tol = 1e-8; p.rr_max = 20; int k = vp_pick("setting",0,3); if (k == 0) { lua["solver"]["cg"]["max_iter"] = 1; p.max_iter = 1; } if (k == 1) { T t = vp_real("tol",0.25,0.5); lua["solver"]["cg"]["rr_tol"] = t; p.rr_tol = t; } if (k == 2) { T t = vp_real("max",0.25,0.5); lua["solver"]["cg"]["rr_max"] = t; p.rr_max = t; } if (vp_bool("name")) lua["solver"]["solver_type"] = std::string("cg");
    Sp A = sp(a); Vec rb = b; bool ok = disk::solvers::linear_solver(lua, A, rb, x); bool ok2 = disk::solvers::conjugated_gradient(p, A, rb, y); vp_check(ok && ok2, "solved"); for (int i = 0; i < n; i++) vp_close(x(i), y(i), 1e-9, "the settings of the user are used"); if (k == 3) { Vec r = mul(a,x); for (int i = 0; i < n; i++) vp_close(r(i), b(i), 1e-5, "solution"); } }
VP_H(P39_unknown) { sol::state lua; Mat a = fixed_matrix(2,0); Sp A = sp(a); Vec b = plane("b",2), x = b; int k = vp_pick("type",0,2); lua["solver"]["solver_type"] = std::string(k == 0 ? "nothing" : k == 1 ? "pardiso" : "agmg"); bool t = false, ok = true; try { ok = disk::solvers::linear_solver(lua, A, b, x); } catch (std::runtime_error&) { t = true; } vp_check(k == 0 ? (!t && !ok) : t, "solvers that are not there are refused"); }
