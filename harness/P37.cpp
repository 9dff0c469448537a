//@bound up to three stages of one to three steps with symbolic times, a symbolic final time, four operations (next, split) in any order; operations with a relative rounding error up to 1e-12 for one stage of one to four steps; parameter files with every keyword and values of its kind
//@link mapped
#include <map>
#include "meshfile.hpp"
#include "diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp"
#include "diskpp/mechanics/NewtonSolver/TimeManager.hpp"
using namespace vp; using disk::mechanics::ListOfTimeStep; using disk::mechanics::TimeStep;
struct Step { T a, b; size_t l; };
template<typename L> static void same(L l, const std::vector<Step>& s, size_t done) { vp_check(l.empty() == s.empty() && l.numberOfRemainingTimeStep() == s.size() && l.numberOfTimeStepRealized() == done && l.numberOfTimeStep() == s.size() + done && l.indexOfCurrentTimeStep() == done + 1, "numbers of steps"); for (auto& e : s) { auto c = l.getCurrentTimeStep(); vp_close(c.start_time(), e.a, 1e-9, "start of a step"); vp_close(c.end_time(), e.b, 1e-9, "end of a step"); vp_close(c.increment_time(), e.b - e.a, 1e-9, "length of a step"); vp_check(c.level() == e.l, "level of a step"); l.removeCurrentTimeStep(); } vp_check(l.empty(), "no other steps"); }
static std::vector<std::pair<T,int>> stages(int n, std::vector<Step>& s) { std::vector<std::pair<T,int>> v; T t = 0; for (int i = 0; i < n; i++) { T d = vp_real("length",0.25,2); int k = vp_pick("steps",1,3); for (int j = 0; j < k; j++) s.push_back({t + d*j/k, t + d*(j+1)/k, 0}); t += d; v.push_back({t,k}); } return v; }
VP_H(P37_steps) { std::vector<Step> s; int n = vp_pick("stages",1,3); auto v = stages(n, s); if (n == 1 && vp_bool("short")) same(ListOfTimeStep<T>(v[0].first, v[0].second), s, 0); else same(ListOfTimeStep<T>(v), s, 0); }
VP_H(P37_final) { std::vector<Step> s, r; auto v = stages(vp_pick("stages",1,2), s); T f = vp_real("final",0.1,5); for (auto& e : s) { vp_assume(e.b < f - 1e-6 || e.b > f + 1e-6); if (e.b < f) r.push_back(e); } same(ListOfTimeStep<T>(v, f), r, 0); }
VP_H(P37_operations) { std::vector<Step> s; auto v = stages(1, s); ListOfTimeStep<T> l(v); size_t done = 0; for (int i = 0; i < 4 && !s.empty(); i++) { if (vp_bool("split")) { Step c = s[0]; T m = (c.a + c.b)/2; s[0] = {m, c.b, c.l+1}; s.insert(s.begin(), Step{c.a, m, c.l+1}); l.splitCurrentTimeStep(); } else { s.erase(s.begin()); l.removeCurrentTimeStep(); done++; } } same(l, s, done); }
VP_H(P37_empty) { ListOfTimeStep<T> l; same(l, {}, 0); TimeStep<T> t; vp_check(t.start_time() == 0 && t.end_time() == 0 && t.level() == 0, "empty step"); vp_print("x", vp_real("x",0,1)); }
// operations that are only right up to rounding
struct R { T v; R() : v(0) {} R(T a) : v(a) {} R(int a) : v(a) {} R(size_t a) : v(T(a)) {} };
static R rounded(T a) { T e = vp_real("rounding",-1e-12,1e-12); return R(a*(1+e)); }
static R operator+(const R& a, const R& b) { return rounded(a.v+b.v); } static R operator-(const R& a, const R& b) { return rounded(a.v-b.v); } static R operator*(const R& a, const R& b) { return rounded(a.v*b.v); } static R operator/(const R& a, const R& b) { return rounded(a.v/b.v); } static bool operator<=(const R& a, const R& b) { return a.v <= b.v; } static bool operator>=(const R& a, const R& b) { return a.v >= b.v; } static bool operator<(const R& a, const R& b) { return a.v < b.v; } static bool operator>(const R& a, const R& b) { return a.v > b.v; } static bool operator==(const R& a, const R& b) { return a.v == b.v; }
static std::ostream& operator<<(std::ostream& o, const R&) { return o; }
VP_H(P37_rounding) { int n = vp_pick("steps",1,4); T e = vp_real("end",0.25,4); R er(e); ListOfTimeStep<R> l(er, (size_t)n); vp_check(l.numberOfTimeStep() == size_t(n), "no step is lost to rounding"); T t = 0; while (!l.empty()) { auto c = l.getCurrentTimeStep(); vp_close(c.start_time().v, t, 1e-9, "steps follow each other"); t = c.end_time().v; l.removeCurrentTimeStep(); } vp_close(t, e, 1e-9, "the steps reach the end"); }
// needs VP_WRAP
typedef NewtonSolverParameter<T> Par;
VP_H(P37_parameters) { Par p; vp_check(p.getFaceDegree() == 1 && p.getCellDegree() == 1 && p.getGradDegree() == 1 && !p.getVerbose() && !p.getPrecomputation() && !p.isUnsteady(), "defaults"); int f = vp_int("f",0,5), c = vp_int("c",0,5), g = vp_int("g",0,5); T b = vp_real("b",0,4), e = vp_real("e",0,4); bool x = vp_bool("x"), y = vp_bool("y"), z = vp_bool("z"); p.setFaceDegree(f); p.setCellDegree(c); p.setGradDegree(g); p.setStabilizationParameter(b); p.setVerbose(x); p.setPrecomputation(y); p.isUnsteady(z); p.setTimeStep(e, 3); p.setUnsteadyParameters({{"beta", b}, {"gamma", e}});
    vp_check(p.getFaceDegree() == f && p.m_face_degree == f && p.getCellDegree() == c && p.m_cell_degree == c && p.getGradDegree() == g && p.m_grad_degree == g, "degrees"); vp_check(p.getVerbose() == x && p.m_verbose == x && p.getPrecomputation() == y && p.m_precomputation == y && p.isUnsteady() == z && p.m_dynamic == z, "switches"); vp_check(p.getStabilizationParameter() == b && p.m_beta == b, "stabilization"); auto d = p.getUnsteadyParameters(); vp_check(d["beta"] == b && d["gamma"] == e && d.size() == 2, "unsteady parameters"); vp_check(p.m_time_step.size() == 1 && p.m_time_step[0].first == e && p.m_time_step[0].second == 3, "time steps"); }
// files: one keyword changes its parameter and nothing else
static bool same(const Par& a, const Par& b) { bool r = a.m_face_degree == b.m_face_degree && a.m_cell_degree == b.m_cell_degree && a.m_grad_degree == b.m_grad_degree && a.m_has_user_end_time == b.m_has_user_end_time && a.m_user_end_time == b.m_user_end_time && a.m_sublevel == b.m_sublevel && a.m_iter_max == b.m_iter_max && a.m_epsilon == b.m_epsilon && a.m_verbose == b.m_verbose && a.m_precomputation == b.m_precomputation && a.m_stab_type == b.m_stab_type && a.m_beta == b.m_beta && a.m_stab == b.m_stab && a.m_adapt_stab == b.m_adapt_stab && a.m_dynamic == b.m_dynamic && a.m_n_time_save == b.m_n_time_save && a.m_theta == b.m_theta && a.m_gamma_0 == b.m_gamma_0 && a.m_threshold == b.m_threshold && a.m_frot_type == b.m_frot_type;
    r = r && a.m_time_step.size() == b.m_time_step.size() && a.m_time_save.size() == b.m_time_save.size(); if (!r) return false; for (size_t i = 0; i < a.m_time_step.size(); i++) r = r && a.m_time_step[i].first == b.m_time_step[i].first && a.m_time_step[i].second == b.m_time_step[i].second; auto i = a.m_time_save.begin(); for (auto& x : b.m_time_save) r = r && *i++ == x; return r; }
static std::string number(std::string s, T& v) { Num n = sym("value",0,2); v = n.v; return s + " " + n.t + "\n"; }
static const char* TF[3] = {"true","True","false"};
static void keyword(int k, Par& e, std::string& s) { switch (k) {
    case 0: s += "FaceDegree 2\n"; e.m_face_degree = 2; break; case 1: s += "CellDegree 3\n"; e.m_cell_degree = 3; break; case 2: s += "GradDegree 4\n"; e.m_grad_degree = 4; break; case 3: s += "Sublevel 7\n"; e.m_sublevel = 7; break;
    case 4: { Num a = sym("time",0,2), b = sym("time",0,2); s += "TimeStep 2\n" + a.t + " 5\n" + b.t + " 6\n"; e.m_time_step = {{a.v,5},{b.v,6}}; break; }
    case 5: s += number("FinalTime", e.m_user_end_time); e.m_has_user_end_time = true; break; case 6: { Num a = sym("time",0,2), b = sym("time",0,2); s += "TimeSave 2\n" + a.t + "\n" + b.t + "\n"; e.m_n_time_save = 2; e.m_time_save = {a.v,b.v}; break; }
    case 7: { int t = vp_pick("tf",0,2); s += "Stabilization " + std::string(TF[t]) + "\n"; e.m_stab = t < 2; if (t == 2) e.m_stab_type = NO; break; } case 8: { int t = vp_pick("tf",0,2); s += "AdaptativeStabilization " + std::string(TF[t]) + "\n"; e.m_adapt_stab = t < 2; break; }
    case 9: { int t = vp_pick("type",0,3); static const char* N[4] = {"HDG","HHO","NO","DG"}; static const int V[4] = {HDG,HHO,NO,DG}; s += "StabType " + std::string(N[t]) + "\n"; e.m_stab_type = V[t]; break; } case 10: s += number("Beta", e.m_beta); break; case 11: { int t = vp_pick("tf",0,2); s += "Verbose " + std::string(TF[t]) + "\n"; e.m_verbose = t < 2; break; }
    case 12: s += "IterMax 9\n"; e.m_iter_max = 9; break; case 13: s += number("Epsilon", e.m_epsilon); break; case 14: { int t = vp_pick("tf",0,2); s += "Precomputation " + std::string(TF[t]) + "\n"; e.m_precomputation = t < 2; break; } case 15: s += number("Theta", e.m_theta); break; case 16: s += number("Gamma0", e.m_gamma_0); break;
    case 17: { int t = vp_pick("type",0,2); static const char* N[3] = {"NO","TRESCA","COULOMB"}; static const int V[3] = {NO_FRICTION,TRESCA,COULOMB}; s += "Friction " + std::string(N[t]) + "\n"; e.m_frot_type = V[t]; break; } case 18: s += number("Threshold", e.m_threshold); break; case 19: { int t = vp_pick("tf",0,2); s += "Dynamic " + std::string(TF[t]) + "\n"; e.m_dynamic = t < 2; break; } default: break; } }
VP_H(P37_file) { Par p, e; int k = vp_pick("keyword",0,20), l = vp_pick("then",-1,1); std::string s = "BeginParameters\n"; keyword(k, e, s); if (l >= 0) keyword((k + 3 + 7*l)%20, e, s); s += "EndParameters\n"; bool ok = p.readParameters(file(s)); vp_check(ok, "files are read"); vp_check(same(p, e), "the parameters of the file"); vp_print("x", vp_real("x",0,1)); }
VP_H(P37_bad_file) { Par p; int k = vp_pick("bad",0,4); std::string s; if (k == 1) s = "Parameters\nEndParameters\n"; else if (k >= 2) s = "BeginParameters\n"; if (k == 2) s += "Nothing 2\nEndParameters\n"; if (k == 3) s += "FaceDegree 2\n"; vp_check(!p.readParameters(file(s)), "bad files are refused"); vp_check(!p.readParameters("/nonexistent/file"), "missing files are refused"); vp_print("x", vp_real("x",0,1)); }
