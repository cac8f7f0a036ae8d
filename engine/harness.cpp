// Scenario driver.  Reads lines "tag scenario space v1 v2 ..." (hex/decimal doubles) and runs each
// scenario on the real library through its public API with symbolic inputs (concolic build) or plain
// numbers (replay build).
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "symrt.h"
#include "steering_functions/dubins_state_space/dubins_state_space.hpp"
#include "steering_functions/filter/ekf.hpp"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc0pm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpm0_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpmpm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc0pm_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpm0_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.hpp"
#include "steering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp"
#include "steering_functions/steering_functions.hpp"
#include "steering_functions/utilities/utilities.hpp"
extern "C" void sym_fresnel_mode(int);
extern "C" void sym_class_by_pc(int);
extern "C" void sym_max_dump(int);
extern "C" void sym_report(void);
extern "C" long sym_live(void);
using namespace steering;
using std::string; using std::vector;

struct ISpace {
  virtual ~ISpace() {}
  virtual double dist(const State &, const State &) const = 0;
  virtual vector<Control> ctl(const State &, const State &) const = 0;
  virtual vector<State> path(const State &, const State &) const = 0;
  virtual vector<State_With_Covariance> pathcov(const State_With_Covariance &, const State &) const = 0;
  virtual vector<State> integ(const State &, const vector<Control> &) const = 0;
  virtual vector<State_With_Covariance> integcov(const State_With_Covariance &, const vector<Control> &) const = 0;
  virtual State interp(const State &, const vector<Control> &, double) const = 0;
  virtual void filt(const Motion_Noise &, const Measurement_Noise &, const Controller &) = 0;
};
template <class T> struct Sp : ISpace {
  T s; template <class... A> Sp(A... a) : s(a...) {}
  double dist(const State &a, const State &b) const { return s.get_distance(a, b); }
  vector<Control> ctl(const State &a, const State &b) const { return s.get_controls(a, b); }
  vector<State> path(const State &a, const State &b) const { return s.get_path(a, b); }
  vector<State_With_Covariance> pathcov(const State_With_Covariance &a, const State &b) const { return s.get_path_with_covariance(a, b); }
  vector<State> integ(const State &a, const vector<Control> &c) const { return s.integrate(a, c); }
  vector<State_With_Covariance> integcov(const State_With_Covariance &a, const vector<Control> &c) const { return s.integrate_with_covariance(a, c); }
  State interp(const State &a, const vector<Control> &c, double t) const { return s.interpolate(a, c, t); }
  void filt(const Motion_Noise &m, const Measurement_Noise &n, const Controller &c) { s.set_filter_parameters(m, n, c); }
};
static ISpace *make(const string &n, double k, double s, double d) {
  bool b = n.size() > 2 && n.substr(n.size() - 2) == "_b";
  string m = b ? n.substr(0, n.size() - 2) : n; bool f = !b;
  if (m == "dubins") return new Sp<Dubins_State_Space>(k, d, f);
  if (m == "rs") return new Sp<Reeds_Shepp_State_Space>(k, d);
  if (m == "cc") return new Sp<CC_Dubins_State_Space>(k, s, d, f);
  if (m == "cc00") return new Sp<CC00_Dubins_State_Space>(k, s, d, f);
  if (m == "cc0pm") return new Sp<CC0pm_Dubins_State_Space>(k, s, d, f);
  if (m == "ccpm0") return new Sp<CCpm0_Dubins_State_Space>(k, s, d, f);
  if (m == "ccpmpm") return new Sp<CCpmpm_Dubins_State_Space>(k, s, d, f);
  if (m == "cc00rs") return new Sp<CC00_Reeds_Shepp_State_Space>(k, s, d);
  if (m == "hc") return new Sp<HC_Reeds_Shepp_State_Space>(k, s, d);
  if (m == "hc00") return new Sp<HC00_Reeds_Shepp_State_Space>(k, s, d);
  if (m == "hc0pm") return new Sp<HC0pm_Reeds_Shepp_State_Space>(k, s, d);
  if (m == "hcpm0") return new Sp<HCpm0_Reeds_Shepp_State_Space>(k, s, d);
  if (m == "hcpmpm") return new Sp<HCpmpm_Reeds_Shepp_State_Space>(k, s, d);
  return nullptr;
}
struct In {
  vector<double> v; size_t i = 0;
  double raw() { return i < v.size() ? v[i++] : 0.0; }
  double sym(const char *n) { return sym_input(n, raw()); }
  // an exact zero stays the constant zero (straight lines, arcs, empty controls)
  double zsym(const char *n) { double x = raw(); return x == 0.0 ? 0.0 : sym_input(n, x); }
};
static State rdstate(In &in, const char *p) {
  State s; string q(p);
  s.x = in.sym(("x" + q).c_str()); s.y = in.sym(("y" + q).c_str()); s.theta = in.sym(("th" + q).c_str());
  s.kappa = in.sym(("ka" + q).c_str()); s.d = in.sym(("d" + q).c_str()); return s;
}
static State rdstatez(In &in, const char *p) {  // zero curvature stays the constant zero
  State s; string q(p);
  s.x = in.sym(("x" + q).c_str()); s.y = in.sym(("y" + q).c_str()); s.theta = in.sym(("th" + q).c_str());
  s.kappa = in.zsym(("ka" + q).c_str()); s.d = in.sym(("d" + q).c_str()); return s;
}
static void out(const string &n, double v) { sym_output(n.c_str(), v); }
static void outctl(const char *pre, const vector<Control> &c) {
  string p(pre); sym_output_int((p + "n").c_str(), (long)c.size());
  for (size_t i = 0; i < c.size(); i++) { string k = p + std::to_string(i); out(k + ".ds", c[i].delta_s); out(k + ".k", c[i].kappa); out(k + ".s", c[i].sigma); }
}
static void outstate(const string &p, const State &s) { out(p + ".x", s.x); out(p + ".y", s.y); out(p + ".th", s.theta); out(p + ".k", s.kappa); out(p + ".d", s.d); }
static void outcov(const string &p, const State_With_Covariance &s) {
  outstate(p, s.state);
  for (int i = 0; i < 11; i++) if (i % 4 < 3) out(p + ".S" + std::to_string(i), s.Sigma[i]);
  for (int i = 0; i < 11; i++) if (i % 4 < 3) out(p + ".L" + std::to_string(i), s.Lambda[i]);
  for (int i = 0; i < 11; i++) if (i % 4 < 3) out(p + ".C" + std::to_string(i), s.covariance[i]);
}
static vector<Control> rdctl(In &in, int n) {
  vector<Control> c;
  for (int i = 0; i < n; i++) { Control u; string k = std::to_string(i); u.delta_s = in.zsym(("ds" + k).c_str()); u.kappa = in.zsym(("ck" + k).c_str()); u.sigma = in.zsym(("cs" + k).c_str()); c.push_back(u); }
  return c;
}
static void rdcov(In &in, State_With_Covariance &s, bool full) {
  // symmetric 3x3 blocks, row major 4x4 storage (entries 3,7,11,12..15 unused)
  double a[6], b[6];
  for (int i = 0; i < 6; i++) a[i] = in.sym(("S" + std::to_string(i)).c_str());
  for (int i = 0; i < 6; i++) b[i] = in.sym(("L" + std::to_string(i)).c_str());
  int ix[3][3] = {{0, 1, 2}, {1, 3, 4}, {2, 4, 5}};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { s.Sigma[4 * i + j] = a[ix[i][j]]; s.Lambda[4 * i + j] = b[ix[i][j]]; s.covariance[4 * i + j] = a[ix[i][j]] + b[ix[i][j]]; }
}
static void rdfilter(In &in, Motion_Noise &m, Measurement_Noise &z, Controller &c) {
  m.alpha1 = in.sym("al1"); m.alpha2 = in.sym("al2"); m.alpha3 = in.sym("al3"); m.alpha4 = in.sym("al4");
  z.std_x = in.sym("sx"); z.std_y = in.sym("sy"); z.std_theta = in.sym("st");
  c.k1 = in.sym("k1"); c.k2 = in.sym("k2"); c.k3 = in.sym("k3");
}


// ---- reference words, written from the geometry / the Reeds-Shepp paper, in normalised coordinates (curvature limit 1)
namespace ref {
static const double P = 3.14159265358979323846;
static double w2(double a) { return a - 2 * P * floor(a / (2 * P)); }
static double wp(double a) { double v = fmod(a, 2 * P); if (v < -P) v += 2 * P; else if (v > P) v -= 2 * P; return v; }
struct W { double t, p, q; bool ok; };
static W csc(double vx, double vy, int s1, int s2, double h1, double h2) {  // tangent segment between the two turning circles
  double D2 = vx * vx + vy * vy, D = sqrt(D2), p, h = atan2(vy, vx);
  if (s1 == s2) p = D; else { if (D2 < 4) return {0, 0, 0, false}; p = sqrt(D2 - 4); h = s1 > 0 ? h + atan2(2.0, p) : h - atan2(2.0, p); }
  return {w2(s1 > 0 ? h - h1 : h1 - h), p, w2(s2 > 0 ? h2 - h : h - h2), true};
}
static W ccc(double vx, double vy, int s, double h1, double h2) {
  double D2 = vx * vx + vy * vy; if (D2 > 16) return {0, 0, 0, false};
  double m = 2 * P - acos(1 - D2 / 8), h = atan2(vy, vx);
  double t = w2(s > 0 ? h - h1 + m / 2 : h1 - h + m / 2);
  return {t, m, w2(s > 0 ? h2 - h1 - t + m : h1 - h2 - t + m), true};
}
static vector<W> dubins(double x, double y, double h1, double h2) {  // goal offset (x, y)
  double a = cos(h1), b = sin(h1), c = cos(h2), d = sin(h2);
  // centre of the left circle: (-sin, cos); of the right circle: (sin, -cos)
  return {csc(x - d + b, y + c - a, 1, 1, h1, h2), csc(x + d - b, y - c + a, -1, -1, h1, h2), csc(x - d - b, y + c + a, -1, 1, h1, h2),
          csc(x + d + b, y - c - a, 1, -1, h1, h2), ccc(x + d - b, y - c + a, -1, h1, h2), ccc(x - d + b, y + c - a, 1, h1, h2)};
}
static const double Z = -1e-9;
static void to(double u, double v, double xi, double eta, double phi, double &tau, double &om) {
  double de = wp(u - v), A = sin(u) - sin(de), B = cos(u) - cos(de) - 1, t1 = atan2(eta * A - xi * B, xi * A + eta * B), t2 = 2 * (cos(de) - cos(v) - cos(u)) + 3;
  tau = t2 < 0 ? wp(t1 + P) : wp(t1); om = wp(tau - u + v - phi);
}
static void add(vector<double> &o, double l) { o.push_back(l); }
// lengths of the words of one orientation; bw: also used for the reversed words
static void fam(vector<double> &o, double x, double y, double f, bool bw) {
  double s = sin(f), c = cos(f), xm = x - s, ym = y - 1 + c, xp = x + s, yp = y - 1 - c;
  if (!bw) {
    { double u = sqrt(xm * xm + ym * ym), t = atan2(ym, xm); if (t >= Z) { double v = wp(f - t); if (v >= Z) add(o, t + u + v); } }
    { double q = xp * xp + yp * yp; if (q >= 4) { double u = sqrt(q - 4), t = wp(atan2(yp, xp) + atan2(2.0, u)), v = wp(t - f); if (t >= Z && v >= Z) add(o, t + u + v); } }
    { double r = .25 * (2 + sqrt(xp * xp + yp * yp)); if (r <= 1) { double u = acos(r), t, v; to(u, -u, xp, yp, f, t, v); if (t >= Z && v <= -Z) add(o, t + 2 * u - v); } }
    { double r = (20 - xp * xp - yp * yp) / 16; if (r >= 0 && r <= 1) { double u = -acos(r), t, v; if (u >= -.5 * P) { to(u, u, xp, yp, f, t, v); if (t >= Z && v >= Z) add(o, t - 2 * u + v); } } }
    { double q = xp * xp + yp * yp; if (q >= 4) { double u = 4 - sqrt(q - 4); if (u <= -Z) { double t = wp(atan2((4 - u) * xp - 2 * yp, -2 * xp + (u - 4) * yp)), v = wp(t - f); if (t >= Z && v >= Z) add(o, t - u + v + P); } } }
  }
  { double q = xm * xm + ym * ym, r = sqrt(q); if (r <= 4) { double u = -2 * asin(r / 4), t = wp(atan2(ym, xm) + u / 2 + P), v = wp(f - t + u); if (t >= Z) add(o, t - u + fabs(v)); } }
  { double q = xm * xm + ym * ym; if (q >= 4) { double r = sqrt(q - 4), u = 2 - r, t = wp(atan2(ym, xm) + atan2(r, -2.0)), v = wp(f - .5 * P - t); if (t >= Z && u <= -Z && v <= -Z) add(o, t - u - v + .5 * P); } }
  { double q = xp * xp + yp * yp; if (q >= 4) { double r = sqrt(q), t = atan2(xp, -yp), u = 2 - r, v = wp(t + .5 * P - f); if (t >= Z && u <= -Z && v <= -Z) add(o, t - u - v + .5 * P); } }
}
static vector<double> rs(double x, double y, double f) {
  vector<double> o; double c = cos(f), s = sin(f), xb = x * c + y * s, yb = x * s - y * c;
  for (int i = 0; i < 4; i++) {
    double sx = i & 1 ? -1 : 1, sy = i & 2 ? -1 : 1;
    fam(o, sx * x, sy * y, sx * sy * f, false); fam(o, sx * xb, sy * yb, sx * sy * f, true);
  }
  return o;
}
}  // namespace ref

// another object with other parameters answers first: state shared between objects shows up in the scenario that follows
static void warm(const string &sp) {
  std::unique_ptr<ISpace> S(make(sp, 0.37, 0.23, 3.0)); if (!S) return;
  State a, b; a.x = 0.3; a.y = -0.7; a.theta = 0.4; a.kappa = 0.0; a.d = 0.0; b.x = 9.1; b.y = 4.2; b.theta = -2.1; b.kappa = 0.0; b.d = 0.0;
  vector<Control> c = S->ctl(a, b); S->dist(a, b); if (!c.empty()) { S->integ(a, c); S->interp(a, c, 0.4); }
}
static bool run(const string &sc, const string &sp, In &in) {
  if (sc == "ctl" || sc == "ctlk") {
    // ctl: curvature bound and sharpness symbolic as well
    double k = in.sym("K"), s = in.sym("G"); double d = 0.1;
    State a = rdstate(in, "1"), b = rdstate(in, "2");
    std::unique_ptr<ISpace> S(make(sp, k, s, d));
    outctl("c", S->ctl(a, b)); return true;
  }
  if (sc == "dist") {  // controls and distance of the same query
    double k = in.sym("K"), s = in.sym("G"); double d = 0.1;
    State a = rdstate(in, "1"), b = rdstate(in, "2");
    std::unique_ptr<ISpace> S(make(sp, k, s, d));
    outctl("c", S->ctl(a, b)); out("dist", S->dist(a, b)); return true;
  }
  if (sc == "symm") {  // distance in both directions
    double k = in.sym("K"), s = in.sym("G"); double d = 0.1;
    State a = rdstate(in, "1"), b = rdstate(in, "2");
    std::unique_ptr<ISpace> S(make(sp, k, s, d));
    out("dab", S->dist(a, b)); out("dba", S->dist(b, a)); return true;
  }
  if (sc == "revdir") {  // forward query a->b against backward query b->a
    double k = in.sym("K"), s = in.sym("G"); double d = 0.1;
    State a = rdstate(in, "1"), b = rdstate(in, "2");
    std::unique_ptr<ISpace> S(make(sp, k, s, d)), T(make(sp + "_b", k, s, d));
    out("dab", S->dist(a, b)); out("dba", T->dist(b, a)); return true;
  }
  if (sc == "inv") {  // common rigid motion, whole turns added to the headings
    double k = in.sym("K"), s = in.sym("G"); double d = 0.1;
    State a = rdstate(in, "1"), b = rdstate(in, "2"); double tx = in.zsym("tx"), ty = in.zsym("ty"), ph = in.zsym("ph"), n1 = in.raw(), n2 = in.raw();
    State p = a, q = b; double c = cos(ph), sn = sin(ph);
    p.x = c * a.x - sn * a.y + tx; p.y = sn * a.x + c * a.y + ty; p.theta = a.theta + ph + n1 * (2 * ref::P);
    q.x = c * b.x - sn * b.y + tx; q.y = sn * b.x + c * b.y + ty; q.theta = b.theta + ph + n2 * (2 * ref::P);
    if (ph == 0.0) { p.x = a.x + tx; p.y = a.y + ty; q.x = b.x + tx; q.y = b.y + ty; }
    std::unique_ptr<ISpace> S(make(sp, k, s, d));
    out("d0", S->dist(a, b)); out("d1", S->dist(p, q)); return true;
  }
  if (sc == "scale") {  // lengths scaled by lam; mirrored about the x axis
    double k = in.sym("K"), s = in.sym("G"); double d = 0.1;
    State a = rdstate(in, "1"), b = rdstate(in, "2"); double lam = in.raw(); int mir = (int)in.raw();
    if (lam != 1.0) lam = sym_input("lam", lam);
    double m = mir ? -1.0 : 1.0; State p = a, q = b;
    p.x = lam * a.x; p.y = m * lam * a.y; p.theta = m * a.theta; p.kappa = m * a.kappa / lam;
    q.x = lam * b.x; q.y = m * lam * b.y; q.theta = m * b.theta; q.kappa = m * b.kappa / lam;
    std::unique_ptr<ISpace> S(make(sp, k, s, d)), T(make(sp, k / lam, s / (lam * lam), d));
    out("d0", lam * S->dist(a, b)); out("d1", T->dist(p, q)); return true;
  }
  if (sc == "words") {  // distance against every word of the family
    double k = in.sym("K"); in.raw(); State a = rdstate(in, "1"), b = rdstate(in, "2");
    std::unique_ptr<ISpace> S(make(sp, k, 1.0, 0.1));
    out("dist", S->dist(a, b));
    if (sp == "rs") {
      double c = cos(a.theta), s = sin(a.theta), dx = b.x - a.x, dy = b.y - a.y;
      vector<double> w = ref::rs((c * dx + s * dy) * k, (-s * dx + c * dy) * k, b.theta - a.theta);
      sym_output_int("wn", w.size()); for (size_t i = 0; i < w.size(); i++) out("w" + std::to_string(i), w[i] / k);
      std::unique_ptr<ISpace> F(make("dubins", k, 1.0, 0.1)), B(make("dubins_b", k, 1.0, 0.1));
      out("df", F->dist(a, b)); out("db", B->dist(a, b));
    } else {
      if (sp == "dubins_b") std::swap(a, b);
      vector<ref::W> w = ref::dubins((b.x - a.x) * k, (b.y - a.y) * k, a.theta, b.theta);
      sym_output_int("wn", 6);
      for (int i = 0; i < 6; i++) { string n = std::to_string(i); sym_output_int(("ok" + n).c_str(), w[i].ok); out("t" + n, w[i].t / k); out("p" + n, w[i].p / k); out("q" + n, w[i].q / k); }
    }
    return true;
  }
#ifndef NO_UTIL
  if (sc == "nest") {  // a space that permits more motions against the spaces whose motions it includes
    double k = in.sym("K"), s = in.sym("G"); double d = 0.1;
    State a = rdstatez(in, "1"), b = rdstatez(in, "2");
    int e1 = (int)in.raw(), e2 = (int)in.raw();  // 1: zero, 2: maximum curvature
    if (e1 == 2) a.kappa = a.kappa < 0 ? -k : k;
    if (e2 == 2) b.kappa = b.kappa < 0 ? -k : k;
    string m = sp == "rs" ? "dubins" : sp == "cc00rs" ? "cc00" : "cc" + sp.substr(2);
    std::unique_ptr<ISpace> S(make(sp, k, s, d)), F(make(m, k, s, d)), B(make(m + "_b", k, s, d));
    for (int i = 0; i < 2; i++) { string n = std::to_string(i); out("v" + n, (i ? B : F)->dist(a, b)); out("a" + n, 0.0); out("b" + n, 0.0); out("e" + n, 1.0); }
    sym_output_int("wn", 2); out("dist", S->dist(a, b)); return true;
  }
#ifndef NO_UTIL
  if (sc == "word") {  // a goal reached by an explicit word: the answer must not be longer
    double k = in.sym("K"), s = in.sym("G"); State a; a.x = in.sym("x1"); a.y = in.sym("y1"); a.theta = in.sym("th1"); a.d = 0; a.kappa = 0;
    double x = a.x, y = a.y, th = a.theta, len = 0.0, p = 0.0, kn = 0.0; int n = (int)in.raw();
    for (int i = 0; i < n; i++) {
      int t = (int)in.raw(), sd = (int)in.raw(), d = (int)in.raw(); double pr = in.raw();  // 0 straight, 1 turn, 2 turn up to, 3 turn from maximum curvature, 4 arc
      // + 10: the parameter of the segment before; + 20: a quarter turn up to the line of the centres; + 30: with the segment before once around
      if (t < 10) p = sym_input(("p" + std::to_string(i)).c_str(), pr);
      else if (t >= 20) {
        double cx, cy, ct, ck, mu; end_of_clothoid(0.0, 0.0, 0.0, 0.0, s, 1.0, k / s, &cx, &cy, &ct, &ck);
        mu = atan(fabs((cx - sin(ct) / k) / (cy + cos(ct) / k)));
        if (t >= 30) p = 2 * ref::P - 2 * k * k / s - 4 * mu - p; else if (t % 10 == 1) p = ref::P / 2 - k * k / s; else p = ref::P / 2 - k * k / (2 * s);
      }
      t %= 10; double l = 0.0;
      if (!i && (t == 3 || t == 4)) a.kappa = sd > 0 ? k : -k;
      if (t == 0) { end_of_straight_line(x, y, th, d, p, &x, &y); len += p; kn = 0.0; continue; }
      if (t == 1 || t == 2) { l = k / s; end_of_clothoid(x, y, th, 0.0, sd * s, d, l, &x, &y, &th, &kn); len += l; }
      kn = sd > 0 ? k : -k; l = p / k; end_of_circular_arc(x, y, th, kn, d, l, &x, &y, &th); len += l;
      if (t == 1 || t == 3) { l = k / s; end_of_clothoid(x, y, th, kn, -sd * s, d, l, &x, &y, &th, &kn); len += l; kn = 0.0; }
    }
    State b; b.x = x; b.y = y; b.theta = th; b.kappa = kn; b.d = 0;
    std::unique_ptr<ISpace> S(make(sp, k, s, 0.1)); out("len", len); outstate("b", b); out("dist", S->dist(a, b)); return true;
  }
#endif
  if (sc == "vari") {  // steering variants against each other
    double k = in.sym("K"), s = in.sym("G"); double d = 0.1;
    State a = rdstatez(in, "1"), b = rdstatez(in, "2");
    bool back = sp.size() > 2 && sp.substr(sp.size() - 2) == "_b"; string m = back ? sp.substr(0, sp.size() - 2) : sp, sf = back ? "_b" : "";
    std::unique_ptr<ISpace> S(make(sp, k, s, d)); int w = 0;
    if (m == "cc" || m == "hc") {  // free curvature: clothoid to zero or maximum curvature, then the fixed variants
      struct C { State q; double l; bool z; };
      auto pred = [&](const State &q, bool fwd, int e) {
        vector<C> r;
        if (e == 1) { r.push_back({q, 0.0, true}); return r; }
        if (e == 2) { r.push_back({q, 0.0, false}); return r; }
        double sg = q.kappa < 0 ? -1.0 : 1.0;
        for (int i = 0; i < 4; i++) {
          double dir = i & 1 ? -1.0 : 1.0; bool toz = i & 2;
          if (m == "cc" && (dir > 0) != fwd) continue;
          double l = toz ? sg * q.kappa / s : (k - sg * q.kappa) / s; if (dir < 0) l = m == "hc" ? fabs(-l) : fabs(toz ? -sg * q.kappa / s : -(k - sg * q.kappa) / s); State p = q;
          end_of_clothoid(q.x, q.y, q.theta, q.kappa, toz ? -sg * s : sg * s, dir, l, &p.x, &p.y, &p.theta, &p.kappa);
          p.kappa = toz ? 0.0 : sg * k; r.push_back({p, l, toz});
        }
        return r;
      };
      int e1 = (int)in.raw(), e2 = (int)in.raw();  // 1: zero, 2: maximum curvature
      if (e1 == 2) a.kappa = a.kappa < 0 ? -k : k;
      if (e2 == 2) b.kappa = b.kappa < 0 ? -k : k;
      vector<C> A = pred(a, !back, e1), B = pred(b, back, e2);
      std::unique_ptr<ISpace> V[4] = {std::unique_ptr<ISpace>(make(m + "00" + sf, k, s, d)), std::unique_ptr<ISpace>(make(m + "0pm" + sf, k, s, d)),
                                      std::unique_ptr<ISpace>(make(m + "pm0" + sf, k, s, d)), std::unique_ptr<ISpace>(make(m + "pmpm" + sf, k, s, d))};
      for (auto &x : A) for (auto &y : B) {
        string n = std::to_string(w++); out("v" + n, V[(x.z ? 0 : 2) + (y.z ? 0 : 1)]->dist(x.q, y.q)); out("a" + n, x.l); out("b" + n, y.l);
        out("e" + n, fabs(x.q.x - y.q.x) + fabs(x.q.y - y.q.y));
      }
    } else {  // sign of the maximum curvature left open
      bool f1 = m.substr(2, 2) == "pm", f2 = m.size() >= 4 && m.substr(m.size() - 2) == "pm";
      a.kappa = 0.0; b.kappa = 0.0;
      for (int i = 0; i < (f1 ? 2 : 1); i++) for (int j = 0; j < (f2 ? 2 : 1); j++) {
        State p = a, q = b; if (f1) p.kappa = i ? -k : k; if (f2) q.kappa = j ? -k : k;
        string n = std::to_string(w++); out("v" + n, S->dist(p, q)); out("a" + n, 0.0); out("b" + n, 0.0); out("e" + n, 1.0);
      }
    }
    sym_output_int("wn", w); out("dist", S->dist(a, b)); return true;
  }
#endif
  if (sc == "mem") {  // every kind of call; the blocks left behind by them are counted
    double k = in.sym("K"), s = in.sym("G"), D = in.raw(), t = in.raw(); State a = rdstate(in, "1"), b = rdstate(in, "2");
    State_With_Covariance ac; ac.state = a; for (int i = 0; i < 16; i++) { ac.Sigma[i] = ac.Lambda[i] = ac.covariance[i] = i % 5 ? 0.0 : 0.1; }
    Motion_Noise m; m.alpha1 = m.alpha2 = m.alpha3 = m.alpha4 = 0.1; Measurement_Noise z; z.std_x = z.std_y = z.std_theta = 0.2; Controller c; c.k1 = c.k2 = c.k3 = 1.0;
    sym_output_int("n0", 0);
    auto calls = [&](ISpace &S) { S.filt(m, z, c); S.dist(a, b); vector<Control> u = S.ctl(a, b); S.path(a, b); S.pathcov(ac, b); S.interp(a, u, t); };
    if (sym_live()) { std::unique_ptr<ISpace> S(make(sp, k, s, D)); calls(*S); }  // whatever is allocated once per process (plain builds only)
    long l0 = sym_live(), l1 = 0, l2 = 0;
    {
      std::unique_ptr<ISpace> S(make(sp, k, s, D));
      for (int pass = 0; pass < 2; pass++) {
        l1 = sym_live();
        S->filt(m, z, c); double d = S->dist(a, b); vector<Control> u = S->ctl(a, b); vector<State> p = S->path(a, b); vector<State_With_Covariance> q = S->pathcov(ac, b); State i = S->interp(a, u, t);
        if (pass) {
          out("dist", d); outctl("c", u); sym_output_int("pn", p.size()); sym_output_int("qn", q.size()); outstate("i", i);
          if (!p.empty()) outstate("p", p.back());
          if (!q.empty()) { outstate("q", q.back().state); for (int j = 0; j < 16; j++) { out("S" + std::to_string(j), q.back().Sigma[j]); out("L" + std::to_string(j), q.back().Lambda[j]); out("C" + std::to_string(j), q.back().covariance[j]); } }
        }
      }
      l2 = sym_live();
    }
    sym_output_int("live_query", l2 - l1); sym_output_int("live_object", sym_live() - l0); return true;
  }
  if (sc == "hist") {  // answers must not depend on earlier queries
    double k = in.sym("K"), s = in.sym("G"); double d = 1e6;
    State a = rdstate(in, "1"), b = rdstate(in, "2"), p = rdstate(in, "3"), q = rdstate(in, "4");
    std::unique_ptr<ISpace> S(make(sp, k, s, d)), T(make(sp, k, s, d));
    vector<Control> c0 = S->ctl(a, b); double d0 = S->dist(a, b);
    T->dist(p, q); T->ctl(q, p); T->path(p, q); if (!c0.empty()) { T->interp(p, c0, 0.5); T->integ(q, c0); } double d1 = T->dist(a, b); T->ctl(p, q); vector<Control> c1 = T->ctl(a, b);
    outctl("c", c0); outctl("h", c1); out("dist", d0); out("hdist", d1); return true;
  }
  if (sc == "integ") {  // n controls, discretisation symbolic
    int n = (int)in.raw(); double D = in.sym("D");
    State a = rdstate(in, "1"); vector<Control> c = rdctl(in, n);
    std::unique_ptr<ISpace> S(make(sp, 1.0, 1.0, D));
    vector<State> p = S->integ(a, c);
    sym_output_int("pn", p.size()); for (size_t i = 0; i < p.size(); i++) outstate("p" + std::to_string(i), p[i]);
    return true;
  }
  if (sc == "interp") {
    int n = (int)in.raw(); double D = in.sym("D"); double t = in.raw(); if (t != 0.0 && t != 1.0) t = sym_input("t", t);
    State a = rdstate(in, "1"); vector<Control> c = rdctl(in, n);
    std::unique_ptr<ISpace> S(make(sp, 1.0, 1.0, D));
    outstate("r", S->interp(a, c, t)); return true;
  }
  if (sc == "path") {  // get_path against integrate(get_controls)
    double k = in.sym("K"), s = in.sym("G"), D = in.sym("D");
    State a = rdstate(in, "1"), b = rdstate(in, "2");
    std::unique_ptr<ISpace> S(make(sp, k, s, D));
    vector<Control> c = S->ctl(a, b);
    vector<State> p = S->path(a, b), q = S->integ(a, c);
    sym_output_int("pn", p.size()); sym_output_int("qn", q.size());
    for (size_t i = 0; i < p.size(); i++) outstate("p" + std::to_string(i), p[i]);
    for (size_t i = 0; i < q.size(); i++) outstate("q" + std::to_string(i), q[i]);
    return true;
  }
  if (sc == "pathcov") {
    double k = in.sym("K"), s = in.sym("G"), D = in.sym("D");
    State_With_Covariance a; Motion_Noise m; Measurement_Noise z; Controller c;
    a.state = rdstate(in, "1"); State b = rdstate(in, "2"); rdcov(in, a, true); rdfilter(in, m, z, c);
    std::unique_ptr<ISpace> S(make(sp, k, s, D)); S->filt(m, z, c);
    vector<State_With_Covariance> p = S->pathcov(a, b); vector<State> q = S->path(a.state, b);
    sym_output_int("pn", p.size()); sym_output_int("qn", q.size());
    for (size_t i = 0; i < p.size(); i++) outstate("p" + std::to_string(i), p[i].state);
    for (size_t i = 0; i < q.size(); i++) outstate("q" + std::to_string(i), q[i]);
    return true;
  }
  if (sc == "integcov") {
    int n = (int)in.raw(); double D = in.sym("D");
    State_With_Covariance a; Motion_Noise m; Measurement_Noise z; Controller c;
    a.state = rdstate(in, "1"); vector<Control> u = rdctl(in, n); rdcov(in, a, true); rdfilter(in, m, z, c);
    std::unique_ptr<ISpace> S(make(sp, 1.0, 1.0, D)); S->filt(m, z, c);
    vector<State_With_Covariance> p = S->integcov(a, u); vector<State> q = S->integ(a.state, u);
    sym_output_int("pn", p.size()); sym_output_int("qn", q.size());
    for (size_t i = 0; i < p.size(); i++) outcov("p" + std::to_string(i), p[i]);
    for (size_t i = 0; i < q.size(); i++) outstate("q" + std::to_string(i), q[i]);
    return true;
  }
#ifndef NO_EKF
  if (sc == "belief") {  // belief path against the filter recursion along the same states
    int n = (int)in.raw(); double D = in.sym("D");
    State_With_Covariance a; Motion_Noise m; Measurement_Noise z; Controller c;
    a.state = rdstate(in, "1"); vector<Control> u = rdctl(in, n); rdcov(in, a, true); rdfilter(in, m, z, c);
    std::unique_ptr<ISpace> S(make(sp, 1.0, 1.0, D)); S->filt(m, z, c);
    vector<State_With_Covariance> p = S->integcov(a, u); vector<State> q = S->integ(a.state, u);
    EKF e; e.set_parameters(m, z, c);
    vector<State_With_Covariance> r; State_With_Covariance cur = a; size_t j = 0; bool ok = true;
    for (int i = 0; i < n && ok; i++) {
      double L = fabs(u[i].delta_s), s = 0.0;
      // samples that repeat the joint carry the covariance on
      while (j < q.size() && (j == 0 || (q[j].x == q[j - 1].x && q[j].y == q[j - 1].y && q[j].theta == q[j - 1].theta))) { cur.state = q[j]; r.push_back(cur); j++; if (j > 1) break; if (i == 0) break; }
      while (s < L) {
        if (j >= q.size()) { ok = false; break; }
        double st = D; s += D; if (s > L) { st = D - (s - L); s = L; }
        State_With_Covariance pr = cur, nx = cur; pr.state = q[j]; e.predict(cur, u[i], st, pr); nx.state = q[j]; e.update(pr, nx);
        nx.state = q[j]; cur = nx; r.push_back(cur); j++;
      }
    }
    sym_output_int("pn", p.size()); sym_output_int("rn", r.size()); sym_output_int("qn", q.size());
    for (size_t i = 0; i < p.size(); i++) outcov("p" + std::to_string(i), p[i]);
    for (size_t i = 0; i < r.size(); i++) outcov("r" + std::to_string(i), r[i]);
    return true;
  }
  if (sc == "jacobi") {  // EKF motion Jacobians
    State a = rdstatez(in, "1"); vector<Control> u = rdctl(in, 1); double st = in.sym("st");
    EKF e; Matrix3d Fx(Matrix3d::Zero()); Matrix32d Fu(Matrix32d::Zero());
    e.get_motion_jacobi(a, u[0], st, Fx, Fu);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) out("Fx" + std::to_string(i) + std::to_string(j), Fx(i, j));
    for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) out("Fu" + std::to_string(i) + std::to_string(j), Fu(i, j));
    return true;
  }
  if (sc == "predict") {
    State_With_Covariance a, b; Motion_Noise m; Measurement_Noise z; Controller c;
    a.state = rdstatez(in, "1"); vector<Control> u = rdctl(in, 1); double st = in.sym("st_"); rdcov(in, a, true); rdfilter(in, m, z, c);
    b.state = a.state;
    EKF e; e.set_parameters(m, z, c);
    Matrix3d Fx(Matrix3d::Zero()); Matrix32d Fu(Matrix32d::Zero());
    e.get_motion_jacobi(a.state, u[0], st, Fx, Fu);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) out("Fx" + std::to_string(i) + std::to_string(j), Fx(i, j));
    for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) out("Fu" + std::to_string(i) + std::to_string(j), Fu(i, j));
    e.predict(a, u[0], st, b); outcov("b", b); return true;
  }
  if (sc == "update") {
    State_With_Covariance a, b; Motion_Noise m; Measurement_Noise z; Controller c;
    a.state = rdstate(in, "1"); rdcov(in, a, true); rdfilter(in, m, z, c); b.state = a.state;
    EKF e; e.set_parameters(m, z, c); e.update(a, b); outcov("b", b); return true;
  }
#endif
#ifndef NO_UTIL
  if (sc == "util") {
    if (sp == "twopify") { out("r", twopify(in.sym("a"))); return true; }
    if (sp == "pify") { out("r", pify(in.sym("a"))); return true; }
    if (sp == "sgn") { out("r", sgn(in.sym("a"))); return true; }
    if (sp == "polar") { double r, t; double x = in.sym("x"), y = in.sym("y"); polar(x, y, r, t); out("r", r); out("t", t); return true; }
    if (sp == "pdist") { double a = in.sym("x1"), b = in.sym("y1"), c = in.sym("x2"), d = in.sym("y2"); out("r", point_distance(a, b, c, d)); return true; }
    if (sp == "frames") {
      double x = in.sym("x"), y = in.sym("y"), th = in.sym("th"), lx = in.sym("lx"), ly = in.sym("ly"), gx, gy, bx, by;
      global_frame_change(x, y, th, lx, ly, &gx, &gy); local_frame_change(x, y, th, gx, gy, &bx, &by);
      out("gx", gx); out("gy", gy); out("bx", bx); out("by", by);
      local_frame_change(x, y, th, lx, ly, &bx, &by); out("cx", bx); out("cy", by); return true;
    }
    if (sp == "clothoid") {
      double x = in.sym("x"), y = in.sym("y"), th = in.sym("th"), k = in.sym("k"), s = in.sym("s"), d = in.raw(), l = in.sym("l"), xf, yf, tf, kf;
      end_of_clothoid(x, y, th, k, s, d, l, &xf, &yf, &tf, &kf);
      sym_output_int("dir", (long)d); out("xf", xf); out("yf", yf); out("tf", tf); out("kf", kf); return true;
    }
    if (sp == "arc") {
      double x = in.sym("x"), y = in.sym("y"), th = in.sym("th"), k = in.sym("k"), d = in.raw(), l = in.sym("l"), xf, yf, tf;
      end_of_circular_arc(x, y, th, k, d, l, &xf, &yf, &tf);
      sym_output_int("dir", (long)d); out("xf", xf); out("yf", yf); out("tf", tf); return true;
    }
    if (sp == "line") {
      double x = in.sym("x"), y = in.sym("y"), th = in.sym("th"), d = in.raw(), l = in.sym("l"), xf, yf;
      end_of_straight_line(x, y, th, d, l, &xf, &yf);
      sym_output_int("dir", (long)d); out("xf", xf); out("yf", yf); return true;
    }
    if (sp == "amin") {
      double a[8]; int n = (int)in.raw(); for (int i = 0; i < n; i++) a[i] = in.sym(("a" + std::to_string(i)).c_str());
      sym_output_int("idx", array_index_min(a, n)); return true;
    }
    if (sp == "fresnel") { sym_fresnel_mode(0); double s = in.sym("s"), S, Cc; fresnel(s, S, Cc); out("S", S); out("C", Cc); sym_fresnel_mode(1); return true; }
  }
#endif
  return false;
}
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--pc")) sym_class_by_pc(1);
    if (!strncmp(argv[i], "--max=", 6)) sym_max_dump(atoi(argv[i] + 6));
  }
  string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); string tag, sc, sp, w; is >> tag >> sc >> sp; if (tag.empty()) continue;
    In in; while (is >> w) in.v.push_back(strtod(w.c_str(), nullptr));
    warm(sp); sym_begin(); sym_output_int(("#" + sc + ":" + sp).c_str(), 0);
    if (!run(sc, sp, in)) printf("? %s\n", tag.c_str());
    sym_end(tag.c_str());
  }
  sym_report(); fflush(stdout); return 0;
}
