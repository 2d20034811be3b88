// G01: the control blocks of the dynamic models against their transfer functions.
#include <cmath>
#include <map>
#include "main.hpp"
#include "comm.hpp"
#include "net.hpp"
#include "cblock.hpp"
#include "dblock.hpp"
#include "BackLashClass.hpp"
#include "DBIntClass.hpp"
#include "DelayBlock.hpp"
#include "DelayBlockwithLimit.hpp"
#include "LeadLagBlock.hpp"
#include "PIBlockwithLimit.hpp"
using pbt::Source; using pbt::Ctx; using pbt::Registry;
namespace dsm = gridpack::dynamic_simulation;
static double clampd(double x, double a, double b) { return x < a ? a : x > b ? b : x; }
static bool near(double a, double b, double e = 1e-9) { return std::fabs(a - b) <= e * (1 + std::fabs(a) + std::fabs(b)); }
static double tc(Source &s) { static const double T[] = {0.1, 0.02, 0.5, 1, 2, 5, 12, 40}; return s.chance(1, 3) ? T[s.range(0, 7)] : s.dec(0.02, 10); }
static double sig(Source &s) { return s.chance(1, 4) ? s.range(-2, 2) : s.dec(-3, 3); }
struct Lim { double xmin, xmax, dmin, dmax, ymin, ymax; Lim() : xmin(-1000), xmax(1000), dmin(-1000), dmax(1000), ymin(-1000), ymax(1000) {} };
// ---- first order transfer functions ------------------------------------------------
static void linear(Source &s, Ctx &c) {
  int kind = s.range(0, 4); double b0, b1, a0, a1, p = 0, q = 0;
  PIControl pi; Filter fi; LeadLag ll; Integrator in; Cblock ge; Cblock *k = 0; static const char *N[] = {"PI", "filter", "lead-lag", "integrator", "general"};
  Lim L; bool xl = s.chance(1, 3), dl = xl && kind != 3 && s.chance(1, 2), yl = kind != 3 && xl; bool percall = s.chance(1, 4);
  if (xl) { L.xmin = -s.dec(0.05, 3); L.xmax = s.dec(0.05, 3); } if (dl) { L.dmin = -s.dec(0.05, 4); L.dmax = s.dec(0.05, 4); } if (yl) { L.ymin = -s.dec(0.05, 3); L.ymax = s.dec(0.05, 3); if (s.chance(1, 4)) { L.ymin = -1000; L.ymax = 1000; } }
  switch (kind) {
    case 0: p = s.dec(0, 5); q = s.dec(0.05, 8); b0 = p; b1 = q; a0 = 1; a1 = 0; k = &pi; break;
    case 1: p = s.chance(1, 2) ? 1 : s.dec(-4, 10); if (p == 0) p = 1; q = tc(s); b0 = 0; b1 = p; a0 = q; a1 = 1; k = &fi; break;
    case 2: p = s.chance(1, 6) ? 0 : tc(s); q = s.chance(1, 6) && p > 0 ? p : tc(s); b0 = p; b1 = 1; a0 = q; a1 = 1; k = &ll; break;
    case 3: q = tc(s); b0 = 0; b1 = 1; a0 = q; a1 = 0; k = &in; break;
    default: b0 = s.chance(1, 4) ? 0 : s.dec(-3, 3); b1 = s.dec(-3, 3); a0 = s.dec(0.1, 4) * (s.flag() ? 1 : -1); a1 = s.chance(1, 4) ? 0 : s.dec(0.05, 3) * (a0 < 0 ? -1 : 1); k = &ge;
  }
  bool tell = !percall;   // limits given with the parameters, or with every call
  double a[2] = {a0, a1}, b[2] = {b0, b1}; int how = s.range(0, 2);
  switch (kind) {
    case 0: if (!tell || !xl) pi.setparams(p, q); else if (dl) pi.setparams(p, q, L.xmin, L.xmax, L.dmin, L.dmax, L.ymin, L.ymax); else pi.setparams(p, q, L.xmin, L.xmax, L.ymin, L.ymax); break;
    case 1: if (!tell || !xl) fi.setparams(p, q); else if (dl) fi.setparams(p, q, L.xmin, L.xmax, L.dmin, L.dmax, L.ymin, L.ymax); else fi.setparams(p, q, L.xmin, L.xmax, L.ymin, L.ymax); break;
    case 2: if (!tell || !xl) ll.setparams(p, q); else if (dl) ll.setparams(p, q, L.xmin, L.xmax, L.dmin, L.dmax, L.ymin, L.ymax); else ll.setparams(p, q, L.xmin, L.xmax, L.ymin, L.ymax); break;
    case 3: if (!tell || !xl) in.setparams(q); else in.setparams(q, L.xmin, L.xmax); break;
    default: ge.setcoeffs(a, b); if (tell && xl) { ge.setxlimits(L.xmin, L.xmax); ge.setdxlimits(L.dmin, L.dmax); ge.setylimits(L.ymin, L.ymax); }
  }
  if (dl && percall) how = 2; c.label(N[kind]); if (xl) c.label("limited state"); if (dl) c.label("limited rate"); if (yl) c.label("limited output");
  const double A = -a1 / a0, B = (b1 - a1 * (b0 / a0)) / a0, D = b0 / a0;
  // start
  double u, y; int start = s.range(0, 2); 
  if (a1 != 0) {
    double gain = b1 / a1; u = sig(s); y = gain * u;
    if (start == 1 && std::fabs(gain) < 1e-3) start = 0; if (start == 2 && std::fabs(gain) < 1e-3) start = 0;
    if (start == 0) { double r = k->init_given_u(u); if (!near(r, y)) c.fail("start", "%s: started with input %g it promises output %.12g instead of %.12g", N[kind], u, r, y); }
    else if (start == 1) { double r = k->init_given_y(y); if (!near(r, u)) c.fail("start", "%s: started with output %g it asks for input %.12g instead of %.12g", N[kind], y, r, u); }
    else k->init(u, y);
  } else { u = 0; y = b1 == 0 ? 0 : sig(s); if (b1 == 0 && start == 0) start = 2;
    if (start == 0) { y = 0; double r = k->init_given_u(0); if (!near(r, 0)) c.fail("start", "%s: started with input 0 it promises output %.12g", N[kind], r); }
    else if (start == 1) { double r = k->init_given_y(y); if (!near(r, 0)) c.fail("start", "%s: started with output %g it asks for input %.12g instead of 0", N[kind], y, r); }
    else k->init(0, y); }
  if (c.failed) return;
  double x = y - D * u, ex = x, err = 1e-12; if (!near(k->x[0], x)) { c.fail("start", "%s: the state is %.12g at the start instead of %.12g", N[kind], k->x[0], x); return; }
  double us = u, ys = y; bool flat = x >= L.xmin && x <= L.xmax && y >= L.ymin && y <= L.ymax, exact = flat; int steps = s.range(1, 40); double dt = s.dec(0.001, 0.02); if (A != 0 && s.chance(1, 2)) dt = s.dec(0.01, 0.4) / std::fabs(A); if (dt > 0.2) dt = 0.2;
  std::string hist = strf("(%gs%+g)/(%gs%+g) dt %g, %d steps from y=%g", b0, b1, a0, a1, dt, steps, y); bool held = s.flag(); c.sample = hist; int changes = 0;
  struct Call { Cblock *k; Lim &L; int how; bool percall; double dt; double operator()(double u, IntegrationStage st, bool up) { if (!percall) return k->getoutput(u, dt, st, up); return how == 2 ? k->getoutput(u, dt, L.xmin, L.xmax, L.dmin, L.dmax, L.ymin, L.ymax, st, up) : k->getoutput(u, dt, L.xmin, L.xmax, L.ymin, L.ymax, st, up); } } out = {k, L, how, percall, dt};
  for (int n = 0; n < steps; n++) {
    c.sub++; double u2;
    if (n >= 2 && s.chance(1, 3)) { u = sig(s); changes++; } u2 = held || n < 2 ? u : s.chance(1, 3) ? sig(s) : u; if (u2 != u) exact = false;
    bool idle = s.chance(1, 8);   // looking at the output does not move the block
    if (idle) { double z = out(u2, PREDICTOR, false), z2 = out(u2, PREDICTOR, false); if (z != z2) { c.fail("reading", "%s, step %d: reading the output twice gives %.12g and %.12g", hist.c_str(), n, z, z2); return; } }
    double y1 = out(u, PREDICTOR, true), w1 = clampd(x + D * u, L.ymin, L.ymax);
    if (!near(y1, w1)) { c.fail("output", "%s %s, step %d: output %.12g instead of %.12g (input %g)", N[kind], hist.c_str(), n, y1, w1, u); return; }
    double d1 = clampd(A * x + B * u, L.dmin, L.dmax), xh = clampd(x + dt * d1, L.xmin, L.xmax);
    if (!near(k->getstate(PREDICTOR), xh)) { c.fail("predictor", "%s %s, step %d: predicted state %.12g instead of %.12g", N[kind], hist.c_str(), n, k->getstate(PREDICTOR), xh); return; }
    double y2 = out(u2, CORRECTOR, true), w2 = clampd(xh + D * u2, L.ymin, L.ymax);
    if (!near(y2, w2)) { c.fail("output", "%s %s, step %d: output of the corrector %.12g instead of %.12g (input %g)", N[kind], hist.c_str(), n, y2, w2, u2); return; }
    double x1 = clampd(x + dt * clampd(0.5 * (d1 + A * xh + B * u2), L.dmin, L.dmax), L.xmin, L.xmax), g = k->getstate(CORRECTOR);
    if (!near(g, x1)) { c.fail("corrector", "%s %s, step %d: state %.12g instead of %.12g", N[kind], hist.c_str(), n, g, x1); return; }
    if (flat && n < 2 && (!near(y1, ys) || !near(y2, ys) || !near(g, ys - D * us))) { c.fail("drift", "%s %s: started at output %g with input %g it moves to %.12g %.12g in step %d", N[kind], hist.c_str(), ys, us, y1, y2, n); return; }
    if (g < L.xmin || g > L.xmax || y1 < L.ymin || y1 > L.ymax || y2 < L.ymin || y2 > L.ymax) { c.fail("limits", "%s %s, step %d: state %g outputs %g %g", N[kind], hist.c_str(), n, g, y1, y2); return; }
    if (std::fabs(x) <= 1000 && (g - x > dt * L.dmax + 1e-9 || g - x < dt * L.dmin - 1e-9) && x <= L.xmax && x >= L.xmin) { c.fail("rate", "%s %s, step %d: the state moves from %g to %g", N[kind], hist.c_str(), n, x, g); return; }
    // the exact response to the input held over the step, with the error the method may make
    double z = A * dt, far = A == 0 ? 0 : std::fabs(ex + B / A * u); err = err * std::fabs(1 + z + z * z / 2) + std::fabs(z * z * z) / 6 * far * 1.02 + 1e-12 * (1 + std::fabs(ex));
    ex = A == 0 ? ex + dt * B * u : std::exp(z) * ex + B * u * (std::exp(z) - 1) / A;
    if (clampd(x + dt * (A * x + B * u), L.xmin, L.xmax) != x + dt * (A * x + B * u) || clampd(A * x + B * u, L.dmin, L.dmax) != A * x + B * u || clampd(A * xh + B * u, L.dmin, L.dmax) != A * xh + B * u || x1 == L.xmin || x1 == L.xmax) exact = false;
    if (exact && std::fabs(g - ex) > err * 1.05 + 1e-9) { c.fail("response", "%s %s, step %d: state %.12g, the exact response is %.12g and the method may be off by %.3g", N[kind], hist.c_str(), n, g, ex, err); return; }
    x = x1; if (s.chance(1, 6)) { double r = k->getoutput(u2), o1 = clampd(x + D * u2, L.ymin, L.ymax), o2 = clampd(xh + D * u2, L.ymin, L.ymax); if (percall) { o1 = clampd(x + D * u2, -1000, 1000); o2 = clampd(xh + D * u2, -1000, 1000); } if (!near(r, o1) && !near(r, o2)) { c.fail("reading", "%s %s, step %d: output read %.12g instead of %.12g", N[kind], hist.c_str(), n, r, o1); return; } if (!near(k->getstate(CORRECTOR), x)) { c.fail("reading", "%s: reading moves the state", hist.c_str()); return; } }
  }
  if (exact && changes) c.label("compared with the exact response");
  c.nontrivial = changes > 0;
}
// ---- blocks without memory and rate limiters ----------------------------------------
static void shapes(Source &s, Ctx &c) {
  int kind = s.range(0, 5); static const char *N[] = {"gain with limits", "rate limiter", "slope", "piecewise slope", "dead band", "gates"}; c.label(N[kind]);
  if (kind == 0) {
    GainLimiter g; double K = s.dec(-5, 5), lo = s.dec(-4, 1), hi = lo + s.dec(0, 5); g.setparams(K, lo, hi); c.sample = strf("K %g in [%g,%g]", K, lo, hi);
    for (int i = 0, n = s.range(1, 8); i < n; i++) { double u = sig(s); if (s.chance(1, 4)) { lo = s.dec(-4, 1); hi = lo + s.dec(0, 5); double y = g.getoutput(u, lo, hi); c.sub++; if (!near(y, clampd(K * u, lo, hi))) c.fail("gain", "%s: output %g for input %g", c.sample.c_str(), y, u); } double y = g.getoutput(u); if (!near(y, clampd(K * u, lo, hi))) c.fail("gain", "%s: output %g for input %g", c.sample.c_str(), y, u); c.nontrivial = n > 1; }
  } else if (kind == 1) {
    GainLimiter g; double K = s.dec(-5, 5), lo = s.dec(-4, 1), hi = lo + s.dec(0, 5), dn = s.dec(0.01, 6), up = s.dec(0.01, 6), dt = s.dec(0.001, 0.1); g.setparams(K, lo, hi, s.flag() ? -dn : dn, up); c.sample = strf("K %g in [%g,%g], rates -%g %g", K, lo, hi, dn, up); bool first = true; double prev = 0;
    for (int i = 0, n = s.range(1, 30); i < n; i++) { double u = s.chance(1, 3) ? sig(s) : 0.7, want = clampd(K * u, lo, hi); bool upd = first || s.chance(3, 4); if (first) prev = want; first = false; want = clampd(want, prev - dn * dt, prev + up * dt); double y = g.getoutput(u, dt, upd); c.sub++; if (!near(y, want)) { c.fail("rate limit", "%s: output %.10g instead of %.10g after %.10g for input %g, step %g", c.sample.c_str(), y, want, prev, u, dt); return; } if (upd) prev = y; c.nontrivial = n > 3; }
  } else if (kind == 2) {
    Slope g; double u[2], y[2]; u[0] = s.dec(-2, 2); u[1] = u[0] + s.dec(0.05, 3); y[0] = s.dec(-2, 2); y[1] = s.dec(-2, 2); double ya = s.flag() ? y[0] : s.dec(-3, 3), yb = s.flag() ? y[1] : s.dec(-3, 3); g.setparams(u, y, ya, yb); c.sample = strf("(%g,%g)-(%g,%g), %g and %g outside", u[0], y[0], u[1], y[1], ya, yb); c.nontrivial = true;
    for (int i = 0, n = s.range(1, 8); i < n; i++) { double x = s.chance(1, 6) ? u[s.range(0, 1)] : s.dec(u[0] - 1, u[1] + 1); double w = x <= u[0] + 2e-5 ? ya : x >= u[1] - 2e-5 ? yb : y[0] + (y[1] - y[0]) / (u[1] - u[0]) * (x - u[0]); if (x > u[0] && x < u[1] && (x < u[0] + 2e-5 || x > u[1] - 2e-5)) continue; c.sub++; double r = g.getoutput(x); if (!near(r, w)) { c.fail("slope", "%s: output %.10g instead of %.10g for %.10g", c.sample.c_str(), r, w, x); return; } }
  } else if (kind == 3) {
    PiecewiseSlope g; int n = s.range(2, 5), down = s.chance(1, 3), mono = s.range(0, 2); double u[5], y[5]; u[0] = s.dec(-1, 2); y[0] = s.dec(-1, 2); if (s.chance(1, 4)) u[0] = y[0] = 0;
    for (int i = 1; i < n; i++) { u[i] = u[i - 1] + s.dec(0.05, 1.5); double d = s.dec(0.01, 1.5); y[i] = y[i - 1] + (mono == 2 ? s.flag() ? d : -d : mono ? -d : d); if (mono == 2 && s.chance(1, 5)) y[i] = y[i - 1]; }
    int total = n; if (!down && u[n - 1] > 0 && s.chance(1, 3)) while (total < 5) { u[total] = y[total] = 0; total++; }
    double uu[5], yy[5]; for (int i = 0; i < total; i++) { int j = down ? n - 1 - i : i; uu[i] = u[j]; yy[i] = y[j]; }
    if (s.chance(1, 5)) { double q[3] = {0, 1, 2}; g.setparams(3, q, q); c.label("parameters set again"); }
    g.setparams(total, uu, yy); c.nontrivial = n > 2; if (down) c.label("falling inputs"); if (total > n) c.label("unused points");
    c.sample = ""; for (int i = 0; i < total; i++) c.sample += strf("(%g,%g)", uu[i], yy[i]);
    for (int i = 0, m = s.range(1, 10); i < m; i++) {
      double x = s.chance(1, 6) ? u[s.range(0, n - 1)] : s.dec(u[0] - 1, u[n - 1] + 1); c.sub++; double w = 0, slope = 0;
      if (x <= u[0]) w = y[0]; else if (x >= u[n - 1]) w = y[n - 1]; else for (int q = 0; q + 1 < n; q++) if (x >= u[q] && x <= u[q + 1]) { slope = (y[q + 1] - y[q]) / (u[q + 1] - u[q]); w = y[q] + slope * (x - u[q]); break; }
      double most = 0; for (int q = 0; q + 1 < n; q++) most = std::max(most, std::fabs((y[q + 1] - y[q]) / (u[q + 1] - u[q])));
      double r = g.getoutput(x); if (!(std::fabs(r - w) <= 1.1e-5 * most + 1e-9)) { c.fail("piecewise slope", "%s: output %.10g instead of %.10g for %.10g", c.sample.c_str(), r, w, x); return; }
      if (mono < 2) { double ylo = std::min(y[0], y[n - 1]), yhi = std::max(y[0], y[n - 1]), t = s.chance(1, 5) ? y[s.range(0, n - 1)] : s.dec(ylo - 0.5, yhi + 0.5), v = g.init_given_y(t), back = 0, want = clampd(t, ylo, yhi);
        if (v < u[0] - 1e-9 || v > u[n - 1] + 1e-9 || !(v == v)) { c.fail("inverse", "%s: input %.10g for output %.10g", c.sample.c_str(), v, t); return; }
        for (int q = 0; q + 1 < n; q++) if (v >= u[q] - 1e-12 && v <= u[q + 1] + 1e-12) { back = y[q] + (y[q + 1] - y[q]) / (u[q + 1] - u[q]) * (v - u[q]); break; }
        if (std::fabs(back - want) > 1e-9) { c.fail("inverse", "%s: for output %.10g the input is %.10g, which gives %.10g", c.sample.c_str(), t, v, back); return; } }
    }
  } else if (kind == 4) {
    Deadband g; double a = -s.dec(0, 2), b = s.dec(0, 2); if (s.chance(1, 5)) a = b = 0; g.setparams(a, b); c.sample = strf("dead between %g and %g", a, b); c.nontrivial = true;
    for (int i = 0, n = s.range(1, 8); i < n; i++) { double u = s.chance(1, 5) ? (s.flag() ? a : b) : sig(s); if (u != a && u != b && (std::fabs(u - a) < 2e-6 || std::fabs(u - b) < 2e-6)) continue; double w = u > a && u < b ? 0 : u, r = g.getoutput(u); c.sub++; if (!near(r, w)) { c.fail("dead band", "%s: output %g for input %g", c.sample.c_str(), r, u); return; } }
  } else {
    LVGate l; HVGate h; double a = sig(s), b = sig(s); l.setparams(a); h.setparams(b); c.sample = strf("gates at %g and %g", a, b); c.nontrivial = true;
    for (int i = 0, n = s.range(1, 8); i < n; i++) { double u = s.chance(1, 5) ? a : sig(s); c.sub += 2; if (!near(l.getoutput(u), std::min(u, a))) { c.fail("low value gate", "%s: output %g for input %g", c.sample.c_str(), l.getoutput(u), u); return; } if (!near(h.getoutput(u), std::max(u, b))) { c.fail("high value gate", "%s: output %g for input %g", c.sample.c_str(), h.getoutput(u), u); return; } if (s.chance(1, 5)) { a = sig(s); b = sig(s); l.setparams(a); h.setparams(b); } }
  }
}
// ---- backlash and dead bands with memory ---------------------------------------------
static void memory(Source &s, Ctx &c) {
  if (s.flag()) {
    dsm::BackLashClass g; double d = s.chance(1, 6) ? 0 : s.dec(0.01, 1), y = sig(s); g.Initialize(d, y); c.sample = strf("backlash %g from %g", d, y); c.label("backlash"); double u = y;
    int n = s.range(1, 30); for (int i = 0; i < n; i++) { u = s.chance(1, 4) ? sig(s) : u + s.dec(-0.3, 0.3); y = clampd(y, u - d, u + d); double r = g.Output(u); c.sub++; if (!near(r, y)) { c.fail("backlash", "%s, step %d: output %.10g instead of %.10g for input %g", c.sample.c_str(), i, r, y, u); return; } }
    c.nontrivial = n > 2; return;
  }
  dsm::DBIntClass g; double b = s.chance(1, 8) ? 0 : s.dec(0.02, 1), e = s.range(0, 2), off = s.chance(1, 2) ? 0 : sig(s); int mode = (int)e; e = mode == 0 ? 0 : mode == 1 ? b : b * s.dec(0.1, 0.9); double eg = mode == 1 && s.flag() ? b + s.dec(0, 1) : e; g.Initialize(s.chance(1, 5) ? -b : b, s.chance(1, 5) ? -eg : eg, off);
  c.sample = strf("dead band %g, hysteresis %g about %g", b, e, off); c.label(mode == 0 ? "dead band" : mode == 1 ? "bowtie" : "partial hysteresis"); int st = 0, n = s.range(1, 30); double u = 0;
  for (int i = 0; i < n; i++) {
    u = s.chance(1, 4) ? s.dec(-2.5, 2.5) * b : u + s.dec(-0.3, 0.3) * b; double w; if (std::fabs(std::fabs(u) - b) < 1e-9 || std::fabs(std::fabs(u) - (b - e)) < 1e-9) continue; c.sub++;
    if (e == 0) w = u > b ? u - b : u < -b ? u + b : 0;
    else { if (u > b) st = 1; else if (u < -b) st = 2; else if ((st == 1 && u <= b - e) || (st == 2 && u >= e - b)) st = 0; w = st == 0 ? 0 : st == 1 ? u - (b - e) : u + (b - e); }
    double r = g.Output(u + off); if (!near(r, w + off)) { c.fail("dead band", "%s, step %d: output %.10g instead of %.10g for input %.10g", c.sample.c_str(), i, r, w + off, u + off); return; }
  }
  c.nontrivial = n > 2;
}
// ---- lags, lead-lags and PI with limits of the exciters and governors --------------------
static void older(Source &s, Ctx &c) {
  int kind = s.range(0, 3), n = s.range(3, 60); static const char *N[] = {"lag", "lag with limits", "lead-lag with memory", "PI with limits"}; c.label(N[kind]);
  double T = tc(s), T2 = s.chance(1, 6) ? 0 : tc(s), dt = s.dec(0.002, 0.02), mx = s.dec(0.1, 3), mn = -s.dec(0.1, 3), Kp = s.dec(0.05, 4), Ki = s.chance(1, 5) ? 0 : s.dec(0.05, 4); if (s.chance(1, 6)) T = dt * s.dec(0.1, 3.5); else if (T < 4.2 * dt) T = 5 * dt;
  double y0 = kind == 3 || (kind == 1 && s.chance(3, 4)) ? s.dec(mn, mx) : sig(s), u0; bool bypass = kind < 3 ? T < 4 * dt : Ki == 0; if (kind == 2 && T2 == T) T2 = T / 2;
  dsm::DelayBlock a; dsm::DelayBlockwithLimit b; dsm::LeadLagBlock l; dsm::PIBlockwithLimit p;
  u0 = kind == 0 ? a.init(y0, T) : kind == 1 ? b.init(y0, T, mx, mn) : kind == 2 ? l.init(y0, T, T2, dt) : p.init(y0, Kp, Ki, mx, mn);
  double want = kind < 3 ? y0 : bypass ? y0 / Kp : 0; c.sample = strf("%s T %g T2 %g Kp %g Ki %g in [%g,%g], step %g, %d steps from %g", N[kind], T, T2, Kp, Ki, mn, mx, dt, n, y0); if (bypass) c.label("no state");
  if (!near(u0, want)) { c.fail("start", "%s: asks for input %.10g instead of %.10g", c.sample.c_str(), u0, want); return; }
  if (kind == 1 && y0 > mx) mx = 1e30; if (kind == 1 && y0 < mn) mn = -1e30; bool wide = mx > 1e20 || mn < -1e20;   // limits give way at the start
  double u = u0, D = kind == 2 ? T2 / T : kind == 3 ? Kp : 0, x = kind == 2 ? y0 * (1 - T2 / T) : kind == 3 ? y0 - Kp * u0 : y0, err = 1e-11, gain = kind == 2 ? 1 - T2 / T : 1, band = 0; bool first = true; int changes = 0; bool lim = kind == 1 || kind == 3, hit = false;
  for (int i = 0; i < n; i++) {
    if (i >= 3 && s.chance(1, 5)) { u = sig(s); changes++; }
    if (wide && changes) break; bool twice = !first && s.chance(1, 12);   // a step begun again from where it began
    double o1, o2, q1; int runs = 1; (void)twice; bool flag = first && s.flag();
    o1 = kind == 0 ? a.predictor(u, dt, flag) : kind == 1 ? b.predictor(u, dt, flag) : kind == 2 ? l.predictor(u, dt, flag) : p.predictor(u, dt, flag); c.sub += runs; first = false; q1 = 0; (void)q1;
    o2 = kind == 0 ? a.corrector(u, dt, false) : kind == 1 ? b.corrector(u, dt, false) : kind == 2 ? l.corrector(u, dt, false) : p.corrector(u, dt, false);
    if (i < 3 && (!near(o1, y0) || !near(o2, y0))) { c.fail("drift", "%s: started at %g it moves to %.10g %.10g in step %d", c.sample.c_str(), y0, o1, o2, i); return; }
    if (lim && (o1 > mx + 1e-12 || o1 < mn - 1e-12 || o2 > mx + 1e-12 || o2 < mn - 1e-12)) { c.fail("limits", "%s: outputs %.10g %.10g in step %d", c.sample.c_str(), o1, o2, i); return; }
    if (bypass) { double w = kind == 3 ? clampd(Kp * u, mn, mx) : lim ? clampd(u, mn, mx) : u; if (!near(o1, w) || !near(o2, w)) { c.fail("no state", "%s, step %d: outputs %.10g %.10g instead of %.10g", c.sample.c_str(), i, o1, o2, w); return; } continue; }
    // exact state after the step for the input held over it, within the limits; band is what the limits add to the error
    double z = kind == 3 ? 0 : dt / T, step = kind == 3 ? dt * Ki * std::fabs(u) : 0;
    double lo = kind == 3 ? mn - Kp * u : kind == 1 ? mn : -1e30, hi = kind == 3 ? mx - Kp * u : kind == 1 ? mx : 1e30; 
    { double xc = clampd(x, lo, hi); if (xc != x) hit = true; x = xc; }
    double w1 = x + D * u; if (lim) w1 = clampd(w1, mn, mx);
    double tol = err * 1.05 + band + 1e-9; if (std::fabs(o1 - w1) > tol) { c.fail("response", "%s, step %d: output %.10g, the exact response is %.10g and the method may be off by %.3g (input %g)", c.sample.c_str(), i, o1, w1, tol, u); return; }
    double far = kind == 3 ? 0 : std::fabs(x - gain * u), xn = kind == 3 ? x + dt * Ki * u : gain * u + (x - gain * u) * std::exp(-z); err = err * (1 - z + z * z / 2) + z * z * z / 6 * far * 1.02 + 1e-12; band *= kind == 3 ? 1 : 1 - z + z * z / 2;
    double tp = err + band + z * z * (far + err + band) * 0.75 + 1e-9, w2 = clampd(xn, lo, hi) + D * u; if (lim) w2 = clampd(w2, mn, mx);
    bool edge = lim && (xn + tp + step + z * far >= hi || xn - tp - step - z * far <= lo);
    if (edge) { hit = true; band = std::max(band, 0.51 * (z * far + step) + 1e-12); }
    if (std::fabs(o2 - w2) > tp + (edge ? z * far + step : 0)) { c.fail("response", "%s, step %d: output of the corrector %.10g, the exact response is %.10g and the method may be off by %.3g (input %g)", c.sample.c_str(), i, o2, w2, tp, u); return; }
    x = clampd(xn, lo, hi);
  }
  if (hit) c.label("limit reached"); c.nontrivial = changes > 0;
}
static void g01(Source &s, Ctx &c) { switch (s.range(0, 4)) { case 0: case 1: linear(s, c); break; case 2: shapes(s, c); break; case 3: memory(s, c); break; default: older(s, c); } }
int main(int argc, char **argv) { Registry r; r["G01"] = g01; return pbt_main(argc, argv, r); }
