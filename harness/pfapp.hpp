// A reference power flow (dense Newton method over the model of a case) and the checks of the application's results against it.
#ifndef PBT_PFAPP_HPP
#define PBT_PFAPP_HPP
#include "pfcase.hpp"
#include "main.hpp"
#include "comm.hpp"
#include "gridpack/include/gridpack.hpp"
#include "gridpack/applications/modules/powerflow/pf_app_module.hpp"
namespace pfa {
using namespace pfc; using pbt::Ctx; using pbt::str;
typedef gridpack::powerflow::PFNetwork Net; typedef gridpack::powerflow::PFAppModule App;
typedef gridpack::utility::Configuration CF; typedef std::pair<std::string, std::string> KV;
inline std::string xml(const std::string &section, const std::vector<KV> &kv) {
  std::string t = "<" + section + ">\n"; for (size_t i = 0; i < kv.size(); i++) t += "<" + kv[i].first + ">" + kv[i].second + "</" + kv[i].first + ">\n"; return t + "</" + section + ">\n";
}
inline boost::shared_ptr<CF> config(const Comm &comm, const std::string &body) {
  std::string t = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Configuration>\n" + body + "</Configuration>\n";
  std::vector<std::string> ln; std::string cur; for (size_t i = 0; i < t.size(); i++) { cur += t[i]; if (t[i] == '\n') { ln.push_back(cur); cur = ""; } }
  boost::shared_ptr<CF> cf(new CF); cf->openStringFile(ln, comm); return cf;
}
// ---- the equations ---------------------------------------------------------------
enum { ISO = -1, PQ = 0, PV = 1, SL = 2 };
struct Prob {
  int n; std::vector<int> kind; std::vector<double> p0, q0, v0, a0, vs, pl, ql, pg, qmin, qmax; ZM y; double sb;
};
// per unit injections and kinds of the buses; lone: buses without any element in service are out of the problem
inline Prob problem(const Case &c, bool lone = false) {
  Prob r; int n = r.n = c.nb(); r.sb = c.sbase;
  std::vector<double> z(n, 0); r.p0 = r.q0 = r.pl = r.ql = r.pg = r.qmin = r.qmax = z; r.kind.assign(n, PQ); r.v0 = r.a0 = r.vs = z;
  Case k = c; std::vector<int> deg(n, 0); for (size_t q = 0; q < c.el.size(); q++) if (c.el[q].stat) { deg[c.el[q].f]++; deg[c.el[q].t]++; }
  for (int b = 0; b < n; b++) if (lone && !deg[b]) k.bus[b].type = 4;
  std::vector<double> qg(n, 0); std::vector<int> on(n, 0);
  for (int b = 0; b < n; b++) { r.v0[b] = k.bus[b].vm; r.a0[b] = k.bus[b].va * M_PI / 180; }
  for (size_t q = 0; q < c.gen.size(); q++) { const Gen &g = c.gen[q]; if (!g.stat) continue; on[g.bus]++; r.pg[g.bus] += g.pg; qg[g.bus] += g.qg; r.v0[g.bus] = g.vs; r.qmin[g.bus] += g.qb; r.qmax[g.bus] += g.qt; }
  for (size_t q = 0; q < c.load.size(); q++) { const Load &l = c.load[q]; if (!l.stat) continue; r.pl[l.bus] += l.pl + l.ip + l.yp; r.ql[l.bus] += l.ql - l.iq - l.yq; }
  for (int b = 0; b < n; b++) {
    int t = k.bus[b].type; r.kind[b] = t == 4 ? ISO : t == 3 ? SL : t == 2 && on[b] ? PV : PQ; r.vs[b] = r.v0[b];
    r.p0[b] = (r.pg[b] - r.pl[b]) / c.sbase; r.q0[b] = (qg[b] - r.ql[b]) / c.sbase;
  }
  r.y = ybus(k); return r;
}
inline std::vector<Z> inject(const Prob &p, const std::vector<double> &v, const std::vector<double> &a) {
  std::vector<Z> u(p.n), s(p.n); for (int i = 0; i < p.n; i++) u[i] = std::polar(v[i], a[i]);
  for (int i = 0; i < p.n; i++) { Z cur = 0; for (int j = 0; j < p.n; j++) if (p.kind[j] != ISO) cur += p.y[i][j] * u[j]; s[i] = u[i] * std::conj(cur); }
  return s;
}
// largest mismatch; where: the bus
inline double mismatch(const Prob &p, const std::vector<double> &v, const std::vector<double> &a, int *where = 0) {
  std::vector<Z> s = inject(p, v, a); double m = 0;
  for (int i = 0; i < p.n; i++) {
    double e = 0; if (p.kind[i] == PQ || p.kind[i] == PV) e = std::fabs(s[i].real() - p.p0[i]); if (p.kind[i] == PQ) e = std::max(e, std::fabs(s[i].imag() - p.q0[i]));
    if (!(e <= m)) { m = e; if (where) *where = i; }
  }
  return m;
}
inline bool gauss(std::vector<std::vector<double> > &A, std::vector<double> &b) {     // solves in place; false when (nearly) singular
  int n = (int)b.size(); double big = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) big = std::max(big, std::fabs(A[i][j]));
  for (int c = 0; c < n; c++) {
    int p = c; for (int r = c + 1; r < n; r++) if (std::fabs(A[r][c]) > std::fabs(A[p][c])) p = r;
    if (!(std::fabs(A[p][c]) > 1e-9 * big)) return false;
    std::swap(A[p], A[c]); std::swap(b[p], b[c]);
    for (int r = c + 1; r < n; r++) { double f = A[r][c] / A[c][c]; if (f == 0) continue; for (int k = c; k < n; k++) A[r][k] -= f * A[c][k]; b[r] -= f * b[c]; }
  }
  for (int r = n - 1; r >= 0; r--) { for (int k = r + 1; k < n; k++) b[r] -= A[r][k] * b[k]; b[r] /= A[r][r]; }
  return true;
}
struct Sol { bool ok, easy; int iters; std::vector<double> v, a; double first, last, worst, gain; Sol() : ok(false), easy(false), iters(0), first(0), last(0), worst(0), gain(0) {} };
inline bool step(const Prob &p, std::vector<double> &v, std::vector<double> &a, double *size = 0, bool apply = true) {
  std::vector<int> ia(p.n, -1), iv(p.n, -1); int m = 0; for (int i = 0; i < p.n; i++) { if (p.kind[i] == PQ || p.kind[i] == PV) ia[i] = m++; if (p.kind[i] == PQ) iv[i] = m++; }
  if (!m) { if (size) *size = 0; return true; }
  std::vector<std::vector<double> > J(m, std::vector<double>(m, 0)); std::vector<double> b(m, 0); std::vector<Z> s = inject(p, v, a), u(p.n); for (int i = 0; i < p.n; i++) u[i] = std::polar(v[i], a[i]);
  for (int i = 0; i < p.n; i++) { if (ia[i] < 0) continue;
    for (int j = 0; j < p.n; j++) { if (p.kind[j] == ISO) continue;
      // dS_i/da_j and dS_i/dv_j
      Z da = i == j ? Z(0, 1) * (s[i] - u[i] * std::conj(p.y[i][i] * u[i])) : Z(0, -1) * u[i] * std::conj(p.y[i][j] * u[j]);
      Z dv = i == j ? s[i] / v[i] + u[i] * std::conj(p.y[i][i] * u[i]) / v[i] : u[i] * std::conj(p.y[i][j] * u[j]) / v[j];
      if (ia[j] >= 0) { J[ia[i]][ia[j]] += da.real(); if (iv[i] >= 0) J[iv[i]][ia[j]] += da.imag(); }
      if (iv[j] >= 0) { J[ia[i]][iv[j]] += dv.real(); if (iv[i] >= 0) J[iv[i]][iv[j]] += dv.imag(); }
    }
    b[ia[i]] = s[i].real() - p.p0[i]; if (iv[i] >= 0) b[iv[i]] = s[i].imag() - p.q0[i];
  }
  if (!gauss(J, b)) return false;
  double big = 0; for (int i = 0; i < m; i++) { if (!std::isfinite(b[i])) return false; big = std::max(big, std::fabs(b[i])); } if (size) *size = big;
  if (apply) for (int i = 0; i < p.n; i++) { if (ia[i] >= 0) a[i] -= b[ia[i]]; if (iv[i] >= 0) v[i] -= b[iv[i]]; }
  return true;
}
// largest entry sum of the inverse Jacobian (rows): how far residuals carry into the voltages
inline double gain(const Prob &p, const std::vector<double> &v, const std::vector<double> &a) {
  double g = 0; Prob q = p; std::vector<Z> s = inject(p, v, a);
  for (int i = 0; i < p.n; i++) { q.p0[i] = s[i].real(); q.q0[i] = s[i].imag(); }
  double sum = 0;
  for (int i = 0; i < p.n; i++) for (int w = 0; w < 2; w++) { if (p.kind[i] == ISO || p.kind[i] == SL || (w && p.kind[i] == PV)) continue;
    (w ? q.q0 : q.p0)[i] += 1e-6; std::vector<double> vv = v, aa = a; double d = 0; if (!step(q, vv, aa, &d, false)) return 1e300; (w ? q.q0 : q.p0)[i] -= 1e-6; g = std::max(g, d / 1e-6); sum += d / 1e-6; }
  return sum;
}
inline Sol newton(const Prob &p, std::vector<double> v, std::vector<double> a, int maxit = 30) {
  Sol r; r.first = mismatch(p, v, a); double m = r.first; r.worst = m;
  for (r.iters = 0; r.iters < maxit && m > 1e-11; r.iters++) {
    if (!step(p, v, a)) { r.v = v; r.a = a; return r; }
    double was = m; m = mismatch(p, v, a); if (!std::isfinite(m)) return r; r.worst = std::max(r.worst, m);
    if (m < 1e-9 && m >= was * 0.5) { r.iters++; break; }
  }
  r.last = m; r.v = v; r.a = a; r.ok = m < 1e-9; if (!r.ok) return r;
  r.gain = gain(p, v, a); bool sane = true; for (int i = 0; i < p.n; i++) if (p.kind[i] != ISO && (v[i] < 0.3 || v[i] > 2)) sane = false;
  r.easy = sane && r.iters <= 8 && r.worst <= 20 * r.first && r.gain < 1e4;
  return r;
}
// ---- running the application ---------------------------------------------------
struct Set { double tol; int maxit, qlim; bool nl, newton; std::string lin; };
inline std::string lin_opt(pbt::Source &s, int nproc) {
  if (nproc == 1 && s.flag()) return "-ksp_type preonly -pc_type lu";
  return s.chance(1, 3) ? "-ksp_type gmres -pc_type lu -pc_factor_mat_solver_type superlu_dist -ksp_rtol 1e-12" : "-ksp_type richardson -pc_type lu -pc_factor_mat_solver_type superlu_dist -ksp_max_it 1";
}
inline std::string section(const Set &t, const std::string &file) {
  std::vector<KV> k; k.push_back(KV("networkConfiguration_v33", file)); k.push_back(KV("maxIteration", str("%d", t.maxit))); k.push_back(KV("tolerance", str("%.3e", t.tol)));
  if (t.qlim) k.push_back(KV("qlim", "1"));
  std::string lin = "<SolutionTolerance>1e-14</SolutionTolerance><RelativeTolerance>1e-8</RelativeTolerance><PETScOptions>" + t.lin + "</PETScOptions>"; k.push_back(KV("LinearSolver", lin));
  if (t.nl) {
    k.push_back(KV("UseNewton", t.newton ? "true" : "false"));
    k.push_back(KV("NewtonRaphsonSolver", str("<SolutionTolerance>%.3e</SolutionTolerance><FunctionTolerance>%.3e</FunctionTolerance><MaxIterations>%d</MaxIterations>", t.tol, t.tol, t.maxit) + "<LinearSolver>" + lin + "</LinearSolver>"));
    k.push_back(KV("NonlinearSolver", str("<SolutionTolerance>1e-14</SolutionTolerance><FunctionTolerance>%.3e</FunctionTolerance><MaxIterations>%d</MaxIterations>", t.tol, t.maxit) + "<PETScOptions>-snes_type newtonls -snes_linesearch_type basic -snes_rtol 1e-30 " + t.lin + "</PETScOptions>"));
  }
  return xml("Powerflow", k);
}
inline void write_file(Ctx &c, const Comm &comm, const std::string &file, const std::vector<std::string> &lines) {
  if (comm.rank() == 0) { FILE *f = fopen(file.c_str(), "w"); for (size_t q = 0; q < lines.size(); q++) fprintf(f, "%s\n", lines[q].c_str()); fclose(f); }
  comm.barrier();
}
struct Volt { std::vector<double> v, a; };
// voltages of all buses (of the active copies); every copy has to agree
inline bool volts(Ctx &c, const Comm &comm, Net &net, const Case &k, Volt &r, const char *when) {
  int n = k.nb(); std::vector<double> mine(2 * n, -1e300), all(2 * n);
  for (int q = 0; q < net.numBuses(); q++) if (net.getActiveBus(q)) { int i = k.at.find(net.getOriginalBusIndex(q))->second; double v = net.getBus(q)->getVoltage(), a = net.getBus(q)->getPhase(); mine[i] = std::isfinite(v) ? v : -1e301; mine[n + i] = std::isfinite(a) ? a : -1e301; }
  MPI_Allreduce(&mine[0], &all[0], 2 * n, MPI_DOUBLE, MPI_MAX, raw(comm));
  r.v.assign(all.begin(), all.begin() + n); r.a.assign(all.begin() + n, all.end());
  for (int q = 0; q < net.numBuses(); q++) if (!net.getActiveBus(q)) {
    int i = k.at.find(net.getOriginalBusIndex(q))->second; double v = net.getBus(q)->getVoltage(), a = net.getBus(q)->getPhase(); c.sub++;
    if (!(v == r.v[i] && a == r.a[i])) { c.fail("ghost", "%s: a copy of bus %d has voltage %.15g at %.15g, the original %.15g at %.15g", when, k.bus[i].num, v, a, r.v[i], r.a[i]); break; }
  }
  return all_ok(c, comm);
}
inline double wrap(double a) { return std::remainder(a, 2 * M_PI); }
// the power balance at the returned voltages
inline void check_balance(Ctx &c, const Case &k, const Prob &p, const Volt &u, double tol, const char *when) {
  int w = 0; double ymax = 0; for (int i = 0; i < p.n; i++) for (int j = 0; j < p.n; j++) ymax = std::max(ymax, std::abs(p.y[i][j]));
  for (int i = 0; i < p.n; i++) {
    if (p.kind[i] == ISO) continue; c.sub++;
    if (!(u.v[i] > -1e100) || !(u.a[i] > -1e100)) { c.fail("nan", "%s: the voltage of bus %d is not a number", when, k.bus[i].num); return; }
    if (p.kind[i] != PQ && !(std::fabs(u.v[i] - p.vs[i]) <= 1e-12)) { c.fail("set point", "%s: bus %d has voltage %.12g, its set point is %.12g", when, k.bus[i].num, u.v[i], p.vs[i]); return; }
    if (p.kind[i] == SL && !(std::fabs(wrap(u.a[i] - p.a0[i])) <= 1e-12)) { c.fail("reference angle", "%s: the reference bus %d has angle %.12g instead of %.12g", when, k.bus[i].num, u.a[i], p.a0[i]); return; }
  }
  double m = mismatch(p, u.v, u.a, &w);
  if (!(m <= 2 * tol + 1e-11 * (1 + ymax))) c.fail("balance", "%s: convergence to %g reported, but the mismatch at bus %d (%s) is %g", when, tol, k.bus[w].num, p.kind[w] == PV ? "voltage controlled" : "load", m);
}
inline void check_same(Ctx &c, const Case &k, const Prob &p, const Volt &u, const Sol &r, double tol, const char *when) {
  double lim = 1e-9 + r.gain * (4 * tol + 1e-12);
  for (int i = 0; i < p.n; i++) { if (p.kind[i] == ISO) continue; c.sub++; double d = std::max(std::fabs(u.v[i] - r.v[i]), std::fabs(wrap(u.a[i] - r.a[i])));
    if (!(d <= lim)) { c.fail("solution", "%s: bus %d has voltage %.12g at %.12g rad, the solution is %.12g at %.12g", when, k.bus[i].num, u.v[i], u.a[i], r.v[i], r.a[i]); return; } }
}
inline std::vector<std::string> split_lines(const std::vector<std::string> &v) { std::vector<std::string> r; std::string cur; for (size_t i = 0; i < v.size(); i++) { for (size_t j = 0; j < v[i].size(); j++) if (v[i][j] == '\n') { r.push_back(cur); cur = ""; } else cur += v[i][j]; if (cur.size()) { r.push_back(cur); cur = ""; } } return r; }
// shares of the generators of a bus in its output (in service, by capacity)
inline std::vector<double> shares(const Case &k, bool &known, int bus) {
  std::vector<double> f(k.gen.size(), 0); double cap = 0; int on = 0, last = -1; for (size_t g = 0; g < k.gen.size(); g++) if (k.gen[g].bus == bus && k.gen[g].stat) { cap += k.gen[g].pt - k.gen[g].pb; on++; last = (int)g; }
  known = cap > 1e-9 || on == 1; if (on == 1) f[last] = 1; else if (cap > 1e-9) for (size_t g = 0; g < k.gen.size(); g++) if (k.gen[g].bus == bus && k.gen[g].stat) f[g] = (k.gen[g].pt - k.gen[g].pb) / cap;
  return f;
}
// generator outputs, branch flows and voltages as reported; u: the voltages returned, qfix: generators held at a reactive limit (by bus: 0, -1, 1)
inline void check_reports(Ctx &c, const Comm &comm, App &app, Net &net, const Case &k, const Prob &p, const Volt &u, const char *when, const std::vector<int> *qfix = 0) {
  std::vector<Z> s = inject(p, u.v, u.a);
  std::vector<std::string> gl = split_lines(app.writeBusString("gen_str")), vl = split_lines(app.writeBusString("vr_str")), fl = split_lines(app.writeBranchString("flow_str"));
  if (comm.rank() == 0) {
    std::vector<int> seen(k.gen.size(), 0); std::map<int, Z> sum; std::map<int, bool> any;
    for (size_t q = 0; q < gl.size() && !c.failed; q++) {
      int b, w = 0; double P, Q; if (sscanf(gl[q].c_str(), "%d%n", &b, &w) != 1 || (int)gl[q].size() < w + 4 || sscanf(gl[q].c_str() + w + 3, "%lf %lf", &P, &Q) != 2 || !k.at.count(b)) { c.fail("format", "%s: generator record '%s'", when, gl[q].c_str()); break; }
      std::string id = gl[q].substr(w + 1, 2); int i = k.at.find(b)->second, g = -1; for (size_t x = 0; x < k.gen.size(); x++) if (k.gen[x].bus == i && k.gen[x].id == id) g = (int)x;
      if (g < 0 || seen[g]++) { c.fail("generator record", "%s: generator record '%s' is unknown or repeated", when, gl[q].c_str()); break; }
      if (p.kind[i] == ISO) continue;
      bool known; double f = shares(k, known, i)[g], eP = 0, eQ = 0; const Gen &G = k.gen[g]; double tP = s[i].real() * p.sb + p.pl[i], tQ = s[i].imag() * p.sb + p.ql[i], lim = 1e-7 * (p.sb + std::fabs(tP) + std::fabs(tQ));
      sum[i] += Z(P, Q); any[i] = true;
      if (G.stat) {
        if (p.kind[i] == SL) { eP = f * tP; eQ = f * tQ; } else { eP = G.pg; if (p.kind[i] == PV) eQ = f * tQ; else if (qfix && (*qfix)[i]) eQ = (*qfix)[i] > 0 ? G.qt : G.qb; else eQ = G.qg; }
      }
      c.sub++; bool freeP = !known && p.kind[i] == SL && G.stat, freeQ = !known && (p.kind[i] == SL || p.kind[i] == PV) && G.stat;
      if ((!freeP && std::fabs(P - eP) > lim) || (!freeQ && std::fabs(Q - eQ) > lim)) c.fail("generator output", "%s: generator '%s' at bus %d (%s) is reported with %.9g MW and %.9g Mvar, the voltages imply %.9g and %.9g", when, id.c_str(), b, G.stat ? "in service" : "out of service", P, Q, eP, eQ);
    }
    for (size_t g = 0; g < k.gen.size() && !c.failed; g++) if (!seen[g]) c.fail("generator missing", "%s: no record for generator '%s' at bus %d", when, k.gen[g].id.c_str(), k.bus[k.gen[g].bus].num);
    for (std::map<int, Z>::iterator it = sum.begin(); it != sum.end() && !c.failed; ++it) { int i = it->first; double lim = 1e-6 * (p.sb + std::abs(s[i]) * p.sb); Z t = s[i] * p.sb + Z(p.pl[i], p.ql[i]);
      if (p.kind[i] == SL && std::abs(it->second - t) > lim) c.fail("generation", "%s: the generators of the reference bus %d give %.9g MW %.9g Mvar together instead of %.9g and %.9g", when, k.bus[i].num, it->second.real(), it->second.imag(), t.real(), t.imag());
      if (p.kind[i] == PV && std::fabs(it->second.imag() - t.imag()) > lim) c.fail("generation", "%s: the generators of bus %d give %.9g Mvar together instead of %.9g", when, k.bus[i].num, it->second.imag(), t.imag()); }
    int nv = 0;
    for (size_t q = 0; q < vl.size() && !c.failed; q++) {
      int b, f1, f2; double A, V; if (sscanf(vl[q].c_str(), "%d %lf %lf %d %d", &b, &A, &V, &f1, &f2) != 5 || !k.at.count(b)) { c.fail("format", "%s: voltage record '%s'", when, vl[q].c_str()); break; }
      int i = k.at.find(b)->second; nv++; if (p.kind[i] == ISO) continue; c.sub++;
      if (std::fabs(V - u.v[i]) > 1e-9 || std::fabs(wrap(A * M_PI / 180 - u.a[i])) > 1e-9) c.fail("voltage record", "%s: bus %d is written with %.12g at %.12g degrees, its voltage is %.12g at %.12g", when, b, V, A, u.v[i], u.a[i] * 180 / M_PI);
    }
    if (!c.failed && nv != p.n) c.fail("voltage records", "%s: %d voltage records for %d buses", when, nv, p.n);
    std::vector<int> se(k.el.size(), 0);
    for (size_t q = 0; q < fl.size() && !c.failed; q++) {
      int a, b, w = 0, viol; double P, Q, perf, rate; if (sscanf(fl[q].c_str(), "%d %d%n", &a, &b, &w) != 2 || (int)fl[q].size() < w + 4 || sscanf(fl[q].c_str() + w + 3, "%lf %lf %lf %lf %d", &P, &Q, &perf, &rate, &viol) != 5 || !k.at.count(a) || !k.at.count(b)) { c.fail("format", "%s: flow record '%s'", when, fl[q].c_str()); break; }
      std::string id = fl[q].substr(w + 1, 2); int i = k.at.find(a)->second, j = k.at.find(b)->second, e = -1; for (size_t x = 0; x < k.el.size(); x++) if (k.el[x].ckt == id && ((k.el[x].f == i && k.el[x].t == j) || (k.el[x].f == j && k.el[x].t == i))) e = (int)x;
      if (e < 0 || se[e]++) { c.fail("flow record", "%s: flow record '%s' is unknown or repeated", when, fl[q].c_str()); break; }
      Elem E = k.el[e]; E.g1 = E.b1 = E.g2 = E.b2 = 0; Y2 y = y2(E); if (i == E.t) { std::swap(y.ff, y.tt); std::swap(y.ft, y.tf); }
      Z ui = std::polar(u.v[i], u.a[i]), uj = std::polar(u.v[j], u.a[j]), S = ui * std::conj(y.ff * ui + y.ft * uj) * p.sb; if (!E.stat || p.kind[i] == ISO || p.kind[j] == ISO) S = 0;
      double lim = 1e-8 * (p.sb * (1 + std::abs(y.ff))); c.sub++;
      if (std::abs(Z(P, Q) - S) > lim) { c.fail("flow", "%s: the flow of element '%s' (%s) from %d to %d is reported as %.9g MW %.9g Mvar, the voltages imply %.9g and %.9g", when, id.c_str(), E.stat ? "in service" : "out of service", a, b, P, Q, S.real(), S.imag()); break; }
      double m = std::abs(S), pf = E.ra > 0 ? m * m / E.ra / E.ra : 0;
      if (std::fabs(rate - E.ra) > 1e-9 * (1 + E.ra)) c.fail("rating", "%s: element '%s' from %d to %d is written with rating %.9g instead of %.9g", when, id.c_str(), a, b, rate, E.ra);
      else if (E.ra > 0 && std::fabs(perf - pf) > 1e-6 * (1 + pf) * (1 + p.sb / E.ra)) c.fail("performance", "%s: element '%s' (%s) from %d to %d is written with index %.9g instead of %.9g", when, id.c_str(), E.stat ? "in service" : "out of service", a, b, perf, pf);
      else if (E.ra > 0 && std::fabs(m - E.ra) > 2 * lim && viol != (m > E.ra)) c.fail("overload flag", "%s: element '%s' (%s) from %d to %d carries %.9g of %.9g MVA and is marked %d", when, id.c_str(), E.stat ? "in service" : "out of service", a, b, m, E.ra, viol);
    }
    for (size_t e = 0; e < k.el.size() && !c.failed; e++) if (!se[e] && k.el[e].stat) c.fail("flow missing", "%s: no flow record for element '%s' from %d to %d", when, k.el[e].ckt.c_str(), k.bus[k.el[e].f].num, k.bus[k.el[e].t].num);
  }
}
inline void label(Ctx &c, const Case &k, const Prob &p) {
  int npv = 0, niso = 0, noff = 0, multi = 0, goff = 0; for (int i = 0; i < p.n; i++) { npv += p.kind[i] == PV; niso += p.kind[i] == ISO; }
  std::map<int, int> ng; for (size_t g = 0; g < k.gen.size(); g++) { goff += !k.gen[g].stat; if (++ng[k.gen[g].bus] == 2) multi++; }
  for (size_t e = 0; e < k.el.size(); e++) noff += !k.el[e].stat;
  if (npv) c.label("generator buses"); if (niso) c.label("isolated bus"); if (noff) c.label("element out"); if (multi) c.label("several generators"); if (goff) c.label("generator out");
}
}
#endif
