// F03: state estimation.
#include "pfapp.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <set>
#include "gridpack/applications/modules/state_estimation/se_app_module.hpp"
using namespace pfa; using pbt::Source; using pbt::Ctx; using pbt::Registry;
typedef gridpack::state_estimation::SEAppModule SEApp; typedef gridpack::state_estimation::SENetwork SENet;
struct Meas { std::string type; int bus, el; bool rev; double val, dev; bool bogus; std::string ckt; };   // bus or element (rev: the flow at its "to" end is meant)
typedef std::vector<std::vector<double> > DM;
// the model: angle and magnitude of all buses (angle of the reference bus fixed)
struct Est { const Case *k; Prob p; std::vector<int> ia, iv; int m; };
static Est model(const Case &k) { Est e; e.k = &k; e.p = problem(k); e.ia.assign(k.nb(), -1); e.iv = e.ia; e.m = 0; for (int i = 0; i < k.nb(); i++) if (k.bus[i].type != 4) { if (k.bus[i].type != 3) e.ia[i] = e.m++; e.iv[i] = e.m++; } return e; }
// value of a measurement and its derivatives by the state
static double eval(const Est &e, const Meas &q, const std::vector<double> &v, const std::vector<double> &a, std::vector<double> *row) {
  const Case &k = *e.k; int n = k.nb(); std::vector<Z> u(n); for (int i = 0; i < n; i++) u[i] = std::polar(v[i], a[i]);
  std::vector<Z> da(n), dv(n); Z S; if (row) row->assign(e.m, 0);
  if (q.bus >= 0) {
    int b = q.bus; if (q.bogus || k.bus[b].type == 4) return 0;
    if (q.type == "VM") { if (row) (*row)[e.iv[b]] = 1; return v[b]; }
    if (q.type == "VA") { if (row && e.ia[b] >= 0) (*row)[e.ia[b]] = 1; return a[b]; }
    Z I = 0; for (int j = 0; j < n; j++) if (k.bus[j].type != 4) I += e.p.y[b][j] * u[j]; S = u[b] * std::conj(I);
    for (int j = 0; j < n; j++) { if (k.bus[j].type == 4) continue; Z t = u[b] * std::conj(e.p.y[b][j] * u[j]); da[j] = Z(0, -1) * t; dv[j] = t / v[j]; }
    da[b] += Z(0, 1) * S; dv[b] += S / v[b];
  } else {
    Elem E = k.el[q.el]; if (q.bogus || !E.stat || k.bus[E.f].type == 4 || k.bus[E.t].type == 4) return 0; E.g1 = E.b1 = E.g2 = E.b2 = 0;
    Y2 y = y2(E); int i = E.f, j = E.t; if (q.rev) { std::swap(i, j); std::swap(y.ff, y.tt); std::swap(y.ft, y.tf); }
    S = u[i] * std::conj(y.ff * u[i] + y.ft * u[j]); Z t = u[i] * std::conj(y.ft * u[j]), w = u[i] * std::conj(y.ff * u[i]);
    da[i] = Z(0, 1) * (S - w); dv[i] = (S + w) / v[i]; da[j] = Z(0, -1) * t; dv[j] = t / v[j];
    if (q.type[0] == 'I') { double m = std::abs(S); if (row && m > 1e-12) for (int w = 0; w < 2; w++) { int b = w ? j : i; double x = (S.real() * da[b].real() + S.imag() * da[b].imag()) / m / v[i], z = (S.real() * dv[b].real() + S.imag() * dv[b].imag()) / m / v[i]; if (b == i) z -= m / v[i] / v[i]; if (e.ia[b] >= 0) (*row)[e.ia[b]] = x; (*row)[e.iv[b]] = z; } return m / v[i]; }
  }
  bool re = q.type[0] == 'P';
  if (row) for (int j = 0; j < n; j++) { if (k.bus[j].type == 4) continue; if (e.ia[j] >= 0) (*row)[e.ia[j]] = re ? da[j].real() : da[j].imag(); (*row)[e.iv[j]] = re ? dv[j].real() : dv[j].imag(); }
  return re ? S.real() : S.imag();
}
struct GN { bool ok, easy; int it; double rho, lastpiv; std::vector<double> v, a; };
static bool gn_step(const Est &e, const std::vector<Meas> &ms, std::vector<double> &v, std::vector<double> &a, double &size) {
  DM G(e.m, std::vector<double>(e.m, 0)); std::vector<double> b(e.m, 0), row;
  for (size_t q = 0; q < ms.size(); q++) { double r = ms[q].val - eval(e, ms[q], v, a, &row), w = 1 / ms[q].dev / ms[q].dev; for (int i = 0; i < e.m; i++) if (row[i] != 0) { b[i] += w * row[i] * r; for (int j = 0; j < e.m; j++) G[i][j] += w * row[i] * row[j]; } }
  // scaled, so that the test for singularity means something
  std::vector<double> d(e.m); for (int i = 0; i < e.m; i++) { if (!(G[i][i] > 0)) return false; d[i] = 1 / std::sqrt(G[i][i]); } for (int i = 0; i < e.m; i++) { b[i] *= d[i]; for (int j = 0; j < e.m; j++) G[i][j] *= d[i] * d[j]; }
  for (int c = 0; c < 1; c++) if (!gauss(G, b)) return false;
  for (int i = 0; i < e.m; i++) if (std::fabs(G[i][i]) < 1e-6) return false;
  size = 0; for (int i = 0; i < e.m; i++) { b[i] *= d[i]; if (!std::isfinite(b[i])) return false; size = std::max(size, std::fabs(b[i])); }
  for (int i = 0; i < e.k->nb(); i++) { if (e.ia[i] >= 0) a[i] += b[e.ia[i]]; if (e.iv[i] >= 0) v[i] += b[e.iv[i]]; }
  return true;
}
static GN estimate(const Est &e, const std::vector<Meas> &ms, std::vector<double> v, std::vector<double> a) {
  GN r; r.ok = r.easy = false; r.rho = 0; double last = 0, size = 0; bool wild = false;
  for (r.it = 0; r.it < 40; ) {
    if (!gn_step(e, ms, v, a, size)) return r;
    r.it++; if (size > 3) wild = true; for (int i = 0; i < e.k->nb(); i++) if (e.iv[i] >= 0 && !(v[i] > 0.2 && v[i] < 3)) wild = true;
    if (last > 1e-6 && size > 1e-12) r.rho = size / last; last = size; if (wild) return r;
    if (size < 1e-12) break;
  }
  r.ok = size < 1e-10; r.v = v; r.a = a; r.easy = r.ok && r.it <= 25 && r.rho < 0.5; return r;
}
static std::string mxml(const Case &k, const std::vector<Meas> &ms, const std::map<std::pair<int, int>, bool> &dir, Source &s, int unknown) {
  std::string t = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Measurements>\n";
  for (size_t q = 0; q < ms.size(); q++) {
    const Meas &m = ms[q]; t += "<Measurement>\n<Type>";
    if (m.bus >= 0) t += m.type + "</Type>\n" + str("<Bus>%d</Bus>\n", m.bogus ? unknown : k.bus[m.bus].num);
    else {
      const Elem &E = k.el[m.el]; bool fwd = dir.find(std::make_pair(E.f, E.t)) != dir.end();            // the branch is stored from f to t
      bool against = s.chance(1, 5); int x = k.bus[E.f].num, y = k.bus[E.t].num; if (fwd == against) std::swap(x, y);
      // seen from x: the flow at x is "IJ"
      bool at_x = (x == k.bus[E.f].num) != m.rev; std::string ck = m.bogus ? m.ckt : E.ckt; if (ck[1] == ' ' && s.flag()) ck = ck.substr(0, 1);
      t += m.type.substr(0, 1) + (at_x ? "IJ" : "JI") + "</Type>\n" + str("<FromBus>%d</FromBus>\n<ToBus>%d</ToBus>\n<CKT>", x, y) + ck + "</CKT>\n";
    }
    t += "<Value>" + num(m.val) + "</Value>\n<Deviation>" + num(m.dev) + "</Deviation>\n</Measurement>\n";
  }
  return t + "</Measurements>\n";
}
struct Quiet { int fd; Quiet() { fflush(stdout); std::cout.flush(); fd = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } ~Quiet() { fflush(stdout); std::cout.flush(); dup2(fd, 1); close(fd); } };
static bool se_volts(Ctx &c, const Comm &comm, SENet &net, const Case &k, Volt &r, const char *when) {
  int n = k.nb(); std::vector<double> mine(2 * n, -1e300), all(2 * n);
  for (int q = 0; q < net.numBuses(); q++) if (net.getActiveBus(q)) { int i = k.at.find(net.getOriginalBusIndex(q))->second; double v = net.getBus(q)->getVoltage(), a = net.getBus(q)->getPhase(); mine[i] = std::isfinite(v) ? v : -1e301; mine[n + i] = std::isfinite(a) ? a : -1e301; }
  MPI_Allreduce(&mine[0], &all[0], 2 * n, MPI_DOUBLE, MPI_MAX, raw(comm));
  r.v.assign(all.begin(), all.begin() + n); r.a.assign(all.begin() + n, all.end());
  for (int q = 0; q < net.numBuses(); q++) if (!net.getActiveBus(q)) {
    int i = k.at.find(net.getOriginalBusIndex(q))->second; double v = net.getBus(q)->getVoltage(), a = net.getBus(q)->getPhase(); c.sub++;
    if (!(v == r.v[i] && a == r.a[i])) { c.fail("ghost", "%s: a copy of bus %d has voltage %.15g at %.15g, the original %.15g at %.15g", when, k.bus[i].num, v, a, r.v[i], r.a[i]); break; }
  }
  return all_ok(c, comm);
}
// the record carries the measurement as it is written
static bool prints(const std::string &rec, const Meas &m) { std::string v = str("%.5f", m.val), d = str("%.4f", m.dev); size_t p = rec.find(" " + v + " "), q = rec.rfind(" " + d); return p != std::string::npos && q != std::string::npos && q > p; }
static void se(Source &s, Ctx &c, bool probe) {
  SEApp app; Comm comm = pick_sub(s, c, 1, 6); int np = comm.size();
  Opt o; o.maxb = 4 + 3 * c.size; Case k = gen_case(s, c.size, o); int n = k.nb(), ne = (int)k.el.size();
  Est e = model(k);
  // the state: from the starting point
  std::vector<double> v(n), a(n); for (int i = 0; i < n; i++) { v[i] = s.dec(0.93, 1.07); a[i] = k.bus[i].type == 3 ? e.p.a0[i] : e.p.a0[k.slack()] + s.dec(-0.25, 0.25); }
  // measurements
  std::vector<Meas> ms; int plan = s.range(0, 3); bool noisy = s.flag(); int maxdev = s.range(0, 1);
  struct A { static void add(Source &s, std::vector<Meas> &ms, const std::string &t, int bus, int el, bool rev, int md) { Meas m; m.type = t; m.bus = bus; m.el = el; m.rev = rev; m.bogus = false; m.val = 0; m.dev = md ? s.dec(0.002, 0.05) : 0.01; ms.push_back(m); } };
  static const char *BT[] = {"VM", "PI", "QI", "VA"}; static const char *ET[] = {"P", "Q", "I"};
  for (int i = 0; i < n; i++) {
    if (plan == 0 || k.bus[i].type == 3) A::add(s, ms, "VM", i, -1, false, maxdev);
    if (plan == 1 && k.bus[i].type != 4) { A::add(s, ms, "PI", i, -1, false, maxdev); A::add(s, ms, "QI", i, -1, false, maxdev); }
    if (plan == 2 && k.bus[i].type != 4) { if (s.chance(2, 3)) A::add(s, ms, "VM", i, -1, false, maxdev); if (s.chance(2, 3)) A::add(s, ms, "VA", i, -1, false, maxdev); }
  }
  for (int q = 0; q < ne; q++) {
    int w = plan == 3 ? 3 : plan == 0 ? s.range(1, 3) : s.range(0, 5); bool rev = s.flag(); if (w > 3) continue;
    if (w & 1) A::add(s, ms, "P", -1, q, rev, maxdev); if (w & 2) A::add(s, ms, "Q", -1, q, rev, maxdev);
  }
  int extra = s.range(0, n + 2); for (int q = 0; q < extra; q++) { if (s.flag()) { int t = s.range(0, 3); A::add(s, ms, BT[t], s.range(0, n - 1), -1, false, maxdev); } else { int t = s.chance(1, 3) ? 2 : s.range(0, 1); int w = s.range(0, ne - 1); bool rev = s.flag(); A::add(s, ms, ET[t], -1, w, rev, maxdev); } }
  int nbog = s.chance(1, 8) ? s.range(1, 2) : 0; int unknown = 1; while (k.at.count(unknown)) unknown++;
  int npi = 0, ni = 0, nva = 0, niso = 0, noff = 0;
  for (size_t q = 0; q < ms.size(); q++) {
    Meas &m = ms[q]; double noise = s.dec(-2, 2); m.val = eval(e, m, v, a, 0) + (noisy ? noise * m.dev : 0);
    npi += m.type == "PI" || m.type == "QI"; ni += m.type == "I"; nva += m.type == "VA"; if (m.bus >= 0 ? k.bus[m.bus].type == 4 : k.bus[k.el[m.el].f].type == 4 || k.bus[k.el[m.el].t].type == 4) niso++; else if (m.bus < 0 && !k.el[m.el].stat) noff++;
  }
  for (int q = 0; q < nbog; q++) { Meas m; m.bogus = true; m.rev = false; m.bus = -1; m.el = -1; m.ckt = "??"; if (s.flag()) { m.bus = 0; m.type = BT[s.range(0, 3)]; } else { m.el = s.range(0, ne - 1); m.type = ET[s.range(0, 2)]; } m.val = s.dec(-3, 3); m.dev = 0.01; ms.insert(ms.begin() + s.range(0, (int)ms.size()), m); }
  if (ms.size() > 1 && s.flag()) { std::vector<int> p = s.perm((int)ms.size()); std::vector<Meas> w(ms); for (size_t q = 0; q < p.size(); q++) ms[q] = w[p[q]]; }
  GN g = estimate(e, ms, e.p.v0, e.p.a0);
  std::vector<std::string> lines = raw33(k, &s); bool cloned = s.chance(1, 5), twice = s.chance(1, 5), text = s.flag(); std::string lin = np == 1 && s.flag() ? "-ksp_type preonly -pc_type lu" : s.chance(1, 3) ? "-ksp_type gmres -pc_type lu -pc_factor_mat_solver_type superlu_dist -ksp_rtol 1e-10" : "-ksp_type richardson -pc_type lu -pc_factor_mat_solver_type superlu_dist -ksp_max_it 8"; int tolx = s.pick({6, 8, 10});
  int red = (int)ms.size() - e.m;
  c.label(g.easy ? "easy" : g.ok ? "slow" : "not observable or no solution found"); if (noisy) c.label("with errors"); else c.label("exact"); if (npi) c.label("injections"); if (ni) c.label("currents"); if (nva) c.label("angles"); if (niso) c.label("measurements at isolated buses"); if (noff) c.label("flow of an element out of service"); if (nbog) c.label("unknown bus or element"); if (red > 0) c.label("redundant"); if (cloned) c.label("copied network");
  c.nontrivial = g.easy && n >= 3 && red > 0;
  c.sample = strf("%d buses %d elements, %d measurements of %d unknowns (%s), %s, %d iterations", n, ne, (int)ms.size(), e.m, noisy ? "with errors" : "exact", g.easy ? "easy" : g.ok ? "slow" : "unsolved", g.it);
  if (!g.easy) return;
  std::string base = group_file(c, comm, "case"), file = base + ".raw", mf = base + "_meas.xml"; write_file(c, comm, file, lines);
  std::vector<KV> kv; kv.push_back(KV("networkConfiguration_v33", file)); kv.push_back(KV("measurementList", mf)); kv.push_back(KV("maxIteration", "40")); double tol = std::pow(10.0, -tolx); kv.push_back(KV("tolerance", str("%.3e", tol)));
  kv.push_back(KV("LinearSolver", "<SolutionTolerance>1e-14</SolutionTolerance><RelativeTolerance>1e-8</RelativeTolerance><PETScOptions>" + lin + "</PETScOptions>"));
  boost::shared_ptr<CF> cf = config(comm, xml("State_estimation", kv)); boost::shared_ptr<SENet> net(new SENet(comm)); boost::shared_ptr<Net> pf;
  if (cloned) { pf.reset(new Net(comm)); { gridpack::parser::PTI33_parser<Net> pr(pf); pr.parse(file.c_str()); } pf->partition(); pf->clone<gridpack::state_estimation::SEBus, gridpack::state_estimation::SEBranch>(net); }
  { Quiet quiet; if (cloned) app.setNetwork(net, cf.get()); else app.readNetwork(net, cf.get()); }
  // directions of the branches in the network
  std::map<std::pair<int, int>, bool> dir; { std::vector<int> mine(n * n, 0), all(n * n); for (int q = 0; q < net->numBranches(); q++) { int x, y; net->getOriginalBranchEndpoints(q, &x, &y); mine[k.at[x] * n + k.at[y]] = 1; } MPI_Allreduce(&mine[0], &all[0], n * n, MPI_INT, MPI_MAX, raw(comm)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (all[i * n + j]) dir[std::make_pair(i, j)] = true; }
  std::string mx = mxml(k, ms, dir, s, unknown); write_file(c, comm, mf, std::vector<std::string>(1, mx));
  if (getenv("PBT_SHOW") && c.rank == 0) { for (size_t q = 0; q < lines.size(); q++) fprintf(stderr, "%s\n", lines[q].c_str()); fprintf(stderr, "%s%s\n", mx.c_str(), c.sample.c_str()); for (int i = 0; i < n; i++) fprintf(stderr, "bus %d: estimate %.9g at %.9g, state %.9g at %.9g, start %.9g at %.9g\n", k.bus[i].num, g.v[i], g.a[i], v[i], a[i], e.p.v0[i], e.p.a0[i]); }
  { Quiet quiet; app.initialize(); app.readMeasurements(); }
  for (int round = 0; round < (twice ? 2 : 1); round++) {
    const char *when = round ? "solved again" : "solved"; { Quiet quiet; app.solve(); }
    Volt u; if (!se_volts(c, comm, *net, k, u, when)) return;
    double lim = 1e-6 + 3 * tol;
    for (int i = 0; i < n && !c.failed; i++) {
      if (k.bus[i].type == 4) continue; c.sub++;
      if (!(u.v[i] > -1e100) || !(u.a[i] > -1e100)) c.fail("nan", "%s: the voltage of bus %d is not a number", when, k.bus[i].num);
      else if (k.bus[i].type == 3 && std::fabs(u.a[i] - e.p.a0[i]) > 1e-12) c.fail("reference angle", "%s: the reference bus %d has angle %.12g instead of %.12g", when, k.bus[i].num, u.a[i], e.p.a0[i]);
      else if (!(std::fabs(u.v[i] - g.v[i]) <= lim && std::fabs(wrap(u.a[i] - g.a[i])) <= lim)) c.fail("estimate", "%s: the state estimated for bus %d is %.9g at %.9g rad; the weighted sum of squares is least at %.9g and %.9g (the measurements were %s)", when, k.bus[i].num, u.v[i], u.a[i], g.v[i], g.a[i], noisy ? "taken with errors" : "exact");
    }
    if (!all_ok(c, comm)) return;
    // measurements and estimates as written
    if (text) {
      std::multiset<std::string> used; 
      for (int q = 0; q < net->numBuses() && !c.failed; q++) { if (!net->getActiveBus(q)) continue; int i = k.at[net->getOriginalBusIndex(q)]; std::vector<char> buf(65536, 0); bool w = net->getBus(q)->serialWrite(&buf[0], 60000, "se"); if (!w) buf[0] = 0;
        std::vector<Meas> todo; for (size_t x = 0; x < ms.size(); x++) if (ms[x].bus == i && !ms[x].bogus && ms[x].type != "VA" && k.bus[i].type != 4) todo.push_back(ms[x]);
        std::vector<std::string> ln = split_lines(std::vector<std::string>(1, std::string(&buf[0])));
        for (size_t x = 0; x < ln.size() && !c.failed; x++) { char ty[16]; int b; double z, es, df, dv; c.sub++; if (sscanf(ln[x].c_str(), "%15s %d %lf %lf %lf %lf", ty, &b, &z, &es, &df, &dv) != 6) { c.fail("format", "%s: bus record '%s'", when, ln[x].c_str()); break; }
          size_t y = 0; while (y < todo.size() && !(todo[y].type == ty && b == k.bus[i].num && prints(ln[x], todo[y]))) y++; if (y == todo.size()) { c.fail("record", "%s: bus record '%s' belongs to no measurement", when, ln[x].c_str()); break; }
          double h = eval(e, todo[y], u.v, u.a, 0); if (std::fabs(es - h) > 2e-5 || std::fabs(df - (h - todo[y].val)) > 2e-5) c.fail("written estimate", "%s: record '%s', the voltages imply %.9g", when, ln[x].c_str(), h); todo.erase(todo.begin() + y); }
        if (!c.failed && todo.size()) c.fail("record missing", "%s: %d measurements of type %s… at bus %d are not written", when, (int)todo.size(), todo[0].type.c_str(), k.bus[i].num); }
      for (int q = 0; q < net->numBranches() && !c.failed; q++) { if (!net->getActiveBranch(q)) continue; int A, B; net->getOriginalBranchEndpoints(q, &A, &B); int i = k.at[A], j = k.at[B]; std::vector<char> buf(65536, 0); bool w = net->getBranch(q)->serialWrite(&buf[0], 60000, "se"); if (!w) buf[0] = 0;
        std::vector<Meas> todo; for (size_t x = 0; x < ms.size(); x++) { const Meas &m = ms[x]; if (m.bus >= 0 || m.bogus || m.type == "I") continue; const Elem &E = k.el[m.el]; if (k.bus[i].type == 4 || k.bus[j].type == 4) continue; if ((E.f == i && E.t == j) || (E.f == j && E.t == i)) todo.push_back(m); }
        std::vector<std::string> ln = split_lines(std::vector<std::string>(1, std::string(&buf[0])));
        for (size_t x = 0; x < ln.size() && !c.failed; x++) { char ty[16]; int a1, b1, w1 = 0; double z, es, df, dv; c.sub++; if (sscanf(ln[x].c_str(), "%15s %d %d%n", ty, &a1, &b1, &w1) != 3 || (int)ln[x].size() < w1 + 5 || sscanf(ln[x].c_str() + w1 + 5, "%lf %lf %lf %lf", &z, &es, &df, &dv) != 4 || a1 != A || b1 != B) { c.fail("format", "%s: branch record '%s'", when, ln[x].c_str()); break; }
          std::string id = ln[x].substr(w1 + 3, 2); if (id == "??") continue; size_t y = 0; for (; y < todo.size(); y++) { const Elem &E = k.el[todo[y].el]; bool at1 = (E.f == i) != todo[y].rev; if (todo[y].type + (at1 ? "IJ" : "JI") == ty && E.ckt == id && prints(ln[x], todo[y])) break; }
          if (y == todo.size()) { c.fail("record", "%s: branch record '%s' belongs to no measurement", when, ln[x].c_str()); break; }
          double h = eval(e, todo[y], u.v, u.a, 0); if (std::fabs(es - h) > 2e-5 || std::fabs(df - (h - todo[y].val)) > 2e-5) c.fail("written estimate", "%s: record '%s' (%s), the voltages imply %.9g", when, ln[x].c_str(), k.el[todo[y].el].stat ? "in service" : "out of service", h); todo.erase(todo.begin() + y); }
        if (!c.failed && todo.size()) c.fail("record missing", "%s: %d measurements of type %s… of the branch from %d to %d are not written", when, (int)todo.size(), todo[0].type.c_str(), A, B); }
      if (!all_ok(c, comm)) return;
    }
  }
  Volt u; if (!se_volts(c, comm, *net, k, u, "at the end")) return;
  app.saveData();
  for (int q = 0; q < net->numBuses() && !c.failed; q++) { int i = k.at[net->getOriginalBusIndex(q)]; if (k.bus[i].type == 4) continue; double V = 0, A = 0; c.sub++; boost::shared_ptr<gridpack::component::DataCollection> d = net->getBusData(q);
    if (!d->getValue("BUS_SE_VMAG", &V) || !d->getValue("BUS_SE_VANG", &A) || std::fabs(V - u.v[i]) > 1e-12 || std::fabs(wrap(A * M_PI / 180 - u.a[i])) > 1e-9) c.fail("saved voltage", "bus %d is saved with %.12g at %.12g degrees instead of %.12g at %.12g", k.bus[i].num, V, A, u.v[i], u.a[i] * 180 / M_PI); }
  if (probe) for (int q = 0; q < net->numBuses() && !c.failed; q++) { int i = k.at[net->getOriginalBusIndex(q)], ng = 0; if (k.bus[i].type == 4) continue; boost::shared_ptr<gridpack::component::DataCollection> d = net->getBusData(q); d->getValue(GENERATOR_NUMBER, &ng);
    for (int g = 0; g < ng && !c.failed; g++) { double P, Q; if (!d->getValue("GENERATOR_SE_PGEN", &P, g) || !d->getValue("GENERATOR_SE_QGEN", &Q, g)) c.fail("saved generators", "GENERATOR_SE_PGEN and GENERATOR_SE_QGEN of the generators at bus %d are not saved", k.bus[i].num); } }
  all_ok(c, comm);
}
static void f03(Source &s, Ctx &c) { se(s, c, false); }
static void f03x(Source &s, Ctx &c) { se(s, c, true); }            // the recorded finding
int main(int argc, char **argv) {
  Registry r; r["F03"] = f03; r["F03X"] = f03x;
  return pbt_main(argc, argv, r);
}
