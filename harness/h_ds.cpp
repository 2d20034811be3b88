// G02: dynamic simulation.
#include "pfapp.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <set>
#include "gridpack/applications/modules/dynamic_simulation_full_y/dsf_app_module.hpp"
using namespace pfa; using pbt::Source; using pbt::Ctx; using pbt::Registry;
typedef gridpack::dynamic_simulation::DSFullApp DSApp; typedef gridpack::dynamic_simulation::DSFullNetwork DSNet;
typedef gridpack::dynamic_simulation::DSFullBus DSBus; typedef gridpack::dynamic_simulation::DSFullBranch DSBranch;
struct Quiet { int fd; Quiet() { fflush(stdout); std::cout.flush(); fd = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } ~Quiet() { fflush(stdout); std::cout.flush(); dup2(fd, 1); close(fd); } };
static const double W0 = 2 * M_PI * 60;
enum { NONE, CLS, ROU, SAL };
struct Mach { int gen, kind; double H, D, Xd, Xq, Xdp, Xqp, Xdpp, Xl, Tdop, Tdopp, Tqop, Tqopp, S1, S12; std::string extra; };
struct Event { int kind, bus, el, gen, at, end, status; double g, b; bool swap, shortid; double early; };    // 0 fault, 1 line, 2 machine; steps
// ---- the reference ---------------------------------------------------------------
struct Ref {
  struct M { Mach m; int bus; bool on, part; double mb, sb, E, Efd, Pm, P, Q; double x[6], xp[6], d0[6], d1[6]; int n; Z I; };
  int n; double sb; ZM y, inv; std::vector<int> live; std::vector<M> ms; std::vector<Z> V; bool fresh;
  static double sat(const Mach &m, double x) {            // quadratic through S(1.0) and S(1.2)
    if (m.S1 == 0) return 0; double r = std::sqrt(m.S12 / m.S1), A = (r - 1.2) / (r - 1), B = m.S1 / (1 - A) / (1 - A); return x > A ? B * (x - A) * (x - A) : 0;
  }
  static Z inner(const M &q, const double *x) {           // voltage behind the reactance, network frame
    const Mach &m = q.m; Z r = std::polar(1.0, x[0]);
    if (m.kind == CLS) return q.E * r;
    double pd = x[2] * (m.Xdpp - m.Xl) / (m.Xdp - m.Xl) + x[3] * (m.Xdp - m.Xdpp) / (m.Xdp - m.Xl), pq = x[4];
    if (m.kind == ROU) pq = -x[5] * (m.Xdpp - m.Xl) / (m.Xqp - m.Xl) - x[4] * (m.Xqp - m.Xdpp) / (m.Xqp - m.Xl);
    return Z(-pq, pd) * r * Z(0, -1);
  }
  static double reac(const Mach &m) { return m.kind == CLS ? m.Xdp : m.Xdpp; }
  static void deriv(M &q, const double *x, Z V, double *d) {
    const Mach &m = q.m; Z e = inner(q, x), I = (e - V) / Z(0, reac(m)); q.I = I; Z S = V * std::conj(I); q.P = S.real(); q.Q = S.imag();
    double Te = (e * std::conj(I)).real();
    d[0] = x[1] * W0; d[1] = ((q.Pm - m.D * x[1]) / (1 + x[1]) - Te) / (2 * m.H); if (m.kind == CLS) return;
    Z i = I * std::polar(1.0, M_PI / 2 - x[0]); double Id = i.real(), Iq = i.imag(), h = m.Xdp - m.Xl;
    double t = -x[3] - h * Id + x[2];
    d[2] = (q.Efd - x[2] * (1 + sat(m, x[2])) - (m.Xd - m.Xdp) * (Id + (m.Xdp - m.Xdpp) / (h * h) * t)) / m.Tdop; d[3] = t / m.Tdopp;
    if (m.kind == SAL) { d[4] = (-x[4] - (m.Xq - m.Xdpp) * Iq) / m.Tqopp; return; }
    double g = m.Xqp - m.Xl, u = -x[4] + g * Iq + x[5];
    d[4] = u / m.Tqopp; d[5] = (-x[5] + (m.Xq - m.Xqp) * (Iq - (m.Xqp - m.Xdpp) / (g * g) * u)) / m.Tqop;
  }
  void init(M &q, Z V, double P, double Q, double mbase) {
    const Mach &m = q.m; q.sb = sb; q.mb = mbase; q.on = true; double s = std::hypot(P, Q) * sb; if (m.kind != CLS && s > q.mb) q.mb = 1.2 * s;
    P *= sb / q.mb; Q *= sb / q.mb; Z I = std::conj(Z(P, Q) / V); for (int j = 0; j < 6; j++) q.x[j] = 0; q.Efd = 0;
    if (m.kind == CLS) { q.n = 2; Z e = V + Z(0, m.Xdp) * I; q.E = std::abs(e); q.x[0] = std::arg(e); q.Pm = P; return; }
    Z eq = V + Z(0, m.Xq) * I; double dl = std::arg(eq); Z r = std::polar(1.0, M_PI / 2 - dl), i = I * r, e = (V + Z(0, m.Xdpp) * I) * r; double Id = i.real(), Iq = i.imag(), pd = e.imag();
    q.x[0] = dl; q.x[2] = pd + (m.Xdp - m.Xdpp) * Id; q.x[3] = q.x[2] - (m.Xdp - m.Xl) * Id; q.Efd = q.x[2] * (1 + sat(m, q.x[2])) + (m.Xd - m.Xdp) * Id; q.Pm = P;
    if (m.kind == SAL) { q.n = 5; q.x[4] = -(m.Xq - m.Xdpp) * Iq; } else { q.n = 6; q.x[5] = (m.Xq - m.Xqp) * Iq; q.x[4] = q.x[5] + (m.Xqp - m.Xl) * Iq; }
  }
  bool factor() {
    int k = (int)live.size(); std::vector<std::vector<Z> > a(k, std::vector<Z>(2 * k)); for (int i = 0; i < k; i++) { for (int j = 0; j < k; j++) a[i][j] = y[live[i]][live[j]]; a[i][k + i] = 1; }
    for (size_t q = 0; q < ms.size(); q++) if (ms[q].on) { int i = std::find(live.begin(), live.end(), ms[q].bus) - live.begin(); a[i][i] += 1.0 / Z(0, reac(ms[q].m)) * ms[q].mb / sb; }
    double big = 0; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) big = std::max(big, std::abs(a[i][j]));
    for (int c = 0; c < k; c++) { int p = c; for (int r = c + 1; r < k; r++) if (std::abs(a[r][c]) > std::abs(a[p][c])) p = r; if (!(std::abs(a[p][c]) > 1e-13 * big)) return false; std::swap(a[p], a[c]); Z f = 1.0 / a[c][c]; for (int j = 0; j < 2 * k; j++) a[c][j] *= f;
      for (int r = 0; r < k; r++) if (r != c && a[r][c] != 0.0) { Z g = a[r][c]; for (int j = 0; j < 2 * k; j++) a[r][j] -= g * a[c][j]; } }
    inv.assign(k, std::vector<Z>(k)); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) inv[i][j] = a[i][k + j]; return true;
  }
  void network(bool pred) {
    int k = (int)live.size(); std::vector<Z> cur(n); for (size_t q = 0; q < ms.size(); q++) if (ms[q].on) cur[ms[q].bus] += inner(ms[q], pred ? ms[q].xp : ms[q].x) / Z(0, reac(ms[q].m)) * ms[q].mb / sb;
    for (int i = 0; i < k; i++) { Z v = 0; for (int j = 0; j < k; j++) v += inv[i][j] * cur[live[j]]; V[live[i]] = v; }
  }
  void step(double h) {
    network(false); for (size_t q = 0; q < ms.size(); q++) if (ms[q].on) { M &m = ms[q]; deriv(m, m.x, V[m.bus], m.d0); for (int j = 0; j < m.n; j++) m.xp[j] = m.x[j] + h * m.d0[j]; }
    network(true); for (size_t q = 0; q < ms.size(); q++) if (ms[q].on) { M &m = ms[q]; deriv(m, m.xp, V[m.bus], m.d1); for (int j = 0; j < m.n; j++) m.x[j] += h / 2 * (m.d0[j] + m.d1[j]); }
  }
};
// ---- running the application -------------------------------------------------------
static int components(const Case &k, const std::set<int> &off) {
  std::vector<int> r(k.nb()); for (int i = 0; i < k.nb(); i++) r[i] = i; int n = 0;
  for (size_t q = 0; q < k.el.size(); q++) { const Elem &e = k.el[q]; if (!e.stat || off.count((int)q) || k.bus[e.f].type == 4 || k.bus[e.t].type == 4) continue; int a = e.f, b = e.t; while (r[a] != a) a = r[a]; while (r[b] != b) b = r[b]; r[a] = b; }
  for (int i = 0; i < k.nb(); i++) n += r[i] == i; return n;
}
struct Run {
  boost::shared_ptr<Net> pf; boost::shared_ptr<DSNet> net; boost::shared_ptr<CF> cf; boost::shared_ptr<DSApp> app;
  std::vector<double> pg, qg; Volt u; bool solved;
};
static std::string machine(const Case &k, const Mach &m) {
  const Gen &g = k.gen[m.gen]; std::string id = g.id; int b = k.bus[g.bus].num;
#define N(x) num(m.x) + " "
  std::string t = str("%d ", b);
  if (m.kind == CLS) return t + "'GENCLS' '" + id + "' " + N(H) + N(D) + "/";
  if (m.kind == ROU) return t + "'GENROU' '" + id + "' " + N(Tdop) + N(Tdopp) + N(Tqop) + N(Tqopp) + N(H) + N(D) + N(Xd) + N(Xq) + N(Xdp) + N(Xqp) + N(Xdpp) + N(Xl) + N(S1) + N(S12) + "/";
  return t + "'GENSAL' '" + id + "' " + N(Tdop) + N(Tdopp) + N(Tqopp) + N(H) + N(D) + N(Xd) + N(Xq) + N(Xdp) + N(Xdpp) + N(Xl) + N(S1) + N(S12) + "/";
#undef N
}
static double when(int step, double early, double h) { return step ? (step - early) * h : 0; }   // applied in the first step not before it
static std::string events_xml(const Case &k, const std::vector<Event> &ev, double h) {
  std::string t;
  for (size_t q = 0; q < ev.size(); q++) { const Event &e = ev[q];
    if (e.kind == 0) t += str("<BusFault><begin>%.7f</begin><end>%.7f</end><bus>%d</bus><yfault>%.10g %.10g</yfault></BusFault>\n", when(e.at, e.early, h), when(e.end, e.early, h), k.bus[e.bus].num, e.g, e.b);
    else if (e.kind == 1) { const Elem &l = k.el[e.el]; int a = k.bus[l.f].num, b = k.bus[l.t].num; if (e.swap) std::swap(a, b); std::string id = l.ckt; if (e.shortid && id[1] == ' ') id = id.substr(0, 1); t += str("<LineStatus><time>%.7f</time><line>%d %d</line><id>%s</id><status>%d</status></LineStatus>\n", when(e.at, e.early, h), a, b, id.c_str(), e.status); }
    else { const Gen &g = k.gen[e.gen]; std::string id = g.id; if (e.shortid && id[1] == ' ') id = id.substr(0, 1); t += str("<GenStatus><time>%.7f</time><bus>%d</bus><id>%s</id><status>%d</status></GenStatus>\n", when(e.at, e.early, h), k.bus[g.bus].num, id.c_str(), e.status); } }
  return t;
}
// everybody's values of the machines (by position in the case) and buses
static void outputs(const Comm &comm, Run &r, const Case &k, const std::vector<int> &at, std::vector<double> &bv, std::vector<double> &gv) {
  int n = k.nb(), ng = (int)k.gen.size(); std::vector<double> mine(2 * n + 4 * ng + 1, -1e300), all(2 * n + 4 * ng + 1);
  for (int q = 0; q < r.net->numBuses(); q++) { if (!r.net->getActiveBus(q)) continue; int i = k.at.find(r.net->getOriginalBusIndex(q))->second; DSBus *b = r.net->getBus(q).get(); Z v = b->getComplexVoltage(); mine[2 * i] = std::isfinite(v.real()) ? v.real() : -1e301; mine[2 * i + 1] = std::isfinite(v.imag()) ? v.imag() : -1e301;
    int m = 0; r.net->getBusData(q)->getValue(GENERATOR_NUMBER, &m); for (int j = 0; j < m; j++) { std::string id; r.net->getBusData(q)->getValue(GENERATOR_ID, &id, j); for (int g = 0; g < ng; g++) if (at[g] >= 0 && k.gen[g].bus == i && k.gen[g].id == id) { double w[4] = {0, 0, 0, 0}; b->getWatchedValues(j, &w[1], &w[0], &w[2], &w[3]); for (int z = 0; z < 4; z++) mine[2 * n + 4 * g + z] = std::isfinite(w[z]) ? w[z] : -1e301; } } }
  MPI_Allreduce(&mine[0], &all[0], (int)all.size(), MPI_DOUBLE, MPI_MAX, raw(comm)); bv.assign(all.begin(), all.begin() + 2 * n); gv.assign(all.begin() + 2 * n, all.end());
}
static void add(Ref &a, Ref &b, int i, int j, Z v) { a.y[i][j] += v; b.y[i][j] += v; }
static double distance(const Ref &a, const Ref &b) {
  double d = 0; for (size_t i = 0; i < a.V.size(); i++) d = std::max(d, std::abs(a.V[i] - b.V[i])); for (size_t q = 0; q < a.ms.size(); q++) for (int j = 0; j < a.ms[q].n; j++) { double e = std::fabs(a.ms[q].x[j] - b.ms[q].x[j]); if (!(e <= d)) d = e; } return d;
}
static void g02(Source &s, Ctx &c) {
  App pfapp; Comm comm = pick_sub(s, c, 1, 6); int np = comm.size();
  Opt o; o.maxb = 3 + 3 * c.size; o.stress = s.pick({5, 8, 10}) / 10.0; Case k = gen_case(s, c.size, o); int n = k.nb(), ne = (int)k.el.size(), ng = (int)k.gen.size();
  for (int g = 0; g < ng; g++) { k.gen[g].mbase = s.flag() ? k.sbase : k.sbase * s.dec(0.3, 3); k.gen[g].zx = s.dec(0.15, 0.4); }
  Prob p = problem(k); Sol sol = newton(p, p.v0, p.a0);
  // machines
  std::vector<Mach> ms; int common = s.range(0, 3);
  for (int g = 0; g < ng; g++) {
    Mach m; m.gen = g; m.kind = s.chance(1, 10) ? NONE : common == 3 || s.chance(1, 5) ? s.range(1, 3) : common + 1; m.H = s.dec(2, 9); m.D = s.flag() ? 0 : s.dec(0, 3); m.Xl = s.dec(0.08, 0.14); m.Xdpp = m.Xl + s.dec(0.04, 0.1); m.Xdp = m.Xdpp + s.dec(0.03, 0.15); m.Xqp = m.Xdp + s.dec(0.02, 0.3); m.Xq = m.Xqp + s.dec(0.3, 1); m.Xd = m.Xq + s.dec(0, 0.3);
    m.Tdop = s.dec(3, 9); m.Tdopp = s.dec(0.03, 0.08); m.Tqop = s.dec(0.3, 1.5); m.Tqopp = s.dec(0.04, 0.1); m.S1 = s.chance(1, 3) ? 0 : s.dec(0.02, 0.2); m.S12 = m.S1 * std::pow(s.dec(1.3, 2.2), 2); if (m.kind == CLS) m.Xdp = k.gen[g].zx; ms.push_back(m);
  }
  double h = s.pick({2, 4, 5, 8}) / 1000.0; int steps = s.range(3, 60);
  // events
  std::vector<Event> ev; std::set<int> offl, offg, faulted; int t = 0, nev = s.chance(1, 4) ? 0 : s.range(1, 5); bool overlap = false;
  for (int q = 0; q < nev; q++) {
    Event e; e.kind = s.range(0, 2); e.at = t = std::min(steps, t + s.range(0, 12)); e.end = e.at + s.range(1, 15); e.bus = s.range(0, n - 1); e.el = s.range(0, ne - 1); e.gen = ng ? s.range(0, ng - 1) : 0; e.g = s.flag() ? 0 : s.dec(0, 5); e.b = s.flag() ? 1e5 : s.dec(0, 20); e.swap = s.flag(); e.shortid = s.flag(); e.status = 0; e.early = s.chance(1, 3) ? s.range(1, 9) / 10.0 : 0;
    if (s.flag() && !offl.empty()) { e.kind = 1; e.el = *offl.begin(); } else if (s.flag() && !offg.empty()) { e.kind = 2; e.gen = *offg.begin(); }
    if (e.kind == 0) { if (k.bus[e.bus].type == 4 || faulted.count(e.bus)) continue; faulted.insert(e.bus); for (size_t w = 0; w < ev.size(); w++) if (ev[w].kind == 0 && ev[w].end >= e.at) overlap = true; }
    else if (e.kind == 1) { const Elem &l = k.el[e.el]; if (!l.stat || k.bus[l.f].type == 4 || k.bus[l.t].type == 4) continue; if (offl.count(e.el)) { e.status = 1; offl.erase(e.el); } else { int was = components(k, offl); offl.insert(e.el); if (components(k, offl) != was) { offl.erase(e.el); continue; } } }
    else { if (!ng || !k.gen[e.gen].stat || ms[e.gen].kind == NONE || k.bus[k.gen[e.gen].bus].type == 4) continue; if (offg.count(e.gen)) { e.status = 1; offg.erase(e.gen); } else { int left = 0; for (int g = 0; g < ng; g++) left += g != e.gen && k.gen[g].stat && ms[g].kind != NONE && k.gen[g].pg >= 0 && k.bus[k.gen[g].bus].type != 4 && !offg.count(g); if (!left) continue; offg.insert(e.gen); } }
    ev.push_back(e);
  }
  std::vector<Event> order(ev); if (order.size() > 1 && s.flag()) { std::vector<int> w = s.perm((int)order.size()); for (size_t q = 0; q < w.size(); q++) order[q] = ev[w[q]]; }
  bool clash = false; for (size_t a = 0; a < ev.size(); a++) for (size_t b = a + 1; b < ev.size(); b++) if (ev[a].kind == ev[b].kind && ev[a].kind && ev[a].at == ev[b].at && (ev[a].kind == 1 ? ev[a].el == ev[b].el : ev[a].gen == ev[b].gen)) clash = true; if (clash) order = ev;
  bool iter = s.chance(1, 4), sysbase = s.flag(), pieces = s.flag(); std::string lin = std::string("-ksp_divtol 1e60 ") + (np == 1 && s.flag() ? "-ksp_type richardson -pc_type lu -ksp_max_it 8" : s.chance(1, 3) ? "-ksp_type gmres -pc_type lu -pc_factor_mat_solver_type superlu_dist -ksp_rtol 1e-12" : "-ksp_type richardson -pc_type lu -pc_factor_mat_solver_type superlu_dist -ksp_max_it 8"); int piece = s.range(1, 20); double cut = s.chance(1, 4) ? s.range(1, 9) / 10.0 : 0; bool again = s.chance(1, 3);
  std::vector<std::string> lines = raw33(k, &s), dyr; for (int g = 0; g < ng; g++) if (ms[g].kind != NONE) dyr.push_back(machine(k, ms[g])); shuffle(&s, dyr);
  int nm = 0; for (int g = 0; g < ng; g++) nm += ms[g].kind != NONE && k.gen[g].stat && k.bus[k.gen[g].bus].type != 4;
  c.label(!sol.easy ? "no easy power flow" : "power flow"); if (overlap) c.label("overlapping faults"); for (size_t q = 0; q < ev.size(); q++) c.label(ev[q].kind == 0 ? "fault" : ev[q].kind == 1 ? ev[q].status ? "line closed" : "line opened" : ev[q].status ? "machine back" : "machine tripped");
  c.nontrivial = sol.easy && nm > 1 && ev.size() > 0; c.sample = strf("%d buses, %d machines, %d events, %d steps of %g s", n, nm, (int)ev.size(), steps, h);
  if (!sol.easy || !nm) return;
  std::string base = group_file(c, comm, "case"), file = base + ".raw", df = base + ".dyr"; write_file(c, comm, file, lines); write_file(c, comm, df, dyr);
  Set ps; ps.tol = 1e-10; ps.maxit = 30; ps.qlim = 0; ps.nl = false; ps.newton = false; ps.lin = lin;
  std::vector<KV> kv; kv.push_back(KV("generatorParameters", df)); kv.push_back(KV("simulationTime", str("%.6f", steps * h))); kv.push_back(KV("timeStep", str("%.6f", h))); kv.push_back(KV("Events", events_xml(k, order, h))); if (iter) kv.push_back(KV("iterativeNetworkInterface", "true")); if (!sysbase) kv.push_back(KV("generatorObservationPowerSystemBase", "false"));
  kv.push_back(KV("LinearSolver", "<SolutionTolerance>1e-14</SolutionTolerance><RelativeTolerance>1e-8</RelativeTolerance><PETScOptions>" + lin + "</PETScOptions>"));
  std::string body = section(ps, file) + xml("Dynamic_simulation", kv);
  if (getenv("PBT_SHOW") && c.rank == 0) { for (size_t q = 0; q < lines.size(); q++) fprintf(stderr, "%s\n", lines[q].c_str()); for (size_t q = 0; q < dyr.size(); q++) fprintf(stderr, "%s\n", dyr[q].c_str()); fprintf(stderr, "%s\n%s\n", body.c_str(), c.sample.c_str()); }
  Run r; r.cf = config(comm, body); r.pf.reset(new Net(comm)); r.net.reset(new DSNet(comm));
  { Quiet quiet; pfapp.readNetwork(r.pf, r.cf.get()); pfapp.initialize(); r.solved = pfapp.solve(); pfapp.saveData(); }
  if (!r.solved) { c.label("power flow not solved"); return; }
  if (!volts(c, comm, *r.pf, k, r.u, "power flow")) return;
  // powers of the generators
  { std::vector<double> mine(2 * ng + 1, -1e300), all(2 * ng + 1); for (int q = 0; q < r.pf->numBuses(); q++) { if (!r.pf->getActiveBus(q)) continue; int i = k.at[r.pf->getOriginalBusIndex(q)], m = 0; boost::shared_ptr<gridpack::component::DataCollection> d = r.pf->getBusData(q); d->getValue(GENERATOR_NUMBER, &m);
      for (int j = 0; j < m; j++) { std::string id; double P = 0, Q = 0; d->getValue(GENERATOR_ID, &id, j); d->getValue("GENERATOR_PF_PGEN", &P, j); d->getValue("GENERATOR_PF_QGEN", &Q, j); for (int g = 0; g < ng; g++) if (k.gen[g].bus == i && k.gen[g].id == id) mine[2 * g] = P, mine[2 * g + 1] = Q; } }
    MPI_Allreduce(&mine[0], &all[0], 2 * ng + 1, MPI_DOUBLE, MPI_MAX, raw(comm)); for (int g = 0; g < ng; g++) { r.pg.push_back(all[2 * g]); r.qg.push_back(all[2 * g + 1]); } }
  // the reference
  Ref f0; f0.n = n; f0.sb = k.sbase; f0.y = ybus(k); f0.V.assign(n, 0); for (int i = 0; i < n; i++) if (k.bus[i].type != 4) f0.live.push_back(i);
  std::vector<Z> V0(n); for (int i = 0; i < n; i++) { V0[i] = std::polar(r.u.v[i], r.u.a[i]); f0.y[i][i] += Z(p.pl[i], -p.ql[i]) / k.sbase / (r.u.v[i] * r.u.v[i]); }
  bool edge = false; int served = 0; std::vector<int> at(ng, -1);
  for (int g = 0; g < ng; g++) { const Gen &G = k.gen[g]; if (!G.stat || k.bus[G.bus].type == 4) continue; double P = r.pg[g], Q = r.qg[g], v = r.u.v[G.bus]; if (std::fabs(P) < 1e-7) edge = true;
    if (P < 0 || ms[g].kind == NONE) { f0.y[G.bus][G.bus] -= Z(P, -Q) / (v * v); served++; continue; }
    Ref::M q; q.m = ms[g]; q.bus = G.bus; f0.init(q, V0[G.bus], P, Q, G.mbase); at[g] = (int)f0.ms.size(); f0.ms.push_back(q); }
  for (size_t q = 0; q < ev.size(); q++) if (ev[q].kind == 2 && at[ev[q].gen] < 0) { c.label("event at a machine without dynamics"); return; }
  if (served) c.label("generators without dynamics or with negative output"); if (edge || f0.ms.empty()) { c.label("no machines"); return; }
  if (!f0.factor()) return;
  { Quiet quiet; r.app.reset(new DSApp(comm)); r.pf->clone<DSBus, DSBranch>(r.net); r.app->transferPFtoDS(r.pf, r.net); r.app->setNetwork(r.net, r.cf.get()); r.app->readGenerators(); r.app->initialize(); r.app->setup(); }
  for (int round = 0; round < 1 + again; round++) {
  std::vector<double> bv, gv; Ref f = f0, twin = f0; double diff = 0, tol = 1e-6; for (size_t q = 0; q < twin.ms.size(); q++) twin.ms[q].x[0] += q % 2 ? 1e-9 : -1e-9;   // the twin shows how errors grow
  if (round) {
    c.label("second run"); int keep = s.range(-1, (int)order.size() - 1); Quiet quiet; r.app->transferPFtoDS(r.pf, r.net); r.app->reset(); r.app->setup();
    if (keep >= 0) { gridpack::utility::Configuration::CursorPtr cur = r.cf->getCursor("Configuration.Dynamic_simulation"); std::vector<gridpack::dynamic_simulation::Event> list = r.app->getEvents(cur); if ((int)list.size() != (int)order.size()) { c.fail("events", "%d events are read instead of %d", (int)list.size(), (int)order.size()); return; } r.app->setEvent(list[keep]); Event one = order[keep]; order.assign(1, one); if (one.kind && one.status) order.clear(); }
  }
  for (int st = 0; st < steps; ) {
    int to = pieces ? std::min(steps, st + piece) : st + 1;
    { Quiet quiet; r.app->run(when(to, cut, h)); }
    for (; st < to; st++) {
      bool change = false;
      for (size_t q = 0; q < order.size(); q++) { const Event &e = order[q]; if (e.kind == 0) { if (e.at == st) { add(f, twin, e.bus, e.bus, Z(e.g, -e.b)); change = true; } if (e.end == st) { add(f, twin, e.bus, e.bus, -Z(e.g, -e.b)); change = true; } }
        else if (e.at != st) continue; else if (e.kind == 1) { const Elem &l = k.el[e.el]; Y2 w = y2(l); double sg = e.status ? 1 : -1; add(f, twin, l.f, l.f, sg * w.ff); add(f, twin, l.t, l.t, sg * w.tt); add(f, twin, l.f, l.t, sg * w.ft); add(f, twin, l.t, l.f, sg * w.tf); change = true; } else { f.ms[at[e.gen]].on = twin.ms[at[e.gen]].on = e.status; change = true; } }
      if (change && (!f.factor() || !twin.factor())) { c.label("singular"); return; }
      f.step(h); twin.step(h); diff = std::max(diff, distance(f, twin));
    }
    if (!(diff < 1e-6)) { c.label("sensitive"); break; } tol = 1e-6 + 100 * diff;
    bool wild = false; double big = 1; for (size_t q = 0; q < f.ms.size(); q++) { const Ref::M &m = f.ms[q]; if (m.on) { if (!(std::fabs(m.x[1]) < 0.5)) wild = true; big = std::max(big, std::fabs(m.x[0])); } } for (int i = 0; i < n; i++) if (!(std::abs(f.V[i]) < 3)) wild = true;
    if (wild) { c.label("unstable"); break; }
    if (fabs(r.app->getCurrentTime() - st * h) > 1e-9) c.fail("time", "the time is %.9g s after %d steps of %g s", r.app->getCurrentTime(), st, h);
    outputs(comm, r, k, at, bv, gv); const char *when = strf("after %d steps of %g s", st, h).c_str(); std::string ws = strf("after %d steps of %g s", st, h); when = ws.c_str();
    for (int i = 0; i < n && !c.failed; i++) { if (k.bus[i].type == 4) continue; c.sub++; Z v(bv[2 * i], bv[2 * i + 1]); if (!(std::abs(v - f.V[i]) <= tol * big)) c.fail("voltage", "%s: the voltage of bus %d is %.9g%+.9gi instead of %.9g%+.9gi", when, k.bus[i].num, v.real(), v.imag(), f.V[i].real(), f.V[i].imag()); }
    for (int g = 0; g < ng && !c.failed; g++) { if (at[g] < 0) continue; const Ref::M &m = f.ms[at[g]]; if (!m.on) continue; c.sub += 2; double a = gv[4 * g], w = gv[4 * g + 1], P = gv[4 * g + 2], Q = gv[4 * g + 3]; static const char *T[] = {"", "GENCLS", "GENROU", "GENSAL"}; std::string who = strf("%s '%s' of bus %d", T[ms[g].kind], k.gen[g].id.c_str(), k.bus[k.gen[g].bus].num);
      if (!(std::fabs(a - m.x[0]) <= tol * big) && !(ms[g].kind == ROU && std::fabs(a - m.xp[0]) <= tol * big)) c.fail("angle", "%s: the rotor angle of %s is %.9g instead of %.9g rad", when, who.c_str(), a, m.x[0]);
      else if (!(std::fabs(w - 1 - m.x[1]) <= tol) && !(ms[g].kind == ROU && std::fabs(w - 1 - m.xp[1]) <= tol)) c.fail("speed", "%s: the speed of %s is %.9g instead of %.9g", when, who.c_str(), w, 1 + m.x[1]);
      else if (ms[g].kind == CLS || ev.empty()) { double sc = sysbase ? m.mb / k.sbase : 1; if (!(std::fabs(P - m.P * sc) <= tol * 10 * (1 + sc) && std::fabs(Q - m.Q * sc) <= tol * 10 * (1 + sc))) c.fail("power", "%s: %s puts %.9g%+.9gi into the network instead of %.9g%+.9gi", when, who.c_str(), P, Q, m.P * sc, m.Q * sc); } }
    if (ev.empty()) for (int i = 0; i < n && !c.failed; i++) if (k.bus[i].type != 4 && !(std::abs(Z(bv[2 * i], bv[2 * i + 1]) - V0[i]) <= 1e-5)) c.fail("steady state", "%s without an event: bus %d has left its voltage %.9g%+.9gi for %.9g%+.9gi", when, k.bus[i].num, V0[i].real(), V0[i].imag(), bv[2 * i], bv[2 * i + 1]);
    if (!all_ok(c, comm)) return;
  } }
}
int main(int argc, char **argv) {
  Registry r; r["G02"] = g02;
  return pbt_main(argc, argv, r);
}
