// F01: the power flow; F02: contingencies; A04: totals, scaling and counts.
#include "pfapp.hpp"
#include "gridpack/analysis/network_analytics.hpp"
using namespace pfa; using pbt::Source; using pbt::Ctx; using pbt::Registry;
static void f01(Source &s, Ctx &c) {
  App app; Comm comm = pick_sub(s, c, 1, 6); int np = comm.size();
  Opt o; o.maxb = 4 + 4 * c.size; if (s.chance(1, 6)) o.stress = s.pick({2, 4, 8});
  Case k = gen_case(s, c.size, o);
  if (s.chance(1, 8)) { int b = s.range(0, k.nb() - 1); for (size_t g = 0; g < k.gen.size(); g++) if (k.gen[g].bus == b) k.gen[g].pt = k.gen[g].pb = k.gen[g].pg; }
  Set t; t.tol = s.pick({4, 5, 6, 7, 8}); t.tol = std::pow(10.0, -t.tol); t.maxit = s.pick({50, 20, 15}); t.nl = s.chance(1, 3); t.newton = s.flag(); t.qlim = !t.nl && s.chance(1, 4); t.lin = lin_opt(s, np);
  if (t.qlim) for (size_t g = 0; g < k.gen.size(); g++) if (s.flag()) { k.gen[g].qt = s.dec(-0.1, 0.4) * k.sbase; k.gen[g].qb = k.gen[g].qt - s.dec(0.05, 0.6) * k.sbase; }
  std::vector<std::string> lines = raw33(k, &s);
  Prob p = problem(k); Sol r = newton(p, p.v0, p.a0);
  label(c, k, p);
  c.label(r.easy ? "easy" : r.ok ? "solvable" : "no solution found"); c.label(t.nl ? t.newton ? "NewtonRaphsonSolver" : "SNES" : t.qlim ? "solve with Q limits" : "solve");
  c.nontrivial = r.easy && k.nb() >= 3;
  c.sample = strf("%d buses %d elements %d generators, tolerance %g, %s, %s, mismatch %.3g, %d iterations", k.nb(), (int)k.el.size(), (int)k.gen.size(), t.tol, t.nl ? t.newton ? "NR" : "SNES" : t.qlim ? "qlim" : "solve", t.lin.c_str(), r.first, r.iters);
  if (getenv("PBT_SHOW") && c.rank == 0) { for (size_t q = 0; q < lines.size(); q++) fprintf(stderr, "%s\n", lines[q].c_str()); fprintf(stderr, "%s\n", c.sample.c_str()); }
  std::string file = group_file(c, comm, "case") + ".raw"; write_file(c, comm, file, lines);
  boost::shared_ptr<CF> cf = config(comm, section(t, file));
  boost::shared_ptr<Net> net(new Net(comm)); app.suppressOutput(getenv("PBT_SHOW")==0);
  app.readNetwork(net, cf.get()); app.initialize();
  bool again = s.chance(1, 4);
  for (int round = 0; round < (again ? 2 : 1); round++) {
    const char *when = round ? "solved again from the solution" : "solved";
    bool ok = t.nl ? app.nl_solve() : app.solve();
    int mine = ok, lo, hi; MPI_Allreduce(&mine, &lo, 1, MPI_INT, MPI_MIN, raw(comm)); MPI_Allreduce(&mine, &hi, 1, MPI_INT, MPI_MAX, raw(comm));
    if (lo != hi) { c.fail("agreement", "%s: some processes report convergence and others do not", when); return; }
    if (!t.qlim) {
      if (!ok) { if (r.easy) c.fail("not converged", "%s: no convergence reported although Newton's method takes %d steps", when, r.iters); return; }
      if (t.nl && !r.easy) return;
      Volt u; if (!volts(c, comm, *net, k, u, when)) return;
      check_balance(c, k, p, u, t.nl && !t.newton ? std::max(1e-5, t.tol) : t.tol, when); if (c.failed) return;
      if (r.easy) check_same(c, k, p, u, r, t.nl && !t.newton ? std::max(1e-5, t.tol) : t.tol, when); if (c.failed) return;
      check_reports(c, comm, app, *net, k, p, u, when); if (!all_ok(c, comm)) return;
      continue;
    }
    // with reactive limits: the same sequence of problems in the reference, and the limits in the result
    Prob q = p; Sol e = r; std::vector<int> fix(k.nb(), 0); bool easy = r.easy; int rounds = 1; bool close = false;
    while (easy) {
      std::vector<Z> inj = inject(q, e.v, e.a); bool any = false;
      for (int i = 0; i < q.n; i++) if (q.kind[i] == PV) {
        double Q = inj[i].imag() * q.sb + q.ql[i], eps = 1e-6 * q.sb + 20 * t.tol * (1 + e.gain) * q.sb; if (std::fabs(Q - q.qmax[i]) < eps || std::fabs(Q - q.qmin[i]) < eps) close = true;
        int d = Q > q.qmax[i] ? 1 : Q < q.qmin[i] ? -1 : 0; if (!d) continue; any = true; fix[i] = d; q.kind[i] = PQ; q.q0[i] = ((d > 0 ? q.qmax[i] : q.qmin[i]) - q.ql[i]) / q.sb;
      }
      if (!any || close) break;
      e = newton(q, e.v, e.a); rounds++; if (!e.easy) easy = false;
    }
    if (rounds > 1) c.label("limits reached");
    if (!ok) { if (easy && !close) c.fail("not converged", "%s: no convergence reported although %d solutions by Newton's method with reactive limits are easy", when, rounds); return; }
    if (!easy || close) return;
    Volt u; if (!volts(c, comm, *net, k, u, when)) return;
    check_balance(c, k, q, u, t.tol, when); if (c.failed) return;
    check_same(c, k, q, u, e, t.tol, when); if (c.failed) return;
    check_reports(c, comm, app, *net, k, q, u, when, &fix); if (!all_ok(c, comm)) return;
    if (round == 0 && again) { app.clearQlimViolations(); app.resetVoltages(); c.label("limits cleared"); }
  }
  // the solution in the data collections
  if (t.qlim) return;
  Volt u; if (!volts(c, comm, *net, k, u, "after solving")) return;
  bool org = s.chance(1, 4); if (org) { app.saveDataAlsotoOrg(); c.label("saved to the original data"); } else app.saveData();
  std::vector<Z> inj = inject(p, u.v, u.a);
  for (int q = 0; q < net->numBuses() && !c.failed; q++) {
    int i = k.at[net->getOriginalBusIndex(q)]; if (p.kind[i] == ISO || !net->getActiveBus(q)) continue; double v = 0, a = 0; boost::shared_ptr<gridpack::component::DataCollection> d = net->getBusData(q); c.sub++;
    if (!d->getValue("BUS_PF_VMAG", &v) || !d->getValue("BUS_PF_VANG", &a) || std::fabs(v - u.v[i]) > 1e-12 || std::fabs(wrap(a * M_PI / 180 - u.a[i])) > 1e-9) { c.fail("saved voltage", "bus %d is saved with %.12g at %.12g degrees instead of %.12g at %.12g", k.bus[i].num, v, a, u.v[i], u.a[i] * 180 / M_PI); break; }
    bool known; std::vector<double> f = shares(k, known, i); if (!known) continue;
    int ng = 0; d->getValue(GENERATOR_NUMBER, &ng);
    for (int g = 0; g < ng && !c.failed; g++) {
      std::string id; d->getValue(GENERATOR_ID, &id, g); int x = -1; for (size_t m = 0; m < k.gen.size(); m++) if (k.gen[m].bus == i && k.gen[m].id == id) x = (int)m; if (x < 0) continue;
      double P = 0, Q = 0, eP = 0, eQ = 0; d->getValue("GENERATOR_PF_PGEN", &P, g); d->getValue("GENERATOR_PF_QGEN", &Q, g); const Gen &G = k.gen[x]; double tP = inj[i].real() + p.pl[i] / p.sb, tQ = inj[i].imag() + p.ql[i] / p.sb, lim = 1e-7 * (1 + std::fabs(tP) + std::fabs(tQ));
      if (G.stat) { eP = p.kind[i] == SL ? f[x] * tP : G.pg / p.sb; eQ = p.kind[i] == SL || p.kind[i] == PV ? f[x] * tQ : G.qg / p.sb; }
      if (std::fabs(P - eP) > lim || std::fabs(Q - eQ) > lim) c.fail("saved generator", "generator '%s' at bus %d (%s) is saved with %.9g and %.9g instead of %.9g and %.9g", id.c_str(), k.bus[i].num, G.stat ? "in service" : "out of service", P, Q, eP, eQ);
      if (org && !c.failed) { double oP = 0, oQ = 0; d->getValue(GENERATOR_PG, &oP, g); d->getValue(GENERATOR_QG, &oQ, g); if (std::fabs(oP - eP * p.sb) > lim * p.sb || std::fabs(oQ - eQ * p.sb) > lim * p.sb) c.fail("saved to original", "generator '%s' at bus %d (%s) has its output replaced by %.9g MW and %.9g Mvar instead of %.9g and %.9g", id.c_str(), k.bus[i].num, G.stat ? "in service" : "out of service", oP, oQ, eP * p.sb, eQ * p.sb); }
    }
  }
}
// ---- contingencies -------------------------------------------------------------
typedef gridpack::powerflow::Contingency Cont;
struct Outage { bool gen; std::vector<int> at; std::vector<std::pair<int, int> > ends; std::vector<std::string> id; bool known; };   // at: -1 for elements that do not exist
static Outage gen_outage(Source &s, const Case &k) {
  Outage o; o.gen = !k.gen.empty() && s.flag(); o.known = true; int n = s.chance(1, 4) ? s.range(2, 4) : 1; bool strange = s.chance(1, 10);
  for (int q = 0; q < n; q++) {
    int x = s.range(0, (int)(o.gen ? k.gen.size() : k.el.size()) - 1); if (q && s.chance(1, 6)) x = std::max(0, o.at[0]);
    std::pair<int, int> e; std::string id; if (o.gen) { e = std::make_pair(k.bus[k.gen[x].bus].num, 0); id = k.gen[x].id; } else { e = std::make_pair(k.bus[k.el[x].f].num, k.bus[k.el[x].t].num); id = k.el[x].ckt; }
    if (strange && s.flag()) { x = -1; o.known = false; int w = s.range(0, 1); if (w) id = "?Q"; else { int b = 1; while (k.at.count(b)) b++; e.first = b; } }
    o.at.push_back(x); o.ends.push_back(e); o.id.push_back(id);
  }
  return o;
}
static Case outage(const Case &k, const Outage &o) { Case d = k; for (size_t q = 0; q < o.at.size(); q++) if (o.at[q] >= 0) (o.gen ? d.gen[o.at[q]].stat : d.el[o.at[q]].stat) = 0; return d; }
static Cont event(const Outage &o, const std::string &name, Source &s) {
  Cont e; e.p_name = name; e.p_type = o.gen ? gridpack::powerflow::Generator : gridpack::powerflow::Branch;
  for (size_t q = 0; q < o.at.size(); q++) if (o.gen) { e.p_busid.push_back(o.ends[q].first); e.p_genid.push_back(o.id[q]); e.p_saveGenStatus.push_back(true); } else { e.p_from.push_back(o.ends[q].first); e.p_to.push_back(o.ends[q].second); e.p_ckt.push_back(o.id[q]); e.p_saveLineStatus.push_back(true); }
  return e;
}
static bool agree(const Comm &comm, Ctx &c, bool v, const char *what) { int m = v, lo, hi; MPI_Allreduce(&m, &lo, 1, MPI_INT, MPI_MIN, raw(comm)); MPI_Allreduce(&m, &hi, 1, MPI_INT, MPI_MAX, raw(comm)); if (lo != hi) c.fail("agreement", "%s differs between processes", what); return lo == hi; }
// reactive limits: one round as in the driver
static bool limit(Prob &q, const Sol &e, double tol, std::vector<int> &fix, bool &close) {
  std::vector<Z> inj = inject(q, e.v, e.a); bool any = false;
  for (int i = 0; i < q.n; i++) if (q.kind[i] == PV) {
    double Q = inj[i].imag() * q.sb + q.ql[i], eps = 1e-6 * q.sb + 20 * tol * (1 + e.gain) * q.sb; if (std::fabs(Q - q.qmax[i]) < eps || std::fabs(Q - q.qmin[i]) < eps) close = true;
    int d = Q > q.qmax[i] ? 1 : Q < q.qmin[i] ? -1 : 0; if (!d) continue; any = true; fix[i] = d; q.kind[i] = PQ; q.q0[i] = ((d > 0 ? q.qmax[i] : q.qmin[i]) - q.ql[i]) / q.sb;
  }
  return any;
}
// voltage and loading violations at the returned voltages; names as in the records
struct Viol { std::set<std::string> all; std::set<std::string> maybe; };
struct Limits { double lo, hi; bool rateB; };
static std::string busname(const Case &k, int i) { return str("bus %d", k.bus[i].num); }
static std::string linename(const Case &k, int e) { int a = k.bus[k.el[e].f].num, b = k.bus[k.el[e].t].num; return str("line %d %d ", std::min(a, b), std::max(a, b)) + k.el[e].ckt; }
static Viol violations(const Case &k, const Prob &p, const Volt &u, const Limits &L, int area, bool volt, bool line) {
  Viol r;
  if (volt) for (int i = 0; i < p.n; i++) { if (area && k.bus[i].area != area) continue; double d = std::min(u.v[i] - L.lo, L.hi - u.v[i]); if (d < 0) r.all.insert(busname(k, i)); if (std::fabs(d) < 1e-9 || p.kind[i] == ISO) r.maybe.insert(busname(k, i)); }
  if (line) for (size_t q = 0; q < k.el.size(); q++) {
    const Elem &e0 = k.el[q]; if (area && k.bus[e0.f].area != area && k.bus[e0.t].area != area) continue; double rate = L.rateB ? e0.rb : e0.ra; if (!(rate > 0) || !e0.stat || p.kind[e0.f] == ISO || p.kind[e0.t] == ISO) continue;
    // the flow is reported at the first bus of the branch; the direction of the branch is that of its first record
    double m[2]; for (int w = 0; w < 2; w++) { Elem E = e0; E.g1 = E.b1 = E.g2 = E.b2 = 0; Y2 y = y2(E); int i = E.f, j = E.t; if (w) { std::swap(y.ff, y.tt); std::swap(y.ft, y.tf); std::swap(i, j); } Z ui = std::polar(u.v[i], u.a[i]), uj = std::polar(u.v[j], u.a[j]); m[w] = std::abs(ui * std::conj(y.ff * ui + y.ft * uj)) * p.sb; }
    bool a = m[0] > rate, b = m[1] > rate; if (a != b || std::fabs(m[0] - rate) < 1e-6 * (1 + rate) || std::fabs(m[1] - rate) < 1e-6 * (1 + rate)) r.maybe.insert(linename(k, q)); if (a || b) r.all.insert(linename(k, q));
  }
  return r;
}
static void check_viol(Ctx &c, const Comm &comm, App &app, const Case &k, const Viol &e, const std::set<std::string> &ign, bool ok, const char *what, std::set<std::string> seen) {
  if (!agree(comm, c, ok, what)) return; bool sure = false, may = false; std::string first;
  for (std::set<std::string>::const_iterator it = e.all.begin(); it != e.all.end(); ++it) if (!ign.count(*it)) { if (e.maybe.count(*it)) may = true; else { sure = true; first = *it; } }
  for (std::set<std::string>::const_iterator it = e.maybe.begin(); it != e.maybe.end(); ++it) if (!ign.count(*it)) may = true;
  c.sub++;
  if (ok && sure) { c.fail("violation missed", "%s finds no violation, but there is one at %s", what, first.c_str()); return; }
  if (!ok && !sure && !may) { c.fail("false violation", "%s reports a violation and there is none (%d ignored)", what, (int)ign.size()); return; }
  for (std::set<std::string>::const_iterator it = e.all.begin(); it != e.all.end(); ++it) if (!ign.count(*it) && !e.maybe.count(*it) && !seen.count(*it)) { c.fail("violation not recorded", "%s: the violation at %s is not in the list of violations", what, it->c_str()); return; }
  for (std::set<std::string>::const_iterator it = seen.begin(); it != seen.end(); ++it) if (!e.maybe.count(*it) && (ign.count(*it) || !e.all.count(*it))) { c.fail("false record", "%s: a violation at %s is listed and there is none%s", what, it->c_str(), ign.count(*it) ? " (it is to be ignored)" : ""); return; }
}
static std::set<std::string> records(Ctx &c, App &app) {
  std::vector<std::string> v = app.getContingencyFailures(); std::set<std::string> r;
  for (size_t q = 0; q < v.size(); q++) { int a, b, w = 0; std::string n; size_t p = v[q].find("for line ");
    if (sscanf(v[q].c_str(), " Bus voltage violation on bus %d", &a) == 1) n = str("bus %d", a);
    else if (sscanf(v[q].c_str(), " Branch overload violation on branch [%d,%d]", &a, &b) == 2 && p != std::string::npos) n = str("line %d %d ", std::min(a, b), std::max(a, b)) + v[q].substr(p + 9);
    else { c.fail("record format", "violation record '%s'", v[q].c_str()); break; }
    if (!r.insert(n).second) c.fail("record repeated", "violation record '%s' is listed twice", v[q].c_str()); }
  return r;
}
static void check_limits(Source &s, Ctx &c, const Comm &comm, App &app, const Case &k, const Prob &p, const Volt &u, const Limits &L, const std::set<std::string> &ign, const char *when) {
  int how = s.range(0, 3), area = s.chance(1, 3) ? s.range(1, 3) : 0; std::string w = when; c.label("violations");
  if (how <= 2) {
    bool v = how != 1, l = how != 0, ok = true; if (v) ok = (area ? app.checkVoltageViolations(area) : app.checkVoltageViolations()) && ok; if (l) ok = (area ? app.checkLineOverloadViolations(area) : app.checkLineOverloadViolations()) && ok;
    w += v && l ? ": the voltage and overload checks" : v ? ": the voltage check" : ": the overload check"; if (area) w += str(" of area %d", area);
    Viol e = violations(k, p, u, L, area, v, l); if (e.all.size()) c.label("violations found"); std::set<std::string> seen = records(c, app); if (!c.failed) check_viol(c, comm, app, k, e, ign, ok, w.c_str(), seen); return;
  }
  // specific lines
  std::vector<int> b1, b2; std::vector<std::string> t; std::vector<int> el; int n = s.range(1, 4);
  for (int q = 0; q < n; q++) { int e = s.range(0, (int)k.el.size() - 1); el.push_back(e); b1.push_back(k.bus[k.el[e].f].num); b2.push_back(k.bus[k.el[e].t].num); t.push_back(k.el[e].ckt); }
  std::vector<bool> res; bool ok = app.checkLineOverloadViolations(b1, b2, t, res); Viol e = violations(k, p, u, L, 0, false, true); bool want = true, sure = true;
  if ((int)res.size() != n) { c.fail("specific lines", "%s: %d results for %d lines", when, (int)res.size(), n); return; }
  for (int q = 0; q < n; q++) { std::string nm = linename(k, el[q]); bool bad = e.all.count(nm) && !ign.count(nm); if (e.maybe.count(nm)) { sure = false; continue; } if (bad) want = false; c.sub++;
    if (res[q] == bad) { c.fail("specific lines", "%s: %s is %s", when, nm.c_str(), bad ? "overloaded and passes the check" : ign.count(nm) ? "to be ignored and fails the check" : "not overloaded and fails the check"); return; } }
  if (sure && ok != want) c.fail("specific lines", "%s: the check of %d lines returns %d", when, n, (int)ok);
}
static void f02(Source &s, Ctx &c) {
  App app; Comm comm = pick_sub(s, c, 1, 6); int np = comm.size();
  Opt o; o.minb = 3; o.maxb = 4 + 3 * c.size; Case k = gen_case(s, c.size, o);
  Set t; t.tol = s.pick({6, 7, 8}); t.tol = std::pow(10.0, -t.tol); t.maxit = 20; t.nl = s.chance(1, 6); t.newton = true; t.qlim = 0; t.lin = lin_opt(s, np);
  bool qlim = !t.nl && s.chance(1, 4); if (qlim) for (size_t g = 0; g < k.gen.size(); g++) if (s.flag()) { k.gen[g].qt = s.dec(-0.1, 0.4) * k.sbase; k.gen[g].qb = k.gen[g].qt - s.dec(0.05, 0.6) * k.sbase; }
  Limits L; L.lo = s.dec(0.85, 1.0); L.hi = s.dec(1.0, 1.1); L.rateB = s.chance(1, 3); bool ignore = s.flag();
  std::vector<Outage> seq; int n = s.range(1, 4); for (int q = 0; q < n; q++) seq.push_back(q && s.chance(1, 5) ? seq[0] : gen_outage(s, k));
  Prob p = problem(k); Sol r = newton(p, p.v0, p.a0); label(c, k, p); if (qlim) c.label("Q limits");
  // factorisation packages crash on singular matrices, so cases which may lead to one use a solver that reports failure
  bool hard = !r.easy; for (int q = 0; q < n; q++) { Prob w = problem(outage(k, seq[q]), true); int left = 0; for (int i = 0; i < w.n; i++) left += w.kind[i] == PQ || w.kind[i] == PV; if (!left || !newton(w, p.v0, p.a0).easy) hard = true; }
  if (hard) t.lin = np == 1 ? "-ksp_type preonly -pc_type lu" : "-ksp_type gmres -ksp_gmres_restart 200 -ksp_max_it 2000 -pc_type bjacobi -sub_pc_type lu -ksp_rtol 1e-12";
  c.nontrivial = r.easy;
  c.sample = strf("%d buses %d elements %d generators, %d contingencies%s%s", k.nb(), (int)k.el.size(), (int)k.gen.size(), n, qlim ? ", Q limits" : "", t.nl ? ", NR" : "");
  std::vector<std::string> lines = raw33(k, &s);
  if (getenv("PBT_SHOW") && c.rank == 0) { for (size_t q = 0; q < lines.size(); q++) fprintf(stderr, "%s\n", lines[q].c_str()); fprintf(stderr, "%s limits %g %g rate%c\n", c.sample.c_str(), L.lo, L.hi, L.rateB ? 'B' : 'A'); for (size_t q = 0; q < seq.size(); q++) { for (size_t i = 0; i < seq[q].at.size(); i++) fprintf(stderr, "%s %d-%d '%s' ", seq[q].gen ? "generator" : "line", seq[q].ends[i].first, seq[q].ends[i].second, seq[q].id[i].c_str()); fprintf(stderr, "\n"); } }
  std::string file = group_file(c, comm, "case") + ".raw"; write_file(c, comm, file, lines);
  boost::shared_ptr<CF> cf = config(comm, section(t, file));
  boost::shared_ptr<Net> net(new Net(comm)); app.suppressOutput(getenv("PBT_SHOW") == 0);
  app.readNetwork(net, cf.get()); app.initialize(); app.setVoltageLimits(L.lo, L.hi); app.useRateB(L.rateB);
  std::set<std::string> ign;
  for (int round = 0; round <= 2 * n; round++) {
    bool base = round % 2 == 0; if (base && round && round < 2 * n && !s.chance(1, 3)) continue;      // the base case is solved first, last and in between
    const Outage *og = base ? 0 : &seq[round / 2]; Case d = k; std::string when = base ? round ? strf("base case after %d contingencies", round / 2) : std::string("base case") : strf("contingency %d", round / 2 + 1);
    Cont ev;
    if (og) { d = outage(k, *og); ev = event(*og, strf("C%d", round), s); }
    Prob pd = problem(d, !base); pd.vs = p.vs; Sol rd = newton(pd, p.v0, p.a0); bool slackless = false; for (int i = 0; i < pd.n; i++) if (pd.kind[i] == SL) { int on = 0; for (size_t g = 0; g < d.gen.size(); g++) on += d.gen[g].bus == i && d.gen[g].stat; if (!on) slackless = true; }
    app.resetVoltages();
    if (og) {
      bool found = app.setContingency(ev); if (!agree(comm, c, found, "the result of setContingency")) return; c.sub++;
      if (found != og->known) { c.fail("found", "%s: setContingency returns %s for %s", when.c_str(), found ? "true" : "false", og->known ? "elements of the network" : "an element that does not exist"); return; }
      c.label(og->gen ? "generator outage" : "line outage"); if (!og->known) c.label("unknown element"); if (og->at.size() > 1) c.label("several elements"); if (!rd.ok) c.label("no solution found"); bool lone = false; for (int i = 0; i < pd.n; i++) if (pd.kind[i] == ISO && p.kind[i] != ISO) lone = true; if (lone) c.label("lone bus");
    }
    bool ok = t.nl ? app.nl_solve() : app.solve(); if (!agree(comm, c, ok, "convergence")) return;
    std::vector<int> fix(k.nb(), 0); bool close = false, limited = false;
    if (ok && qlim) { Prob q0 = pd; if (rd.easy) limited = limit(pd, rd, t.tol, fix, close);
      bool viol = !app.checkQlimViolations(); if (!agree(comm, c, viol, "the check of reactive limits")) return; 
      if (rd.easy && !close && viol != limited) { c.fail("reactive limits", "%s: the check of reactive limits %s", when.c_str(), viol ? "finds violations and there are none" : "misses violations"); return; }
      if (viol) { c.label("limits reached"); ok = t.nl ? app.nl_solve() : app.solve(); if (!agree(comm, c, ok, "convergence")) return; if (rd.easy) rd = newton(pd, rd.v, rd.a); }
    }
    if (!ok) { if (rd.easy && !close) { c.fail("not converged", "%s: no convergence reported although Newton's method takes %d steps", when.c_str(), rd.iters); return; } }
    else if (!qlim || (rd.easy && !close)) {
      if (!t.nl || rd.easy) {
        Volt u; if (!volts(c, comm, *net, k, u, when.c_str())) return;
        check_balance(c, d, pd, u, t.tol, when.c_str()); if (c.failed) return;
        if (rd.easy) check_same(c, d, pd, u, rd, t.tol, when.c_str()); if (c.failed) return;
        if (!slackless) check_reports(c, comm, app, *net, d, pd, u, when.c_str(), qlim ? &fix : 0); if (!all_ok(c, comm)) return;
        if (rd.easy && s.flag()) { check_limits(s, c, comm, app, d, pd, u, L, ign, when.c_str()); if (!all_ok(c, comm)) return; }
        if (round == 0 && ignore) {
          app.ignoreVoltageViolations(); Viol e = violations(d, pd, u, L, 0, true, false); if (!e.maybe.empty()) ignore = false; ign = e.all;
          if (s.flag()) { app.ignoreLineOverloadViolations(); Viol x = violations(d, pd, u, L, 0, false, true); if (!x.maybe.empty()) ignore = false; ign.insert(x.all.begin(), x.all.end()); }
          if (!ign.empty()) c.label("ignored violations");
          if (!ignore || s.chance(1, 3)) { app.clearVoltageViolations(); app.clearLineOverloadViolations(); ign.clear(); }
        }
      }
    }
    if (qlim) app.clearQlimViolations();
    if (og) { bool found = app.unSetContingency(ev); if (!agree(comm, c, found, "the result of unSetContingency")) return; if (found != og->known) { c.fail("found", "%s: unSetContingency returns %s for %s", when.c_str(), found ? "true" : "false", og->known ? "elements of the network" : "an element that does not exist"); return; } }
  }
}
// ---- totals, scaling and counts ----------------------------------------------------
static bool selected(const Bus &b, int area, int zone) { return b.area == area && (zone <= 0 || b.zone == zone); }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-8 * (1 + std::fabs(a) + std::fabs(b)); }
static void a04(Source &s, Ctx &c) {
  App app; Comm comm = pick_sub(s, c, 1, 6); int np = comm.size();
  Opt o; o.maxb = 4 + 4 * c.size; Case k = gen_case(s, c.size, o), d = k;
  Set t; t.tol = 1e-8; t.maxit = 20; t.nl = false; t.newton = true; t.qlim = 0; t.lin = lin_opt(s, np);
  std::vector<std::string> lines = raw33(k, &s); label(c, k, problem(k));
  c.nontrivial = k.nb() >= 3 && (k.load.size() || k.gen.size());
  c.sample = strf("%d buses %d elements %d generators %d loads", k.nb(), (int)k.el.size(), (int)k.gen.size(), (int)k.load.size());
  if (getenv("PBT_SHOW") && c.rank == 0) for (size_t q = 0; q < lines.size(); q++) fprintf(stderr, "%s\n", lines[q].c_str());
  std::string file = group_file(c, comm, "case") + ".raw"; write_file(c, comm, file, lines);
  boost::shared_ptr<CF> cf = config(comm, section(t, file));
  boost::shared_ptr<Net> net(new Net(comm)); app.suppressOutput(getenv("PBT_SHOW") == 0);
  app.readNetwork(net, cf.get()); app.initialize();
  for (size_t g = 0; g < k.gen.size(); g++) if (!k.gen[g].stat) k.gen[g].pg = d.gen[g].pg = 0;
  int nops = s.range(1, 7);
  for (int op = 0; op < nops; op++) {
    int what = s.range(0, 5), area = s.range(1, 3), zone = s.flag() ? s.range(1, 3) : s.range(-1, 0);
    if (what == 0) {
      double e = 0; for (size_t q = 0; q < k.load.size(); q++) if (k.load[q].stat && selected(k.bus[k.load[q].bus], area, zone)) e += k.load[q].pl + k.load[q].ip + k.load[q].yp;
      double v = app.getTotalLoadRealPower(area, zone); c.sub++; c.label("total load"); if (!near(v, e)) c.fail("total load", "area %d zone %d: the total load is given as %.12g, it is %.12g", area, zone, v, e);
    } else if (what == 1) {
      double e[3] = {0, 0, 0}, v[3]; for (size_t q = 0; q < k.gen.size(); q++) if (k.gen[q].stat && selected(k.bus[k.gen[q].bus], area, zone)) { e[0] += k.gen[q].pg; e[1] += k.gen[q].pb; e[2] += k.gen[q].pt; }
      app.getGeneratorMargins(area, zone, v, v + 1, v + 2); c.sub++; c.label("generation margins"); for (int w = 0; w < 3; w++) if (!near(v[w], e[w])) { c.fail("generation", "area %d zone %d: the %s is given as %.12g, it is %.12g", area, zone, w == 0 ? "total generation" : w == 1 ? "least generation" : "largest generation", v[w], e[w]); break; }
    } else if (what == 2) {
      double f = s.dec(0, 2); app.scaleLoadPower(f, area, zone); c.label("scale load"); for (size_t q = 0; q < d.load.size(); q++) { Load &l = d.load[q]; if (l.stat && selected(k.bus[l.bus], area, zone)) { l.pl *= f; l.ql *= f; l.ip *= f; l.iq *= f; l.yp *= f; l.yq *= f; } }
    } else if (what == 3) {
      double f = s.dec(-1, 1); app.scaleGeneratorRealPower(f, area, zone); c.label("scale generation"); for (size_t q = 0; q < d.gen.size(); q++) { Gen &g = d.gen[q]; if (g.stat && selected(k.bus[g.bus], area, zone)) g.pg += f > 0 ? f * (g.pt - g.pg) : f * (g.pg - g.pb); }
    } else if (what == 4) { app.resetPower(); d = k; c.label("reset"); }
    else {
      Prob p = problem(d); Sol r = newton(p, p.v0, p.a0); app.resetVoltages(); bool ok = app.solve(); if (!agree(comm, c, ok, "convergence")) return; c.label("solve");
      if (!ok) { if (r.easy) c.fail("not converged", "no convergence reported although Newton's method takes %d steps", r.iters); }
      else { Volt u; if (!volts(c, comm, *net, d, u, "solved after scaling")) return; check_balance(c, d, p, u, t.tol, "solved after scaling"); if (!c.failed && r.easy) { check_same(c, d, p, u, r, t.tol, "solved after scaling"); if (!c.failed) check_reports(c, comm, app, *net, d, p, u, "solved after scaling"); } }
    }
    if (!all_ok(c, comm)) return;
  }
  // counts
  gridpack::analysis::NetworkAnalytics<Net> an(net); int n = k.nb(); std::vector<int> num(n, 0), all(n, 0), gidx(n, -1), br; Case &q = k;
  int ng = 0, nl = 0, ne = 0; for (size_t i = 0; i < q.gen.size(); i++) ng += q.gen[i].stat; for (size_t i = 0; i < q.load.size(); i++) nl += q.load[i].stat; for (size_t i = 0; i < q.el.size(); i++) ne += q.el[i].stat;
  int got[6] = {an.numGenerators(), an.numLoads(), an.numLines(), an.totalBuses(), an.totalBranches(), an.numStorage()}; std::set<std::pair<int, int> > pr; for (size_t i = 0; i < q.el.size(); i++) pr.insert(std::make_pair(std::min(q.el[i].f, q.el[i].t), std::max(q.el[i].f, q.el[i].t)));
  int want[6] = {ng, nl, ne, n, (int)pr.size(), 0}; static const char *W[] = {"generators", "loads", "lines", "buses", "branches", "storage units"}; c.sub++;
  for (int w = 0; w < 6; w++) if (got[w] != want[w]) { c.fail("counts", "%d %s counted, there are %d", got[w], W[w], want[w]); break; }
  if (!all_ok(c, comm)) return;
  for (int i = 0; i < net->numBuses(); i++) if (net->getActiveBus(i)) num[k.at[net->getOriginalBusIndex(i)]] = net->getGlobalBusIndex(i) + 1; MPI_Allreduce(&num[0], &gidx[0], n, MPI_INT, MPI_MAX, raw(comm));
  int nb = (int)pr.size(); std::vector<int> e1(2 * nb, 0), e2(2 * nb, 0); for (int i = 0; i < net->numBranches(); i++) if (net->getActiveBranch(i)) { int g = net->getGlobalBranchIndex(i), a, b; net->getOriginalBranchEndpoints(i, &a, &b); if (g >= 0 && g < nb) { e1[2 * g] = a; e1[2 * g + 1] = b; } } MPI_Allreduce(&e1[0], &e2[0], 2 * nb, MPI_INT, MPI_MAX, raw(comm));
  for (int w = 0; w < 3 && !c.failed; w++) {
    int b = s.range(0, n - 1), G = gidx[b] - 1, x = 0, y = 0; for (size_t i = 0; i < q.gen.size(); i++) x += q.gen[i].bus == b && q.gen[i].stat; for (size_t i = 0; i < q.load.size(); i++) y += q.load[i].bus == b && q.load[i].stat; c.sub++;
    int gx = an.numGenerators(G), gy = an.numLoads(G); if (gx != x || gy != y) { c.fail("counts of a bus", "bus %d is given %d generators and %d loads in service, it has %d and %d", k.bus[b].num, gx, gy, x, y); break; }
    double v = 0; bool ok = an.getBusInfo(G, "BUS_VOLTAGE_MAG", v); if (!ok || v != k.bus[b].vm) { c.fail("bus value", "bus %d: value %.12g (%s) instead of %.12g", k.bus[b].num, v, ok ? "found" : "not found", k.bus[b].vm); break; }
    int no = 0; if (an.getBusInfo(G, "NO_SUCH_FIELD", no)) { c.fail("bus value", "a value is found for a name that is not there"); break; }
    std::vector<int> cb = an.getConnectedBranches(G); std::set<int> ex, gt(cb.begin(), cb.end()); for (int g = 0; g < nb; g++) if (e2[2 * g] == k.bus[b].num || e2[2 * g + 1] == k.bus[b].num) ex.insert(g);
    if (ex != gt || gt.size() != cb.size()) { c.fail("branches of a bus", "bus %d is given %d branches, it has %d", k.bus[b].num, (int)cb.size(), (int)ex.size()); break; }
    int g = s.range(0, nb - 1), f1 = -1, f2 = -1, lines = 0; an.getBranchEndpoints(g, &f1, &f2); if (f1 != e2[2 * g] || f2 != e2[2 * g + 1]) { c.fail("ends of a branch", "branch %d is given the ends %d and %d, they are %d and %d", g, f1, f2, e2[2 * g], e2[2 * g + 1]); break; }
    for (size_t i = 0; i < q.el.size(); i++) { int f = k.bus[q.el[i].f].num, t2 = k.bus[q.el[i].t].num; if ((f == f1 && t2 == f2) || (f == f2 && t2 == f1)) lines += q.el[i].stat; } int gl = an.numLines(g); if (gl != lines) { c.fail("lines of a branch", "branch %d-%d is given %d lines in service, it has %d", f1, f2, gl, lines); break; }
    std::string ck; int ix = 0; if (!an.getBranchInfo(g, BRANCH_CKT, ck, ix)) { c.fail("branch value", "no line id for branch %d-%d", f1, f2); break; } bool hit = false; for (size_t i = 0; i < q.el.size(); i++) { int f = k.bus[q.el[i].f].num, t2 = k.bus[q.el[i].t].num; if (((f == f1 && t2 == f2) || (f == f2 && t2 == f1)) && q.el[i].ckt == ck) hit = true; } if (!hit) { c.fail("branch value", "branch %d-%d is given the line '%s'", f1, f2, ck.c_str()); break; }
  }
}
int main(int argc, char **argv) {
  Registry r;
  r["F01"] = f01; r["F02"] = f02; r["A04"] = a04;
  return pbt_main(argc, argv, r);
}
