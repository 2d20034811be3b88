// L03 linear solvers, L04 nonlinear solvers, L05 DAE integration.
#include "mathx.hpp"
#include <boost/bind/bind.hpp>
#include "gridpack/configuration/configuration.hpp"
#include "gridpack/math/dae_solver.hpp"
typedef gridpack::utility::Configuration CF;
typedef std::pair<std::string, std::string> KV;

// the text of a configuration, opened on the group
static boost::shared_ptr<CF> config(const Comm &comm, const std::string &section, const std::vector<KV> &kv) {
  std::string t = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Configuration>\n<" + section + ">\n";
  for (size_t i = 0; i < kv.size(); i++) t += "<" + kv[i].first + ">" + kv[i].second + "</" + kv[i].first + ">\n";
  t += "</" + section + ">\n</Configuration>\n";
  std::vector<std::string> ln; std::string cur; for (size_t i = 0; i < t.size(); i++) { cur += t[i]; if (t[i] == '\n') { ln.push_back(cur); cur = ""; } }
  boost::shared_ptr<CF> cf(new CF); cf->openStringFile(ln, comm); return cf;
}
static std::string show(const std::vector<KV> &kv) { std::string r; for (size_t i = 0; i < kv.size(); i++) r += (i ? " " : "") + kv[i].first + "=" + kv[i].second; return r; }
template <class T> T unit(uint64_t h) { double a = (double)((int)(h % 19) - 9), b = (double)((int)(hsh(h, 3, 1) % 19) - 9); T x; setv(x, a ? a : 3, b); return x; }

// a square system, diagonally dominant by rows: sum of the others <= rho * |diagonal|
template <class T> struct Sys { boost::shared_ptr<gm::MatrixT<T> > A; MM<T> m; double rho, alpha, amax; };
template <class T> void fill_sys(Sys<T> &S, const MM<char> &pat, uint64_t seed, bool sym) {
  int n = pat.size(); S.m.assign(n, std::vector<T>(n, T(0)));
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && pat[i][j]) S.m[i][j] = unit<T>(sym ? hsh(seed, std::min(i, j), std::max(i, j)) : hsh(seed, i, j)) * 0.25;
  S.rho = 0; S.alpha = 1e300; S.amax = 0;
  for (int i = 0; i < n; i++) {
    double o = 0; for (int j = 0; j < n; j++) if (j != i) o += std::abs(S.m[i][j]);
    double d = o * (1.3 + hsh(seed, i, 99) % 100 / 50.0) + 1; uint64_t h = hsh(seed, 7, i);
    double ph = h % 4 == 0 ? 3.14159 : 0.7 * (h % 11); T dd; setv(dd, d * cos(ph), d * sin(ph)); if (re(dd) == re(T(dd)) && sizeof(T) == sizeof(double)) setv(dd, h % 4 == 0 ? -d : d, 0);
    S.m[i][i] = dd; double ad = std::abs(S.m[i][i]);
    S.rho = std::max(S.rho, o / ad); S.alpha = std::min(S.alpha, ad - o); S.amax = std::max(S.amax, ad + o);
  }
}
static MM<char> gen_pat(uint64_t seed, int n, int dens, bool sym) {
  MM<char> p(n, std::vector<char>(n, 0));
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int a = sym ? std::min(i, j) : i, b = sym ? std::max(i, j) : j; p[i][j] = i == j || (int)(hsh(seed, a, b) % 8) < dens; }
  return p;
}
template <class T> void put_sys(const Comm &comm, const Dist &d, Sys<T> &S, const MM<char> &pat) {
  for (int i = d.off[comm.rank()]; i < d.off[comm.rank() + 1]; i++) for (int j = 0; j < d.tot; j++) if (pat[i][j]) S.A->setElement(i, j, S.m[i][j]);
  S.A->ready();
}
template <class T> std::vector<T> times_vec(const MM<T> &m, const std::vector<T> &x) { std::vector<T> y(m.size(), T(0)); for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < x.size(); j++) y[i] += m[i][j] * x[j]; return y; }
template <class T> boost::shared_ptr<gm::VectorT<T> > put_vec(const Comm &comm, const Dist &d, const std::vector<T> &m) {
  boost::shared_ptr<gm::VectorT<T> > v(new gm::VectorT<T>(comm, d.n[comm.rank()])); v->zero();
  for (int i = d.off[comm.rank()]; i < d.off[comm.rank() + 1]; i++) v->setElement(i, m[i]);
  v->ready(); return v;
}
template <class T> double amax(const std::vector<T> &x) { double r = 0; for (size_t i = 0; i < x.size(); i++) r = std::max(r, std::abs(x[i])); return r; }
template <class T> void unchanged(Ctx &c, gm::VectorT<T> &v, const std::vector<T> &m, const char *what) {
  std::vector<T> x(m.size()); v.getAllElements(&x[0]); for (size_t i = 0; i < m.size(); i++) if (x[i] != m[i]) { c.fail("input changed", "solving changed %s: element %d is %s, was %s", what, (int)i, sh(x[i]).c_str(), sh(m[i]).c_str()); return; }
}
template <class T> void unchanged(Ctx &c, gm::MatrixT<T> &a, const MM<T> &m, const char *what) {
  MM<T> g; VI all; for (size_t i = 0; i < m.size(); i++) all.push_back(i); read_all(a, all, g, c);
  for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m[i].size(); j++) if (g[i][j] != m[i][j]) { c.fail("input changed", "solving changed %s: element (%d,%d) is %s, was %s", what, (int)i, (int)j, sh(g[i][j]).c_str(), sh(m[i][j]).c_str()); return; }
}

template <class T> void L03T(Source &s, Ctx &c) {
  Comm comm = pick_sub(s, c, 1, 6); int P = comm.size(), me = comm.rank();
  Dist d = gen_dist(s, c, comm, 8); int n = d.tot;
  uint64_t seed = s.draw(1 << 20); int dens = s.range(0, 8); bool sym = s.chance(1, 4), serial = s.chance(1, 3), constm = s.chance(1, 3), zero = s.flag(), dense = s.chance(1, 8);
  MM<char> pat = gen_pat(seed, n, dens, sym); Sys<T> S; fill_sys(S, pat, seed, sym);
  S.A.reset(new gm::MatrixT<T>(comm, d.n[me], d.n[me], dense ? gm::Dense : gm::Sparse)); put_sys(comm, d, S, pat);
  if (dense && s.flag()) dense = false, S.A.reset(gm::storageType(*S.A, gm::Sparse)); // filled with explicit entries
  int which = s.range(0, 3);       // a LinearSolver, its matrix solve, a LinearMatrixSolver
  std::vector<KV> kv; bool direct = false; double rt = 1e-6, at = 1e-6; bool few = false;
  std::string opt;
  if (which < 3) {
    int meth = s.range(0, 8); bool par = P > 1 && !serial;
    if (dense && meth > 2 && meth != 7) meth = 0;
    switch (meth) {
      case 0: opt = "-ksp_type gmres -pc_type jacobi"; break;
      case 1: opt = "-ksp_type gmres -pc_type none -ksp_gmres_restart 50"; break;
      case 2: opt = "-ksp_type fgmres -pc_type jacobi"; break;
      case 3: opt = "-ksp_type gmres -pc_type bjacobi"; break;
      case 4: opt = "-ksp_type preonly -pc_type lu"; direct = true; zero = true; break;
      case 5: opt = "-ksp_type gmres -pc_type lu"; direct = true; break;
      case 6: opt = "-ksp_type richardson -pc_type lu"; direct = true; break;
      case 7: break;                       // whatever is the default
      default: opt = "-ksp_type bicg -pc_type jacobi -ksp_view_pre_off"; opt = "-ksp_type gmres\n  -pc_type   asm";
    }
    if (dense && meth == 7 && P > 1) opt = "-pc_type jacobi";
    if (direct) { if (par || s.flag()) opt += s.flag() ? " -pc_factor_mat_solver_type mumps" : " -pc_factor_mat_solver_type superlu_dist"; }
    rt = pow(10, -s.range(5, 11)); at = pow(10, -s.range(6, 12));
    kv.push_back(KV("RelativeTolerance", strf("%g", rt))); kv.push_back(KV("SolutionTolerance", strf("%g", at)));
    if (!direct && s.chance(1, 6)) { few = true; kv.push_back(KV("MaxIterations", strf("%d", s.range(1, 4)))); }
    else if (s.flag()) kv.push_back(KV("MaxIterations", strf("%d", s.range(200, 1000))));
    else kv.push_back(KV("MaxIterations", "300"));
    if (serial || s.flag()) kv.push_back(KV("ForceSerial", serial ? "true" : "false"));
    if (constm) kv.push_back(KV("SerialMatrixConstant", "true"));
    if (zero || s.flag()) kv.push_back(KV("InitialGuessZero", zero ? "true" : "false"));
    if (s.chance(1, 3)) kv.push_back(KV("PETScPrefix", s.flag() ? "mine" : "pfx_"));
    if (!opt.empty()) kv.push_back(KV("PETScOptions", opt));
    if (s.flag()) std::reverse(kv.begin(), kv.end());
  } else {
    static const char *ord[] = {"natural", "nd", "1wd", "RCM", "qmd", "rowlength"}, *pk[] = {"superlu_dist", "mumps", "petsc", "superlu"};
    int k = s.range(0, P > 1 ? 1 : 3); if (s.flag()) kv.push_back(KV("Package", pk[k])); if (s.flag()) kv.push_back(KV("Ordering", ord[s.range(0, 5)]));
    if (s.flag()) kv.push_back(KV("Fill", strf("%d", s.range(1, 10)))); if (s.chance(1, 4)) kv.push_back(KV("Pivot", s.flag() ? "true" : "false")); direct = true;
  }
  c.sample = strf("%s, sizes %s, %s%s: %s", sizeof(T) == sizeof(double) ? "real" : "complex", dshow(d).c_str(), dense ? "dense, " : "", which < 3 ? "linear solver" : "matrix solver", show(kv).c_str());
  boost::shared_ptr<CF> cf = config(comm, which < 3 ? "LinearSolver" : "LinearMatrixSolver", kv);
  CF::CursorPtr cur = cf->getCursor("Configuration");
  double fac = direct ? 1e-11 : 100.0 * n;
  double inv = std::max(1.0, 1 / S.alpha);
  if (which == 3) {
    if (dense) { S.A.reset(gm::storageType(*S.A, gm::Sparse)); }
    gm::LinearMatrixSolverT<T> solver(*S.A); solver.configure(cur);
    int times = s.range(1, 3);
    Dist sp[2] = {d, gen_dist(s, c, comm, 4)};
    for (int q = 0; q < times && all_ok(c, comm); q++) {
      MM<T> x(n, std::vector<T>(sp[1].tot)); uint64_t h = s.draw(1 << 20); for (int i = 0; i < n; i++) for (int j = 0; j < sp[1].tot; j++) x[i][j] = unit<T>(hsh(h, i, j));
      PM<T> B; B.rs = 0; B.cs = 1; B.dense = true; MM<double> mg; B.m = matmul(S.m, x, mg, sp[1].tot); B.a.reset(new gm::MatrixT<T>(comm, d.n[me], sp[1].n[me], gm::Dense));
      for (int i = d.off[me]; i < d.off[me + 1]; i++) for (int j = 0; j < sp[1].tot; j++) B.a->setElement(i, j, B.m[i][j]);
      B.a->ready();
      PM<T> X; X.rs = 0; X.cs = 1; X.dense = true; std::string w;
      try { X.a.reset(solver.solve(*B.a)); } catch (const std::exception &e) { w = e.what(); c.fail("failed", "matrix solver failed: %s", e.what()); }
      if (!all_ok(c, comm)) return;
      MM<double> mag(n, std::vector<double>(sp[1].tot, 20)); mcheck(c, comm, sp, X, x, mag, "matrix solver", 1e-9);
      if (!all_ok(c, comm)) return;
      unchanged(c, *B.a, B.m, "the right hand sides"); unchanged(c, *S.A, S.m, "the coefficients"); c.sub++;
    }
  } else {
    gm::LinearSolverT<T> solver(*S.A); solver.configure(cur);
    int times = s.range(1, 4); bool solved = false; boost::shared_ptr<gm::VectorT<T> > keepx;
    for (int q = 0; q < times && all_ok(c, comm); q++) {
      uint64_t h = s.draw(1 << 20);
      bool change = q && !(serial && constm && P > 1) && !constm && s.chance(1, 2);
      if (change) { fill_sys(S, pat, h + 1, sym); put_sys(comm, d, S, pat); inv = std::max(1.0, 1 / S.alpha); c.label("changed matrix"); }
      if (which == 2 && s.flag()) {
        Dist sp[2] = {d, gen_dist(s, c, comm, 3)}; bool bd = s.flag();
        MM<T> x(n, std::vector<T>(sp[1].tot)); for (int i = 0; i < n; i++) for (int j = 0; j < sp[1].tot; j++) x[i][j] = unit<T>(hsh(h, i, j));
        MM<double> mg; MM<T> b = matmul(S.m, x, mg, sp[1].tot); boost::shared_ptr<gm::MatrixT<T> > B(new gm::MatrixT<T>(comm, d.n[me], sp[1].n[me], bd ? gm::Dense : gm::Sparse));
        for (int i = d.off[me]; i < d.off[me + 1]; i++) for (int j = 0; j < sp[1].tot; j++) B->setElement(i, j, b[i][j]);
        B->ready(); c.label("matrix right hand side");
        PM<T> X; X.rs = 0; X.cs = 1; X.dense = true; std::string w; try { X.a.reset(solver.solve(*B)); } catch (const std::exception &e) { w = e.what(); }
        int bad = !w.empty(), any = 0; MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, raw(comm)); if (any) { if (!bad) c.fail("one-sided", "the solver failed on another process only"); else if (!few) c.fail("failed", "solver failed: %s", w.c_str()); else c.label("iteration limit"); break; }
        MM<double> mag(n, std::vector<double>(sp[1].tot, 13)); double tol = direct ? 1e-9 : fac * std::max(rt * std::max(1.0, S.amax / S.alpha), at * inv); mcheck(c, comm, sp, X, x, mag, "solve for columns", tol);
        if (!all_ok(c, comm)) return;
        unchanged(c, *B, b, "the right hand sides"); unchanged(c, *S.A, S.m, "the coefficients"); solved = true; c.sub++; continue;
      }
      std::vector<T> x(n), g(n), b; for (int i = 0; i < n; i++) { x[i] = unit<T>(hsh(h, i, 2)); if (h % 5 == 0 && i % 3) x[i] = T(0); g[i] = h % 3 == 0 ? x[i] + unit<T>(hsh(h, i, 3)) * 0.5 : h % 3 == 1 ? T(0) : unit<T>(hsh(h, i, 4)); }
      b = times_vec(S.m, x); boost::shared_ptr<gm::VectorT<T> > bv = put_vec(comm, d, b), xv = keepx && s.flag() ? keepx : put_vec(comm, d, g);
      bool again = solved && !change && s.flag(); std::string w;
      try { if (again) solver.resolve(*bv, *xv); else solver.solve(*bv, *xv); } catch (const std::exception &e) { w = e.what(); }
      if (again) c.label("resolve");
      int bad = !w.empty(), any = 0; MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, raw(comm));
      if (any) { if (!bad) c.fail("one-sided", "the solver failed on another process only"); else if (!few) c.fail("failed", "solver failed: %s", w.c_str()); else c.label("iteration limit"); break; }
      solved = true; keepx = xv;
      std::vector<T> r(n); xv->getAllElements(&r[0]);
      double sc = std::max(amax(x), 13.0), tol = direct ? 1e-9 * sc : fac * std::max(rt * sc * std::max(1.0, S.amax / S.alpha), at * inv);
      for (int i = 0; i < n; i++) if (!(std::abs(r[i] - x[i]) <= tol)) { c.fail("solution", "solution %d of system %d: element %d is %s, expected %s +- %g", q, (int)change, i, sh(r[i]).c_str(), sh(x[i]).c_str(), tol); break; }
      if (!all_ok(c, comm)) return;
      unchanged(c, *bv, b, "the right hand side"); unchanged(c, *S.A, S.m, "the coefficients"); c.sub++;
    }
  }
  if (!opt.empty()) c.label(opt.substr(0, 40)); if (serial) c.label("serial");
  int parts = 0; for (int i = 0; i < P; i++) parts += d.n[i] > 0;
  c.nontrivial = n > 1 && (P == 1 || parts > 1) && dens > 0; if (parts < P) c.label("process without rows");
}
static void L03(Source &s, Ctx &c) { if (s.flag()) L03T<Z>(s, c); else { c.label("real"); L03T<double>(s, c); } }

// ---- L04 ------------------------------------------------------------------------
// F_i(x) = d_i (x_i - r_i) + sum_j c_ij (g(x_j) - g(r_j)), diagonally dominant near the root r; rootless: x_i^2 + 1
static double gfun(double x, int k) { return k == 0 ? 0 : k == 1 ? 0.25 * x * x : sin(x); } static double gder(double x, int k) { return k == 0 ? 0 : k == 1 ? 0.5 * x : cos(x); }
static Z gfun(Z x, int k) { return k == 0 ? Z(0) : Z(0.25) * x * x; } static Z gder(Z x, int k) { return k == 0 ? Z(0) : Z(0.5) * x; }
template <class T> struct NL {
  Dist d; int me; std::vector<T> dg, r; MM<T> cc; int g; bool none; int fcalls, jcalls; double K, dom;
  std::vector<T> F(const std::vector<T> &x) const {
    std::vector<T> f(d.tot); for (int i = 0; i < d.tot; i++) { if (none) { f[i] = x[i] * x[i] + T(1); continue; } f[i] = dg[i] * (x[i] - r[i]); for (int j = 0; j < d.tot; j++) if (cc[i][j] != T(0)) f[i] += cc[i][j] * (gfun(x[j], g) - gfun(r[j], g)); }
    return f;
  }
  void function(const gm::VectorT<T> &X, gm::VectorT<T> &Fv) {
    std::vector<T> x(d.tot); X.getAllElements(&x[0]); std::vector<T> f = F(x); fcalls++; Fv.zero();
    for (int i = d.off[me]; i < d.off[me + 1]; i++) Fv.setElement(i, f[i]); Fv.ready();
  }
  void jacobian(const gm::VectorT<T> &X, gm::MatrixT<T> &J) {
    std::vector<T> x(d.tot); X.getAllElements(&x[0]); jcalls++;
    for (int i = d.off[me]; i < d.off[me + 1]; i++) for (int j = 0; j < d.tot; j++) if (i == j || cc[i][j] != T(0)) J.setElement(i, j, none ? (i == j ? T(2) * x[i] : T(0)) : (i == j ? dg[i] : T(0)) + cc[i][j] * gder(x[j], g));
    J.ready();
  }
};
template <class T> void L04T(Source &s, Ctx &c) {
  Comm comm = pick_sub(s, c, 1, 6); int P = comm.size(), me = comm.rank();
  NL<T> q; q.d = gen_dist(s, c, comm, 5); Dist &d = q.d; int n = d.tot; q.me = me; bool real = sizeof(T) == sizeof(double); q.none = false;
  uint64_t seed = s.draw(1 << 20); int dens = s.range(0, 6); q.g = s.range(0, real ? 2 : 1); bool newton = s.flag(), existing = s.chance(1, 3), lu = s.flag(), few = s.chance(1, 6), none = newton && real && s.chance(1, 10);
  q.cc.assign(n, std::vector<T>(n, T(0))); q.dg.resize(n); q.K = 0; q.dom = 1e300; q.none = none; q.fcalls = q.jcalls = 0;
  double dscale = pow(2.0, s.range(0, 6) - 3);
  for (int i = 0; i < n; i++) {
    double o = 0; for (int j = 0; j < n; j++) if ((int)(hsh(seed, i, j) % 8) < dens) { q.cc[i][j] = unit<T>(hsh(seed, j, i + 50)) * (0.1 * dscale); o += std::abs(q.cc[i][j]); }
    double dd = dscale + 3 * o; setv(q.dg[i], (hsh(seed, i, 5) % 3 ? 1 : -1) * dd, real ? 0 : 0.3 * dd); q.dom = std::min(q.dom, std::abs(q.dg[i]) - 1.3 * o);
  }
  double st = pow(10, -s.range(4, 9)), ft = pow(10, -s.range(5, 10)); int mx = few ? s.range(1, 3) : s.range(15, 60);
  std::vector<KV> kv, lin; std::string opt, lo; bool mump = s.flag();
  lo = lu ? std::string("-ksp_type preonly -pc_type lu") + (P > 1 ? (mump ? " -pc_factor_mat_solver_type mumps" : " -pc_factor_mat_solver_type superlu_dist") : "") : "-ksp_type gmres -pc_type jacobi -ksp_rtol 1e-10 -ksp_atol 1e-14";
  kv.push_back(KV("SolutionTolerance", strf("%g", st))); kv.push_back(KV("FunctionTolerance", strf("%g", ft))); kv.push_back(KV("MaxIterations", strf("%d", mx)));
  bool setter = s.chance(1, 4); if (setter) { kv.erase(kv.begin()); kv.pop_back(); }
  if (newton) {
    std::string l = "\n<InitialGuessZero>true</InitialGuessZero><RelativeTolerance>1e-11</RelativeTolerance><SolutionTolerance>1e-14</SolutionTolerance><PETScOptions>" + lo + "</PETScOptions>"; kv.push_back(KV("LinearSolver", l));
  } else { static const char *ls[] = {"", " -snes_linesearch_type basic", " -snes_linesearch_type cp"}; kv.push_back(KV("PETScOptions", lo + ls[s.range(0, 1)])); }
  c.sample = strf("%s, sizes %s, %s%s%s, step %g, function %g, limit %d, %s", real ? "real" : "complex", dshow(d).c_str(), newton ? "Newton-Raphson" : "SNES", none ? ", without root" : "", existing ? ", own matrix" : "", st, ft, mx, lu ? "direct" : "iterative");
  boost::shared_ptr<CF> cf = config(comm, newton ? "NewtonRaphsonSolver" : "NonlinearSolver", kv); CF::CursorPtr cur = cf->getCursor("Configuration");
  boost::scoped_ptr<gm::NonlinearSolverT<T> > solver; boost::scoped_ptr<gm::MatrixT<T> > J;
  typename gm::NonlinearSolverT<T>::JacobianBuilder jb = boost::bind(&NL<T>::jacobian, &q, boost::placeholders::_1, boost::placeholders::_2);
  typename gm::NonlinearSolverT<T>::FunctionBuilder fb = boost::bind(&NL<T>::function, &q, boost::placeholders::_1, boost::placeholders::_2);
  if (existing) {
    J.reset(new gm::MatrixT<T>(comm, d.n[me], d.n[me], gm::Sparse)); for (int i = d.off[me]; i < d.off[me + 1]; i++) for (int j = 0; j < n; j++) if (i == j || q.cc[i][j] != T(0)) J->setElement(i, j, T(1)); J->ready();
    if (newton) solver.reset(new gm::NewtonRaphsonSolverT<T>(*J, jb, fb)); else solver.reset(new gm::NonlinearSolverT<T>(*J, jb, fb));
  } else { if (newton) solver.reset(new gm::NewtonRaphsonSolverT<T>(comm, d.n[me], jb, fb)); else solver.reset(new gm::NonlinearSolverT<T>(comm, d.n[me], jb, fb)); }
  if (setter) { solver->tolerance(st); solver->maximumIterations(mx); if (solver->tolerance() != st || solver->maximumIterations() != mx) c.fail("settings", "tolerance or limit are not those set"); }
  try { solver->configure(cur); } catch (const std::exception &e) { c.fail("configure", "configure failed: %s", e.what()); } if (!all_ok(c, comm)) return;
  if (solver->tolerance() != st || solver->maximumIterations() != mx) c.fail("settings", "tolerance %g and limit %d, configured %g and %d", solver->tolerance(), solver->maximumIterations(), st, mx);
  int times = s.range(1, 3);
  for (int k = 0; k < times && all_ok(c, comm); k++) {
    uint64_t h = s.draw(1 << 20); q.r.resize(n); std::vector<T> x(n); double nx = 0, D = 0;
    for (int i = 0; i < n; i++) { q.r[i] = unit<T>(hsh(h, i, 1)) * (1.4 / 13); x[i] = q.r[i] + unit<T>(hsh(h, i, 2)) * (h % 7 == 0 ? 0.0 : 0.3 / 13); D = std::max(D, std::abs(x[i] - q.r[i])); }
    std::vector<T> f0 = q.F(x); double n0 = 0; for (int i = 0; i < n; i++) { n0 += std::norm(f0[i]); nx += std::norm(x[i]); } n0 = sqrt(n0); nx = sqrt(nx) + 1;
    boost::shared_ptr<gm::VectorT<T> > xv = put_vec(comm, d, x); std::string w; q.fcalls = q.jcalls = 0;
    try { solver->solve(*xv); } catch (const std::exception &e) { w = e.what(); }
    int bad = !w.empty(), any = 0; MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, raw(comm));
    if (any) {
      if (!bad) c.fail("one-sided", "the solver failed on another process only");
      else if (none) c.label("no root reported");
      else if (!few) c.fail("failed", "solver failed %g away from the root: %s", D, w.c_str());
      else c.label("iteration limit"); 
    } else if (none) { c.fail("no root", "a solution was returned for equations that have none"); }
    else {
      std::vector<T> y(n); xv->getAllElements(&y[0]); double tol = newton ? 2 * st + 1e-10 : sqrt((double)n) * 2 * std::max(std::max(ft, 1e-8 * n0 * 1.01) / q.dom, st * nx) + 1e-10;
      for (int i = 0; i < n && !c.failed; i++) if (!(std::abs(y[i] - q.r[i]) <= tol)) c.fail("root", "element %d is %s, the root is %s, allowed %g", i, sh(y[i]).c_str(), sh(q.r[i]).c_str(), tol);
      if (!all_ok(c, comm)) return;
      if (q.jcalls > mx + 1) c.fail("limit", "%d Jacobians were built with an iteration limit of %d", q.jcalls, mx);
    }
    c.sub++;
  }
  c.label(newton ? "Newton-Raphson" : "SNES");
  int parts = 0; for (int i = 0; i < P; i++) parts += d.n[i] > 0; c.nontrivial = n > 1 && dens > 0 && q.g > 0 && (P == 1 || parts > 1); if (parts < P) c.label("process without equations");
}
static void L04(Source &s, Ctx &c) { if (s.flag()) L04T<Z>(s, c); else { c.label("real"); L04T<double>(s, c); } }

// ---- L05 ------------------------------------------------------------------------
// M x' = A x + u0 + u1 t, M diagonal with ones (differential) and zeros (algebraic, solved for by their own equation)
template <class T> struct Lin {
  int n; std::vector<char> diff; MM<T> A; std::vector<T> u0, u1;
  std::vector<T> rhs(const std::vector<T> &x, double t) const { std::vector<T> y = times_vec(A, x); for (int i = 0; i < n; i++) y[i] += u0[i] + u1[i] * t; return y; }
  std::vector<T> step(const std::vector<T> &x, double t, double h, double th) const {      // one theta step with end points
    MM<T> m(n, std::vector<T>(n + 1)); std::vector<T> f0 = rhs(x, t);
    for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) m[i][j] = -A[i][j] * th; if (diff[i]) m[i][i] += T(1 / h); m[i][n] = (diff[i] ? x[i] / T(h) : T(0)) + f0[i] * (1 - th) + (u0[i] + u1[i] * (t + h)) * th; }
    for (int k = 0; k < n; k++) {
      int p = k; for (int i = k; i < n; i++) if (std::abs(m[i][k]) > std::abs(m[p][k])) p = i; std::swap(m[p], m[k]);
      for (int i = 0; i < n; i++) if (i != k && m[i][k] != T(0)) { T f = m[i][k] / m[k][k]; for (int j = k; j <= n; j++) m[i][j] -= f * m[k][j]; }
    }
    std::vector<T> r(n); for (int i = 0; i < n; i++) r[i] = m[i][n] / m[i][i]; return r;
  }
};
struct EvSpec { int owner, obj, var, k; std::vector<double> thr, sg; std::vector<int> dir; std::vector<char> term; double jump; int jvar; };   // var < 0: time
template <class T> struct Track;
template <class T> class Ev : public gm::DAEEventT<T> {
public:
  const EvSpec &e; Track<T> *tr; int calls;
  Ev(const EvSpec &x, Track<T> *t, int loc) : gm::DAEEventT<T>(x.thr.size()), e(x), tr(t), calls(0) {
    this->p_stateIndex = loc; for (size_t i = 0; i < x.thr.size(); i++) { this->p_dir[i] = x.dir[i] < 0 ? gm::CrossZeroNegative : x.dir[i] > 0 ? gm::CrossZeroPositive : gm::CrossZeroEither; this->p_term[i] = x.term[i]; }
  }
  void p_update(const double &t, T *state) { for (size_t i = 0; i < e.thr.size(); i++) this->p_current[i] = T(((e.var < 0 ? t : re(state[0])) - e.thr[i]) * e.sg[i]); }
  void p_handle(const bool *trig, const double &t, T *state);
};
template <class T> struct Track {
  Lin<T> lin; Dist d; int me; MPI_Comm mc; Ctx *c; double th, tnow, dt, tend; bool adaptive, active; std::vector<T> x; gm::VectorT<T> *xv; int steps, pre; std::vector<EvSpec> ev; std::vector<T> jumps; std::vector<int> fired; double tfire; bool term, strict, odd; int nfired; double lastpre;
  double v(const EvSpec &e, int i, const std::vector<T> &y, double t) const { return ((e.var < 0 ? t : re(y[e.var])) - e.thr[i]) * e.sg[i]; }
  void prestep(double t) { pre++; lastpre = t; if (active && t != tnow) c->fail("prestep", "the call before a step has time %.17g, the last step ended at %.17g", t, tnow); }
  void poststep(double t) {
    if (!active) return; steps++; double h = t - tnow; int n = lin.n;
    if (odd) return; if (!ev.empty() && !(h > 1e-12)) { odd = true; return; }     // PETSc's event location at the end of an interval
    if (!(h > 0)) { c->fail("time", "a step went from %.17g to %.17g", tnow, t); return; }
    if (t > tend * (1 + 1e-12) + 1e-12) c->fail("end time", "a step to %.17g, beyond the end time %.17g", t, tend);
    if (!adaptive && h > dt * 1.02) c->fail("step size", "a step of %.17g, the step is %.17g", h, dt);
    std::vector<T> y = lin.step(x, tnow, h, th), got(n); xv->getAllElements(&got[0]);
    int nv = fired.size(); std::vector<int> f(nv + 1), g(nv + 1); for (int i = 0; i < nv; i++) f[i] = fired[i]; f[nv] = 0; MPI_Allreduce(&f[0], &g[0], nv + 1, MPI_INT, MPI_SUM, mc);
    for (size_t e = 0, q = 0; e < ev.size(); e++) { bool any = false;
      for (size_t i = 0; i < ev[e].thr.size(); i++, q++) {
        double v0 = v(ev[e], i, x, tnow), v1 = v(ev[e], i, y, t), eps = 2e-5; int dir = ev[e].dir[i];
        if (getenv("L05DBG")) fprintf(stderr, "t %.12g -> %.12g ev %d.%d dir %d term %d v %.10g -> %.10g handled %d\n", tnow, t, (int)e, (int)i, dir, (int)ev[e].term[i], v0, v1, g[q]);
        bool up = v0 < 0 && v1 > 0, down = v0 > 0 && v1 < 0;
        if (g[q] > 1) c->fail("event", "an event was handled %d times at %g", g[q], t);
        if (g[q]) { any = true; nfired++; if (ev[e].term[i]) term = true;
          if (std::abs(v1) > eps) c->fail("event time", "event %d.%d was handled at %.17g where its value is %g", (int)e, (int)i, t, v1);
          if (strict && ((dir > 0 && v0 > eps) || (dir < 0 && v0 < -eps))) c->fail("event direction", "event %d.%d was handled for a crossing in the other direction (%g before)", (int)e, (int)i, v0);
        } else if (((up && dir >= 0) || (down && dir <= 0)) && std::abs(v0) > eps && std::abs(v1) > eps) c->fail("event missed", "event %d.%d went from %g to %g between %.17g and %.17g and was not handled", (int)e, (int)i, v0, v1, tnow, t);
      }
      if (any && ev[e].jvar >= 0) y[ev[e].jvar] += T(ev[e].jump);
    }
    double sc = 1 + amax(y) + amax(x); for (int i = 0; i < n && !c->failed; i++) if (!(std::abs(got[i] - y[i]) <= 1e-6 * sc)) c->fail("state", "after step %d (from %.17g by %g) element %d is %s, expected %s", steps, tnow, h, i, sh(got[i]).c_str(), sh(y[i]).c_str());
    for (int i = 0; i < nv; i++) fired[i] = 0; x = got; tnow = t;
  }
  void J(double, const gm::VectorT<T> &, const gm::VectorT<T> &, double shift, gm::MatrixT<T> &m) {
    for (int i = d.off[me]; i < d.off[me + 1]; i++) for (int j = 0; j < lin.n; j++) if (i == j || lin.A[i][j] != T(0)) m.setElement(i, j, -lin.A[i][j] + (i == j && lin.diff[i] ? T(shift) : T(0))); m.ready();
  }
  void F(double t, const gm::VectorT<T> &X, const gm::VectorT<T> &Xd, gm::VectorT<T> &f) {
    std::vector<T> y(lin.n), yd(lin.n); X.getAllElements(&y[0]); Xd.getAllElements(&yd[0]); std::vector<T> r = lin.rhs(y, t); f.zero();
    for (int i = d.off[me]; i < d.off[me + 1]; i++) f.setElement(i, (lin.diff[i] ? yd[i] : T(0)) - r[i]); f.ready();
  }
};
template <class T> void Ev<T>::p_handle(const bool *trig, const double &t, T *state) {
  bool any = false; int base = 0; for (size_t i = 0; i < tr->ev.size() && &tr->ev[i] != &e; i++) base += tr->ev[i].thr.size();
  for (size_t i = 0; i < e.thr.size(); i++) if (trig[i]) { any = true; tr->fired[base + i]++; }
  if (!any) tr->c->fail("event", "an event was handled which did not happen"); tr->tfire = t;
  if (any && e.jvar >= 0) state[e.jvar - (e.var < 0 ? tr->d.off[tr->me] : e.var)] += T(e.jump);
}
template <class T> void L05T(Source &s, Ctx &c) {
  Comm comm = pick_sub(s, c, 1, 6); int P = comm.size(), me = comm.rank(); bool real = sizeof(T) == sizeof(double);
  Track<T> k; k.d = gen_dist(s, c, comm, 3); Dist &d = k.d; int n = d.tot; k.me = me; k.mc = raw(comm); k.c = &c; Lin<T> &L = k.lin; L.n = n;
  uint64_t seed = s.draw(1 << 20); int dens = s.range(0, 6), kinds = s.range(0, 3); L.A.assign(n, std::vector<T>(n, T(0))); L.u0.resize(n); L.u1.resize(n); L.diff.assign(n, 1); std::vector<char> lin(n, 0); int ndiff = 0;
  for (int i = 0; i < n; i++) { uint64_t h = hsh(seed, i, 3); L.diff[i] = !(kinds & 1) || h % 3; lin[i] = L.diff[i] && (kinds & 2) && h % 2; ndiff += L.diff[i]; }
  for (int i = 0; i < n; i++) {
    L.u0[i] = unit<T>(hsh(seed, i, 4)) * 0.3; L.u1[i] = lin[i] ? T(0) : unit<T>(hsh(seed, i, 5)) * 0.1; if (lin[i]) continue; double o = 0;
    for (int j = 0; j < n; j++) if (j != i && (L.diff[i] || L.diff[j]) && (int)(hsh(seed, i, j + 9) % 8) < dens) { L.A[i][j] = unit<T>(hsh(seed, j, i + 9)) * 0.05; o += std::abs(L.A[i][j]); }
    T dd; setv(dd, -(0.2 + o), real ? 0 : 0.1 * (int)(seed % 5)); L.A[i][i] = dd;
  }
  int type = s.range(0, 2); bool adaptive = s.chance(1, 4), lu = s.chance(2, 3), own = s.chance(1, 4); k.th = type == 1 ? 0.5 : 1; k.adaptive = adaptive;
  std::string opt = type == 0 ? "-ts_type beuler " : type == 1 ? "-ts_type cn " : "-ts_type theta -ts_theta_theta 1.0 "; if (type == 1 && adaptive) adaptive = k.adaptive = false;
  int nev = s.chance(1, 2) ? s.range(1, 3) : 0; if (nev) adaptive = k.adaptive = false;
  opt += lu ? std::string("-ksp_type preonly -pc_type lu") + (P > 1 ? " -pc_factor_mat_solver_type mumps" : "") : "-ksp_type gmres -pc_type jacobi -ksp_rtol 1e-12 -ksp_atol 1e-14 -ksp_gmres_restart 50";
  opt += " -snes_rtol 1e-10";
  std::vector<KV> kv; kv.push_back(KV("Adaptive", adaptive ? "true" : "false")); kv.push_back(KV("PETScOptions", opt));
  // events on variables that move linearly, or on time
  bool man = nev || s.chance(1, 4); double t0 = s.range(0, 4) * 0.37 - 0.5, span = s.range(1, 8) * 0.5; int nvals = 0;
  double dt = span / (s.range(2, 24) + 0.5 * s.range(0, 1)); VI slot; for (int i = 0; i < 24; i++) slot.push_back(i); if (nev) { for (int i = 7; i > 0; i--) std::swap(slot[i], slot[s.draw(i + 1)]); } int nslot = 0;
  std::vector<EvSpec> all; for (int e = 0; e < nev; e++) {
    EvSpec q; uint64_t h = s.draw(1 << 20); int m = s.range(1, 3); q.var = -1; q.jvar = -1; q.owner = h % P;
    VI cand; for (int i = 0; i < n; i++) if (lin[i] && std::abs(re(L.u0[i])) > 0.2) cand.push_back(i);
    if (cand.size() && h % 4) { q.var = cand[h / 4 % cand.size()]; q.owner = 0; while (q.var >= d.off[q.owner + 1]) q.owner++; }
    for (int i = 0; i < m; i++) { uint64_t g = hsh(h, i, 8); double at = t0 + dt * (4 * slot[nslot++ % 24] + 1.3 + (g % 97) / 100.0); q.thr.push_back(at); q.sg.push_back(g / 7 % 3 ? 1 : -1); q.dir.push_back((int)(g / 31 % 3) - 1); q.term.push_back(g / 101 % 4 == 0); }
    if (h / 64 % 3 == 0) { VI jc; for (int i = d.off[q.owner]; i < d.off[q.owner + 1]; i++) if (L.diff[i] && !lin[i]) jc.push_back(i); if (jc.size()) { q.jvar = jc[h / 512 % jc.size()]; q.jump = 0.5 + h % 5; } }
    all.push_back(q); nvals += m;
  }
  k.dt = dt; k.ev = all; k.fired.assign(nvals, 0);
  c.sample = strf("%s, sizes %s, %s%s, %d differential, from %g by %g, %d events (%d values)", real ? "real" : "complex", dshow(d).c_str(), opt.substr(9, 6).c_str(), adaptive ? " adaptive" : "", ndiff, t0, dt, nev, nvals);
  std::vector<T> x0(n);
  for (int i = 0; i < n; i++) x0[i] = unit<T>(hsh(seed, i, 6)) * 0.3;
  auto consistent = [&](std::vector<T> &x, double t) { for (int i = 0; i < n; i++) if (!L.diff[i]) { T r = L.u0[i] + L.u1[i] * t; for (int j = 0; j < n; j++) if (j != i) r += L.A[i][j] * x[j]; x[i] = -r / L.A[i][i]; } };
  consistent(x0, t0);
  for (size_t e = 0; e < k.ev.size(); e++) if (k.ev[e].var >= 0) for (size_t i = 0; i < k.ev[e].thr.size(); i++) k.ev[e].thr[i] = re(x0[k.ev[e].var]) + re(L.u0[k.ev[e].var]) * (k.ev[e].thr[i] - t0);
  boost::shared_ptr<gm::DAEEventManagerT<T> > em; std::vector<boost::shared_ptr<Ev<T> > > mine;
  if (man) { em.reset(new gm::DAEEventManagerT<T>()); for (size_t e = 0; e < k.ev.size(); e++) if (k.ev[e].owner == me) { boost::shared_ptr<Ev<T> > p(new Ev<T>(k.ev[e], &k, k.ev[e].var < 0 ? 0 : k.ev[e].var - d.off[me])); mine.push_back(p); em->add(p); } }
  if (man) {
    VI dir; std::vector<char> tf; for (size_t e = 0; e < k.ev.size(); e++) if (k.ev[e].owner == me) { dir.insert(dir.end(), k.ev[e].dir.begin(), k.ev[e].dir.end()); tf.insert(tf.end(), k.ev[e].term.begin(), k.ev[e].term.end()); }
    if (em->size() != (int)dir.size()) c.fail("manager", "the event manager counts %d values, it has %d", em->size(), (int)dir.size());
    for (size_t i = 0; i < dir.size() && !c.failed; i++) if ((int)em->directions()[i] != dir[i] || em->terminateFlags()[i] != (bool)tf[i]) c.fail("manager", "the direction or flag of value %d is not that of its event", (int)i);
  }
  boost::shared_ptr<CF> cf = config(comm, "DAESolver", kv); CF::CursorPtr cur = cf->getCursor("Configuration");
  namespace bp = boost::placeholders;
  typename gm::DAESolverT<T>::JacobianBuilder jb = boost::bind(&Track<T>::J, &k, bp::_1, bp::_2, bp::_3, bp::_4, bp::_5);
  typename gm::DAESolverT<T>::FunctionBuilder fb = boost::bind(&Track<T>::F, &k, bp::_1, bp::_2, bp::_3, bp::_4);
  typename gm::DAESolverT<T>::StepFunction pre = boost::bind(&Track<T>::prestep, &k, bp::_1), post = boost::bind(&Track<T>::poststep, &k, bp::_1);
  boost::scoped_ptr<gm::MatrixT<T> > J; boost::scoped_ptr<gm::DAESolverT<T> > solver;
  if (own) { J.reset(new gm::MatrixT<T>(comm, d.n[me], d.n[me], gm::Sparse)); for (int i = d.off[me]; i < d.off[me + 1]; i++) for (int j = 0; j < n; j++) if (i == j || L.A[i][j] != T(0)) J->setElement(i, j, T(1)); J->ready(); }
  if (own) solver.reset(new gm::DAESolverT<T>(comm, d.n[me], J.get(), jb, fb, em)); else solver.reset(new gm::DAESolverT<T>(comm, d.n[me], jb, fb, em));
  try { solver->configure(cur); } catch (const std::exception &e) { c.fail("configure", "configure failed: %s", e.what()); } if (!all_ok(c, comm)) return;
  solver->preStep(pre); solver->postStep(post);
  boost::shared_ptr<gm::VectorT<T> > xv = put_vec(comm, d, x0); k.xv = xv.get(); k.x = x0; k.tnow = t0; k.active = true; k.nfired = 0; k.term = k.strict = k.odd = false; k.dt = dt;
  solver->initialize(t0, dt, *xv);
  int nseg = s.range(1, 4), total = 0;
  for (int q = 0; q < nseg && all_ok(c, comm); q++) {
    if (q && !nev && s.chance(1, 4)) {     // another start
      t0 = s.range(0, 4) * 0.41 - 0.3; uint64_t h = s.draw(1 << 20); for (int i = 0; i < n; i++) x0[i] = lin[i] ? x0[i] : unit<T>(hsh(h, i, 7)) * 0.3; consistent(x0, t0); dt *= s.flag() ? 0.5 : 1.5; k.dt = dt;
      xv = put_vec(comm, d, x0); k.xv = xv.get(); k.x = x0; k.tnow = t0; solver->initialize(t0, dt, *xv); c.label("another start");
    }
    bool lim = s.chance(1, 3) && !nev; double end = k.tnow + span * s.range(1, 6) / 6.0; if (nev) end = t0 + 4 * dt * (floor((k.tnow - t0) / dt / 4 + 1e-9) + s.range(1, 4)); double out = end; int mx = lim ? s.range(1, 4) : 200, steps = mx; k.tend = end; k.steps = k.pre = 0; std::string w;
    try { solver->solve(out, steps); } catch (const std::exception &e) { w = e.what(); c.fail("failed", "integration from %g to %g failed: %s", k.tnow, end, e.what()); }
    if (!all_ok(c, comm)) return;
    if (k.odd) { c.label("stuck at the end of an interval"); return; }
    bool tm = solver->terminated(); total += k.steps;
    if (steps != k.steps) c.fail("steps", "solve reports %d steps, %d were made", steps, k.steps);
    if (k.steps > mx) c.fail("steps", "%d steps were made, %d allowed", k.steps, mx);
    if (std::abs(out - k.tnow) > 1e-12 * (1 + std::abs(out))) c.fail("end time", "solve reports that it ended at %.17g, the last step ended at %.17g", out, k.tnow);
    if (tm != k.term) c.fail("terminated", "terminated() is %d, %s terminating event was handled", (int)tm, k.term ? "a" : "no");
    if (!k.term && k.steps < mx && std::abs(out - end) > 1e-10 * (1 + std::abs(end))) c.fail("end time", "solve was to end at %.17g and ended at %.17g after %d steps", end, out, k.steps);
    std::vector<T> got(n); xv->getAllElements(&got[0]); for (int i = 0; i < n && !c.failed; i++) if (got[i] != k.x[i]) c.fail("solution", "the solution vector does not hold the last state");
    if (lim && k.steps == mx) c.label("step limit"); if (k.term) { c.label("terminated"); solver->terminated(false); if (solver->terminated()) c.fail("terminated", "terminated(false) has no effect"); break; }
    c.sub++;
  }
  if (k.nfired) c.label("events"); c.label(opt.substr(0, 14)); if (ndiff < n) c.label("algebraic");
  int parts = 0; for (int i = 0; i < P; i++) parts += d.n[i] > 0; c.nontrivial = n > 1 && total > 2 && (P == 1 || parts > 1); if (parts < P) c.label("process without equations");
}
static void L05(Source &s, Ctx &c) { if (s.flag()) L05T<Z>(s, c); else { c.label("real"); L05T<double>(s, c); } }

// the recorded finding: the direction of an event is passed to PETSc, which ignores it
static void L05X(Source &s, Ctx &c) {
  gridpack::parallel::Communicator comm; int me = comm.rank(); Track<double> k; Dist d; d.n.assign(comm.size(), 1); spread(d); k.d = d; k.me = me; k.mc = raw(comm); k.c = &c; k.th = 1; k.adaptive = false;
  k.lin.n = d.tot; k.lin.A.assign(d.tot, std::vector<double>(d.tot, 0)); k.lin.u0.assign(d.tot, 1); k.lin.u1.assign(d.tot, 0); k.lin.diff.assign(d.tot, 1);
  EvSpec q; q.owner = 0; q.var = -1; q.jvar = -1; q.thr.push_back(0.4 + 0.01 * s.range(0, 9)); q.sg.push_back(1); q.dir.push_back(-1); q.term.push_back(0); k.ev.push_back(q); k.fired.assign(1, 0);
  boost::shared_ptr<gm::DAEEventManagerT<double> > em(new gm::DAEEventManagerT<double>()); if (me == 0) em->add(boost::shared_ptr<Ev<double> >(new Ev<double>(k.ev[0], &k, 0)));
  namespace bp = boost::placeholders; std::vector<KV> kv; kv.push_back(KV("Adaptive", "false")); kv.push_back(KV("PETScOptions", "-ts_type beuler -pc_type jacobi"));
  boost::shared_ptr<CF> cf = config(comm, "DAESolver", kv); CF::CursorPtr cur = cf->getCursor("Configuration");
  gm::DAESolverT<double>::JacobianBuilder jb = boost::bind(&Track<double>::J, &k, bp::_1, bp::_2, bp::_3, bp::_4, bp::_5); gm::DAESolverT<double>::FunctionBuilder fb = boost::bind(&Track<double>::F, &k, bp::_1, bp::_2, bp::_3, bp::_4);
  gm::DAESolverT<double>::StepFunction post = boost::bind(&Track<double>::poststep, &k, bp::_1);
  gm::DAESolverT<double> solver(comm, 1, jb, fb, em); solver.configure(cur); solver.postStep(post);
  std::vector<double> x0(d.tot, 0); boost::shared_ptr<gm::VectorT<double> > xv = put_vec(comm, d, x0); k.xv = xv.get(); k.x = x0; k.tnow = 0; k.active = k.strict = true; k.nfired = 0; k.term = k.odd = false; k.dt = 0.25; k.tend = 1; k.steps = k.pre = 0;
  solver.initialize(0, 0.25, *xv); double out = 1; int n = 100; c.sample = "rising value, falling direction requested"; c.nontrivial = true; solver.solve(out, n);
}

int main(int argc, char **argv) {
  pbt::Registry r; r["L03"] = L03; r["L04"] = L04; r["L05"] = L05; r["L05X"] = L05X;
  return pbt_main(argc, argv, r);
}
