// Numbers, distributions, and matrices with a model of their values.
#ifndef MATHX_HPP
#define MATHX_HPP
#include "net.hpp"
#include "main.hpp"
#include "comm.hpp"
#include <boost/scoped_ptr.hpp>
#include <boost/shared_ptr.hpp>
#include "gridpack/math/math.hpp"
using pbt::Source; using pbt::Ctx;
typedef gridpack::ComplexType Z;
typedef std::vector<int> VI;
namespace gm = gridpack::math;

// ---- numbers, generic over real and complex ----------------------------------
static double rnd(uint64_t h) {                 // mixture of magnitudes
  double u = (double)(hsh(h, 11, 3) >> 11) / (double)(1ULL << 53);
  switch (hsh(h, 5, 9) % 4) {
    case 0: return (double)((int)(u * 21) - 10);
    case 1: return (u - 0.5) * 4;
    case 2: return (u - 0.5) * 2000;
    default: return (u - 0.5) * 1e-3;
  }
}
static void mk(uint64_t h, double &x) { x = rnd(h); }
static void mk(uint64_t h, Z &x) { x = hsh(h, 2, 7) % 5 == 0 ? Z(rnd(h), 0) : Z(rnd(h), rnd(h ^ 0x5555)); }
template <class T> T val(uint64_t a, uint64_t b, uint64_t k = 0) { T x; mk(hsh(a * 31 + k, b, 77), x); return x; }
static double re(double x) { return x; } static double re(Z x) { return x.real(); }
static double im(double) { return 0; } static double im(Z x) { return x.imag(); }
static double cj(double x) { return x; } static Z cj(Z x) { return std::conj(x); }
template <class T> void setv(T &x, double a, double b);
template <> void setv(double &x, double a, double) { x = a; }
template <> void setv(Z &x, double a, double b) { x = Z(a, b); }
static bool fin(double x) { return std::isfinite(x); } static bool fin(Z x) { return std::isfinite(x.real()) && std::isfinite(x.imag()); }
template <class T> std::string sh(T x) { return im(x) == 0 ? strf("%.17g", re(x)) : strf("(%.17g,%.17g)", re(x), im(x)); }

// a distribution of n items over the processes of a group
struct Dist { VI n, off; int tot; };
static void spread(Dist &d) {
  d.off.assign(1, 0); for (size_t i = 0; i < d.n.size(); i++) d.off.push_back(d.off.back() + d.n[i]);
  d.tot = d.off.back();
}
static Dist gen_dist(Source &s, const Ctx &c, const Comm &comm, int mx, int mn = 0) {
  Dist d; VI q; for (int i = 0; i < c.size; i++) q.push_back(s.chance(1, 4) ? 0 : s.range(0, mx));
  d.n.assign(q.begin(), q.begin() + comm.size());
  int t = 0; for (size_t i = 0; i < d.n.size(); i++) t += d.n[i];
  if (t < (mn > 1 ? mn : 1)) d.n[d.n.size() - 1] += (mn > 1 ? mn : 1) - t;
  spread(d); return d;
}
static Dist same_total(Source &s, const Ctx &c, const Comm &comm, const Dist &o) {     // another distribution of as many items
  Dist d; std::vector<uint64_t> w; for (int i = 0; i < c.size; i++) w.push_back(s.range(0, 7));
  uint64_t sum = 0; for (int i = 0; i < comm.size(); i++) sum += w[i];
  int left = o.tot; for (int i = 0; i < comm.size(); i++) { int k = sum ? (int)(o.tot * w[i] / sum) : 0; d.n.push_back(k); left -= k; }
  d.n[s.draw(64) % d.n.size()] += left; spread(d); return d;
}
static std::string dshow(const Dist &d) { std::string r; for (size_t i = 0; i < d.n.size(); i++) r += strf("%s%d", i ? "," : "", d.n[i]); return r; }
static int idx(Source &s, int n) { return (int)(s.draw(1 << 12) % n); }

template <class T> struct PM {
  boost::shared_ptr<gm::MatrixT<T> > a; std::vector<std::vector<T> > m; int rs, cs;   // row and column space
  bool dense, known, diag; std::vector<std::vector<char> > pat;                            // structure, when known
};
template <class T> static double mmax(const PM<T> &p) { double x = 0; for (size_t i = 0; i < p.m.size(); i++) for (size_t j = 0; j < p.m[i].size(); j++) x = std::max(x, std::abs(p.m[i][j])); return x; }
template <class T> using MM = std::vector<std::vector<T> >;
template <class T> void read_all(gm::MatrixT<T> &a, const VI &rows, MM<T> &out, Ctx &c) {
  int nc = a.cols(); std::vector<T> x(rows.size() * nc + 1); setv(x.back(), -7.25, 0);
  if (rows.size()) a.getRowBlock(rows.size(), &rows[0], &x[0]);
  if (x.back() != T(-7.25)) c.fail("overrun", "getRowBlock wrote past the end");
  out.assign(rows.size(), std::vector<T>(nc)); for (size_t i = 0; i < rows.size(); i++) for (int j = 0; j < nc; j++) out[i][j] = x[i * nc + j];
}
template <class T> void mcheck(Ctx &c, const Comm &comm, const Dist *sp, PM<T> &p, const MM<T> &want, const MM<double> &mag, const std::string &op, double tol = 1e-13) {
  const Dist &R = sp[p.rs], &C = sp[p.cs]; int me = comm.rank(); gm::MatrixT<T> &a = *p.a;
  int lo, hi; a.localRowRange(lo, hi);
  if (a.rows() != R.tot || a.cols() != C.tot || a.localRows() != R.n[me] || a.localCols() != C.n[me] || lo != R.off[me] || hi != R.off[me + 1])
    c.fail("layout/" + op, "after %s: %dx%d, local %dx%d, rows [%d,%d), expected %dx%d, %dx%d, [%d,%d)", op.c_str(), a.rows(), a.cols(), a.localRows(), a.localCols(), lo, hi, R.tot, C.tot, R.n[me], C.n[me], R.off[me], R.off[me + 1]);
  if (!all_ok(c, comm)) return;
  VI all; for (int i = 0; i < R.tot; i++) all.push_back(i);
  MM<T> got; read_all(a, all, got, c);
  for (int i = 0; i < R.tot && !c.failed; i++) for (int j = 0; j < C.tot; j++) {
    double t = tol * (std::abs(want[i][j]) + (mag.empty() ? 0 : mag[i][j]));
    if (!(std::abs(got[i][j] - want[i][j]) <= t)) { c.fail("value/" + op, "after %s: element (%d,%d) is %s, expected %s", op.c_str(), i, j, sh(got[i][j]).c_str(), sh(want[i][j]).c_str()); break; }
  }
  for (int i = lo; i < hi && !c.failed; i++) for (int j = 0; j < C.tot; j++) { T x; a.getElement(i, j, x); if (x != got[i][j]) { c.fail("read", "after %s: getElement(%d,%d) is %s, getRowBlock has %s", op.c_str(), i, j, sh(x).c_str(), sh(got[i][j]).c_str()); break; } }
  if ((a.storageType() == gm::Dense) != p.dense) c.fail("storage", "after %s: storage type is %s", op.c_str(), p.dense ? "sparse" : "dense");
  p.m = got;
}
template <class T> void vec_is(Ctx &c, const Comm &comm, const Dist &d, gm::VectorT<T> &v, const std::vector<T> &want, const std::vector<double> &mag, const std::string &op) {
  if (v.size() != d.tot || v.localSize() != d.n[comm.rank()]) { c.fail("layout/" + op, "%s: vector of %d (%d local), expected %d (%d)", op.c_str(), v.size(), v.localSize(), d.tot, d.n[comm.rank()]); }
  if (!all_ok(c, comm)) return;
  std::vector<T> x(d.tot); v.getAllElements(&x[0]);
  for (int i = 0; i < d.tot && !c.failed; i++) if (!(std::abs(x[i] - want[i]) <= 1e-13 * (std::abs(want[i]) + (mag.empty() ? 0 : mag[i])))) c.fail("value/" + op, "%s: element %d is %s, expected %s", op.c_str(), i, sh(x[i]).c_str(), sh(want[i]).c_str());
}
template <class T> boost::shared_ptr<gm::VectorT<T> > mkvec(const Comm &comm, const Dist &d, uint64_t seed, std::vector<T> &m) {
  boost::shared_ptr<gm::VectorT<T> > v(new gm::VectorT<T>(comm, d.n[comm.rank()])); m.resize(d.tot); v->zero();
  for (int i = 0; i < d.tot; i++) m[i] = val<T>(seed, i, 9);
  for (int i = d.off[comm.rank()]; i < d.off[comm.rank() + 1]; i++) v->setElement(i, m[i]);
  v->ready(); return v;
}
// a new matrix; the entries are a function of seed
template <class T> PM<T> mkmat(Source &s, Ctx &c, const Comm &comm, const Dist *sp, int rs, int cs, int kind, bool fulldiag) {
  const Dist &R = sp[rs], &C = sp[cs]; int me = comm.rank(); PM<T> p; p.rs = rs; p.cs = cs; p.dense = kind >= 3; p.known = true; p.diag = p.dense || fulldiag;
  uint64_t seed = s.draw(1 << 20); int dens = s.range(1, 5); bool adds = s.chance(1, 3), off = s.chance(1, 3); int how = s.range(0, 2);
  p.m.assign(R.tot, std::vector<T>(C.tot, T(0))); p.pat.assign(R.tot, std::vector<char>(C.tot, p.dense));
  VI nz; int mxnz = 1;
  for (int i = 0; i < R.tot; i++) { int k = 0; for (int j = 0; j < C.tot; j++) if ((int)(hsh(seed, i, j) % 5) < dens || (fulldiag && i == j)) { p.pat[i][j] = 2; k++; } if (i >= R.off[me] && i < R.off[me + 1]) nz.push_back(k); mxnz = std::max(mxnz, k); }
  nz.push_back(0);
  switch (kind) {
    case 0: p.a.reset(new gm::MatrixT<T>(comm, R.n[me], C.n[me], gm::Sparse)); break;
    case 1: p.a.reset(new gm::MatrixT<T>(comm, R.n[me], C.n[me], mxnz)); break;
    case 2: p.a.reset(new gm::MatrixT<T>(comm, R.n[me], C.n[me], &nz[0])); break;
    case 3: p.a.reset(new gm::MatrixT<T>(comm, R.n[me], C.n[me], gm::Dense)); break;
    default: {      // with the global sizes, zero local rows would mean "not specified"
      bool gr = s.flag() && *std::min_element(R.n.begin(), R.n.end()) > 0, gc = s.flag() && *std::min_element(C.n.begin(), C.n.end()) > 0;
      p.a.reset(gm::MatrixT<T>::createDense(comm, gr ? R.tot : 0, gc ? C.tot : 0, R.n[me], C.n[me])); }
  }
  VI ii, jj; std::vector<T> xx;
  for (int i = 0; i < R.tot; i++) for (int j = 0; j < C.tot; j++) if (p.pat[i][j] == 2) {
    int owner = 0; while (i >= R.off[owner + 1]) owner++;
    for (int q = 0; q < (adds ? 2 : 1); q++) {
      int by = off && hsh(seed, i, j + 1000 * q) % 3 == 0 ? (int)(hsh(seed, j, i + 77 * q) % comm.size()) : owner;
      T x = val<T>(seed, i * 1009 + j, q); if (q) p.m[i][j] += x; else p.m[i][j] = x;
      if (by == me) { ii.push_back(i); jj.push_back(j); xx.push_back(x); }
    }
  }
  if (off && comm.size() > 1) c.label("off-process entries");
  if (how == 0) for (size_t k = 0; k < ii.size(); k++) { if (adds) p.a->addElement(ii[k], jj[k], xx[k]); else p.a->setElement(ii[k], jj[k], xx[k]); }
  else { if (how == 2) { std::reverse(ii.begin(), ii.end()); std::reverse(jj.begin(), jj.end()); std::reverse(xx.begin(), xx.end()); }
    int n = ii.size(); ii.push_back(0); jj.push_back(0); xx.push_back(T(0)); if (adds) p.a->addElements(n, &ii[0], &jj[0], &xx[0]); else p.a->setElements(n, &ii[0], &jj[0], &xx[0]); }
  p.a->ready();
  return p;
}
template <class T> MM<T> matmul(const MM<T> &a, const MM<T> &b, MM<double> &mag, int nc) {
  MM<T> r(a.size(), std::vector<T>(nc, T(0))); mag.assign(a.size(), std::vector<double>(nc, 0));
  for (size_t i = 0; i < a.size(); i++) for (int j = 0; j < nc; j++) for (size_t k = 0; k < b.size(); k++) { r[i][j] += a[i][k] * b[k][j]; mag[i][j] += std::abs(a[i][k] * b[k][j]); }
  return r;
}
template <class T> MM<T> transp(const MM<T> &a, int nc) { MM<T> r(nc, std::vector<T>(a.size())); for (size_t i = 0; i < a.size(); i++) for (int j = 0; j < nc; j++) r[j][i] = a[i][j]; return r; }

#endif
