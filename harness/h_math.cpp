// L01, L02: distributed vectors and matrices.
#include "mathx.hpp"

// ---- L01 ------------------------------------------------------------------------
template <class T> struct PV { boost::shared_ptr<gm::VectorT<T> > v; std::vector<T> m; };
// values equal the model, element by element, by every way of reading
template <class T> void vcheck(Ctx &c, const Comm &comm, const Dist &d, PV<T> &p, const std::vector<T> &want, const std::vector<double> &mag, const char *op, int how, double tol = 4e-14) {
  int me = comm.rank(), lo, hi, n = d.n[me], o = d.off[me];
  gm::VectorT<T> &v = *p.v;
  v.localIndexRange(lo, hi);
  if (v.size() != d.tot || v.localSize() != n || (n && (lo != o || hi != o + n)) || hi - lo != n) c.fail("layout", "after %s: size %d local %d range [%d,%d), expected %d, %d, [%d,%d)", op, v.size(), v.localSize(), lo, hi, d.tot, n, o, o + n);
  std::vector<T> all(d.tot + 1); setv(all[d.tot], -7.25, 0);
  v.getAllElements(&all[0]);
  if (all[d.tot] != T(-7.25)) c.fail("overrun", "getAllElements wrote past the end");
  for (int i = 0; i < d.tot && !c.failed; i++) {
    double t = tol * (std::abs(want[i]) + mag[i]);
    if (!(std::abs(all[i] - want[i]) <= t)) c.fail(strf("value/%s", op), "after %s: element %d is %s, expected %s", op, i, sh(all[i]).c_str(), sh(want[i]).c_str());
  }
  std::vector<T> loc(n + 1);
  if (how % 4 == 3) { T *a = v.getLocalElements(); for (int i = 0; i < n; i++) loc[i] = a[i]; v.releaseLocalElements(a); }   // on all processes
  if (n && !c.failed) {
    switch (how % 4) {
      case 0: for (int i = 0; i < n; i++) v.getElement(lo + i, loc[i]); break;
      case 1: { VI ix; for (int i = 0; i < n; i++) ix.push_back(hi - 1 - i); std::vector<T> x(n); v.getElements(n, &ix[0], &x[0]); for (int i = 0; i < n; i++) loc[n - 1 - i] = x[i]; break; }
      case 2: v.getElementRange(lo, hi, &loc[0]); break;
      default: break;
    }
    for (int i = 0; i < n && !c.failed; i++) if (loc[i] != all[o + i] && !(loc[i] != loc[i])) c.fail("read", "after %s: local read %d of element %d gives %s, the whole vector has %s", op, how % 4, o + i, sh(loc[i]).c_str(), sh(all[o + i]).c_str());
  }
  p.m.assign(all.begin(), all.end() - 1);
}
template <class T> void L01T(Source &s, Ctx &c) {
  Comm comm = pick_sub(s, c, 1, 5);
  Dist d = gen_dist(s, c, comm, 6);
  int me = comm.rank(), n = d.tot;
  std::vector<PV<T> > pool; pool.reserve(16);
  c.sample = "sizes " + dshow(d);
  std::vector<double> mag(n, 0.0);
  std::string ops; int nops = s.range(1, 12), done = 0;
  for (int k = 0; k < nops && all_ok(c, comm); k++) {
    if (pool.empty() || (pool.size() < 4 && s.chance(1, 5))) {
      PV<T> p;
      p.v.reset(new gm::VectorT<T>(comm, d.n[me])); p.v->zero(); p.m.assign(n, T(0));
      std::vector<T> w(n); uint64_t seed = s.draw(1 << 20);
      for (int i = 0; i < n; i++) w[i] = val<T>(seed, i);
      for (int i = d.off[me]; i < d.off[me + 1]; i++) p.v->setElement(i, w[i]);
      p.v->ready();
      std::fill(mag.begin(), mag.end(), 0.0);
      pool.push_back(p); vcheck(c, comm, d, pool.back(), w, mag, "setElement", s.range(0, 3));
      continue;
    }
    int a = (int)s.draw(1 << 10) % pool.size(), b = (int)s.draw(1 << 10) % pool.size(), op = s.range(0, 27), how = s.range(0, 3);
    uint64_t seed = s.draw(1 << 20);
    PV<T> &A = pool[a], &B = pool[b];
    std::vector<T> w(A.m), bm(B.m), am(A.m); std::fill(mag.begin(), mag.end(), 0.0);
    const char *nm = "";
    double mx = 0, mn = 1e300, bmn = 1e300, mre = 0; for (int i = 0; i < n; i++) { mx = std::max(mx, std::abs(w[i])); mn = std::min(mn, std::abs(w[i])); bmn = std::min(bmn, std::abs(bm[i])); mre = std::max(mre, fabs(re(w[i]))); }
    if (mx > 1e6) op = 100;
    if (op == 14 && (bmn < 1e-3 || a == b)) op = 13;
    if (op == 13 && a == b) op = 12;
    if (op == 18 && mre > 15) op = 101;
    if (op == 19 && mn < 1e-3) op = 7;
    bool same = a == b;
    T x; mk(seed * 77 + 1, x);
    done++;
    switch (op) {
      case 0: case 1: case 2: {      // writes: some of the elements, possibly repeated
        nm = op == 0 ? "setElements" : op == 1 ? "addElements" : "addElement";
        VI ix; std::vector<T> xs;
        for (int q = 0; q < 2; q++) for (int i = d.off[me + 1] - 1; i >= d.off[me]; i--) if (hsh(seed, i, q) % 3) { ix.push_back(i); xs.push_back(val<T>(seed, i, q)); }
        if (op == 2) for (size_t i = 0; i < ix.size(); i++) A.v->addElement(ix[i], xs[i]);
        else { VI ij(ix); std::vector<T> xx(xs); ij.push_back(0); xx.push_back(T(0)); if (op == 0) A.v->setElements(ix.size(), &ij[0], &xx[0]); else A.v->addElements(ix.size(), &ij[0], &xx[0]); }
        A.v->ready();
        for (int q = 0; q < 2; q++) for (int i = 0; i < n; i++) if (hsh(seed, i, q) % 3) { T y = val<T>(seed, i, q); mag[i] += std::abs(y) + std::abs(w[i]); if (op == 0) w[i] = y; else w[i] += y; }
        break; }
      case 3: case 4: {              // part of the local range
        nm = op == 3 ? "setElementRange" : "addElementRange";
        for (int r = 0; r < comm.size(); r++) {
          int len = d.n[r]; int lo = d.off[r] + (len ? hsh(seed, r, 1) % (len + 1) : 0), hi = lo + hsh(seed, r, 2) % (d.off[r + 1] - lo + 1);
          std::vector<T> xs(1); for (int i = lo; i < hi; i++) { T y = val<T>(seed, i, 3); xs.insert(xs.end() - 1, y); mag[i] = std::abs(y) + std::abs(w[i]); if (op == 3) w[i] = y; else w[i] += y; }
          if (r == me) { if (op == 3) A.v->setElementRange(lo, hi, &xs[0]); else A.v->addElementRange(lo, hi, &xs[0]); }
        }
        A.v->ready();
        break; }
      case 5: { nm = "getLocalElements"; T *p = A.v->getLocalElements(); for (int i = 0; i < d.n[me]; i++) if (hsh(seed, d.off[me] + i, 4) % 2) p[i] = val<T>(seed, d.off[me] + i, 5); A.v->releaseLocalElements(p);
        for (int i = 0; i < n; i++) if (hsh(seed, i, 4) % 2) w[i] = val<T>(seed, i, 5); break; }
      case 6: nm = "zero"; A.v->zero(); std::fill(w.begin(), w.end(), T(0)); break;
      case 7: nm = "fill"; A.v->fill(x); std::fill(w.begin(), w.end(), x); break;
      case 8: nm = "scale"; A.v->scale(x); for (int i = 0; i < n; i++) w[i] *= x; break;
      case 100: nm = "scale"; setv(x, 1e-6, 0); A.v->scale(x); for (int i = 0; i < n; i++) w[i] *= x; break;
      case 101: nm = "scale"; setv(x, 10 / mre, 0); A.v->scale(x); for (int i = 0; i < n; i++) w[i] *= x; break;
      case 9: nm = "add vector"; if (same) { pool.push_back(PV<T>()); pool.back().v.reset(A.v->clone()); A.v->add(*pool.back().v); pool.pop_back(); } else A.v->add(*B.v);
        for (int i = 0; i < n; i++) { mag[i] = std::abs(w[i]) + std::abs(bm[i]); w[i] += bm[i]; } break;
      case 10: nm = "add scaled vector"; if (same) { nm = "fill"; A.v->fill(x); std::fill(w.begin(), w.end(), x); break; } A.v->add(*B.v, x);
        for (int i = 0; i < n; i++) { mag[i] = std::abs(w[i]) + std::abs(bm[i] * x); w[i] += x * bm[i]; } break;
      case 11: nm = "add value"; A.v->add(x); for (int i = 0; i < n; i++) { mag[i] = std::abs(w[i]) + std::abs(x); w[i] += x; } break;
      case 12: nm = "equate"; A.v->equate(*B.v); w = bm; break;
      case 13: nm = "elementMultiply"; A.v->elementMultiply(*B.v); for (int i = 0; i < n; i++) w[i] *= bm[i]; break;
      case 14: nm = "elementDivide"; A.v->elementDivide(*B.v); for (int i = 0; i < n; i++) w[i] /= bm[i]; break;
      case 15: nm = "abs"; A.v->abs(); for (int i = 0; i < n; i++) w[i] = T(std::abs(w[i])); break;
      case 16: nm = "real"; A.v->real(); for (int i = 0; i < n; i++) setv(w[i], re(w[i]), 0); break;
      case 17: nm = "imaginary"; A.v->imaginary(); for (int i = 0; i < n; i++) setv(w[i], im(w[i]), 0); break;
      case 18: nm = "exp"; A.v->exp(); for (int i = 0; i < n; i++) { mag[i] = 2000 * std::abs(std::exp(w[i])); w[i] = std::exp(w[i]); } break;
      case 19: nm = "reciprocal"; A.v->reciprocal(); for (int i = 0; i < n; i++) w[i] = T(1) / w[i]; break;
      case 20: nm = "conjugate"; A.v->conjugate(); for (int i = 0; i < n; i++) w[i] = cj(w[i]); break;
      case 21: { nm = "norms"; double n1 = 0, n2 = 0, ni = 0; for (int i = 0; i < n; i++) { n1 += std::abs(w[i]); n2 += std::norm(w[i]); ni = std::max(ni, std::abs(w[i])); } n2 = sqrt(n2);
        double g1 = A.v->norm1(), g2 = A.v->norm2(), gi = A.v->normInfinity();
        if (fabs(g1 - n1) > 1e-12 * n1 || fabs(g2 - n2) > 1e-12 * n2 || fabs(gi - ni) > 1e-12 * ni) c.fail("norm", "norms (1,2,inf) are %.17g %.17g %.17g, expected %.17g %.17g %.17g", g1, g2, gi, n1, n2, ni);
        break; }
      case 22: { nm = "clone"; PV<T> q; q.v.reset(A.v->clone()); q.m = w; if (pool.size() < 5) { pool.push_back(q); vcheck(c, comm, d, pool.back(), w, mag, "clone", how); T y(3); q.v->fill(y); std::vector<T> w3(n, y); vcheck(c, comm, d, pool.back(), w3, mag, "fill", how); } break; }
      case 23: { nm = "localClone"; boost::scoped_ptr<gm::VectorT<T> > q(A.v->localClone()); int lo, hi; q->localIndexRange(lo, hi);
        if (q->size() != n || lo != 0 || hi != n || q->processor_size() != 1) c.fail("localClone", "local clone has size %d range [%d,%d) on %d processes, expected %d", q->size(), lo, hi, q->processor_size(), n);
        for (int i = 0; i < n && !c.failed; i++) { T y; q->getElement(i, y); if (y != w[i]) c.fail("localClone", "element %d of the local clone is %s, expected %s", i, sh(y).c_str(), sh(w[i]).c_str()); }
        q->fill(x);
        break; }
      case 24: { int k2 = s.range(0, 5); gm::VectorT<T> *r = 0; std::vector<T> e(n); PV<T> q;
        switch (k2) {
          case 0: nm = "add(A,B)"; r = gm::add(*A.v, *B.v); for (int i = 0; i < n; i++) { e[i] = w[i] + bm[i]; mag[i] = std::abs(w[i]) + std::abs(bm[i]); } break;
          case 1: nm = "abs(A)"; r = gm::abs(*A.v); for (int i = 0; i < n; i++) e[i] = T(std::abs(w[i])); break;
          case 2: nm = "real(A)"; r = gm::real(*A.v); for (int i = 0; i < n; i++) setv(e[i], re(w[i]), 0); break;
          case 3: nm = "imaginary(A)"; r = gm::imaginary(*A.v); for (int i = 0; i < n; i++) setv(e[i], im(w[i]), 0); break;
          case 4: nm = "conjugate(A)"; r = gm::conjugate(*A.v); for (int i = 0; i < n; i++) e[i] = cj(w[i]); break;
          default: nm = "add(A,B,C)"; r = new gm::VectorT<T>(comm, d.n[me]); gm::add(*A.v, *B.v, *r); for (int i = 0; i < n; i++) { e[i] = w[i] + bm[i]; mag[i] = std::abs(w[i]) + std::abs(bm[i]); } }
        q.v.reset(r); q.m = e; vcheck(c, comm, d, q, e, mag, nm, how); std::fill(mag.begin(), mag.end(), 0.0); break; }
      case 25: {                     // file, read back into any distribution
        nm = "saveBinary"; std::string f = group_file(c, comm, "vec");
        Dist d2 = same_total(s, c, comm, d);
        A.v->saveBinary(f.c_str()); MPI_Barrier(raw(comm));
        PV<T> q; q.v.reset(new gm::VectorT<T>(comm, d2.n[me])); q.v->loadBinary(f.c_str()); q.m = w;
        vcheck(c, comm, d2, q, w, mag, "loadBinary", how); c.label("file");
        MPI_Barrier(raw(comm)); if (!me) { unlink(f.c_str()); unlink((f + ".info").c_str()); }
        break; }
      case 27: {                     // an operand of the same size, distributed in another way
        Dist d2 = same_total(s, c, comm, d); gm::VectorT<T> q(comm, d2.n[me]); q.zero();
        for (int i = d2.off[me]; i < d2.off[me + 1]; i++) q.setElement(i, val<T>(seed, i, 6)); q.ready();
        bool eq = d2.n == d.n; nm = "operand distributed otherwise";
        std::vector<T> qs(n); for (int i = 0; i < n; i++) qs[i] = val<T>(seed, i, 6);
        double qmn = 1e300; for (int i = 0; i < n; i++) qmn = std::min(qmn, std::abs(qs[i]));
        int k2 = s.range(0, 4); if (k2 == 4 && qmn < 1e-3) k2 = 3;
        switch (k2) {
          case 0: A.v->add(q, x); for (int i = 0; i < n; i++) { mag[i] = std::abs(w[i]) + std::abs(x * qs[i]); w[i] += x * qs[i]; } break;
          case 1: A.v->equate(q); w = qs; break;
          case 2: { PV<T> pr; pr.v.reset(gm::add(*A.v, q)); std::vector<T> e(w); for (int i = 0; i < n; i++) { mag[i] = std::abs(e[i]) + std::abs(qs[i]); e[i] += qs[i]; } vcheck(c, comm, d, pr, e, mag, "add(A, B distributed otherwise)", how); std::fill(mag.begin(), mag.end(), 0.0); break; }
          case 3: A.v->elementMultiply(q); for (int i = 0; i < n; i++) w[i] *= qs[i]; break;
          default: A.v->elementDivide(q); for (int i = 0; i < n; i++) w[i] /= qs[i];
        }
        if (!eq) c.label("other distribution");
        break; }
      default: {                     // operands which do not fit are refused, both are left alone
        nm = "refused operand"; gm::VectorT<T> q(comm, d.n[me] + (me == 0 ? 1 : 0)); q.fill(x);
        int k2 = s.range(0, 3); bool threw = false;
        try { switch (k2) { case 0: A.v->add(q); break; case 1: A.v->equate(q); break; case 2: A.v->elementMultiply(q); break; default: A.v->elementDivide(q); } }
        catch (const gridpack::Exception &) { threw = true; }
        if (!threw) c.fail("refused", "operation %d with a vector of another size was accepted", k2);
        c.label("refused"); }
    }
    if (ops.size() < 300) { ops += ops.empty() ? "" : ", "; ops += nm; }
    PV<T> &A2 = pool[a];
    vcheck(c, comm, d, A2, w, mag, nm, how);
    // the other operands keep their values
    for (size_t q = 0; q < pool.size(); q++) if ((int)q != a) { std::vector<double> z(n, 0.0); std::vector<T> keep = (int)q == b ? bm : pool[q].m; vcheck(c, comm, d, pool[q], keep, z, strf("%s (another vector)", nm).c_str(), how, 0); }
    for (int i = 0; i < n; i++) if (!fin(pool[a].m[i])) { c.fail("nan", "%s gave a value which is not a number", nm); break; }
    c.sub++;
  }
  c.sample = strf("%s, sizes %s: %s", sizeof(T) == sizeof(double) ? "real" : "complex", dshow(d).c_str(), ops.c_str());
  int parts = 0; for (size_t i = 0; i < d.n.size(); i++) parts += d.n[i] > 0;
  c.nontrivial = done >= 2 && n > 1 && (comm.size() == 1 || parts > 1);
  if (parts < comm.size()) c.label("process without elements");
}
static void L01(Source &s, Ctx &c) { if (s.flag()) L01T<Z>(s, c); else { c.label("real"); L01T<double>(s, c); } }

// ---- L02 ------------------------------------------------------------------------
template <class T> void L02T(Source &s, Ctx &c) {
  Comm comm = pick_sub(s, c, 1, 6);
  Dist sp[2]; sp[0] = gen_dist(s, c, comm, 4); sp[1] = gen_dist(s, c, comm, 4);
  int me = comm.rank();
  std::vector<PM<T> > pool; pool.reserve(16);
  std::string head = strf("%s, spaces %s and %s:", sizeof(T) == sizeof(double) ? "real" : "complex", dshow(sp[0]).c_str(), dshow(sp[1]).c_str()), ops;
  int nops = s.range(1, 10), done = 0;
  for (int k = 0; k < nops && all_ok(c, comm); k++) {
    MM<double> mag;
    if (pool.empty() || (pool.size() < 4 && s.chance(1, 4))) {
      int rs = s.range(0, 1), cs = s.chance(2, 3) ? rs : 1 - rs, kind = s.range(0, 4);
      static const char *kn[] = {"sparse", "sparse(max)", "sparse(by row)", "dense", "createDense"};
      ops += strf(" %s %d%d", kn[kind], rs, cs); c.sample = head + ops;
      PM<T> p = mkmat<T>(s, c, comm, sp, rs, cs, kind, rs == cs && s.chance(3, 4));
      mag.assign(sp[rs].tot, std::vector<double>(sp[cs].tot, 1.0)); for (int i = 0; i < sp[rs].tot; i++) for (int j = 0; j < sp[cs].tot; j++) mag[i][j] = 4 * std::abs(p.m[i][j]) + 4000;
      pool.push_back(p); mcheck(c, comm, sp, pool.back(), p.m, mag, kn[kind], 1e-15);
      continue;
    }
    int a = (int)s.draw(1 << 10) % pool.size(), b = (int)s.draw(1 << 10) % pool.size(), op = s.range(0, 29); uint64_t seed = s.draw(1 << 20); bool alt = s.flag();
    PM<T> &A = pool[a], &B = pool[b]; int nr = sp[A.rs].tot, nc = sp[A.cs].tot; bool sq = A.rs == A.cs, like = A.rs == B.rs && A.cs == B.cs;
    T x; mk(seed * 77 + 1, x);
    double mx = mmax(A);
    if (mx > 1e5) op = 100;
    // operations which need something else become something harmless
    if ((op == 0 || op == 1) && !A.known) op = 3;
    if (op >= 9 && op <= 12 && !(sq && A.diag)) op = 13;      // the diagonal must be part of the structure
    if (op == 20 && !sq) op = 19;
    if ((op == 4 || op == 28) && !like) op = 14;
    if (op == 5) { bool sub = like && A.known && B.known && a != b; for (int i = 0; sub && i < nr; i++) for (int j = 0; j < nc; j++) if (B.pat[i][j] && !A.pat[i][j]) sub = false; if (!sub || A.dense != B.dense) op = 24; }
    if (op == 16) op = 15;
    if ((op == 17 || op == 18) && A.cs != B.rs) op = 15;
    static const char *names[] = {"setElements", "addElements", "zero", "scale", "add", "equate", "real", "imaginary", "conjugate", "identity", "addDiagonal", "multiplyDiagonal", "addDiagonalVector", "multiply vector", "transposeMultiply", "transpose", "transpose into", "multiply", "multiply into", "column", "diagonal", "matrix of a diagonal", "getRow", "norm2", "clone", "localClone", "storageType", "file", "free function", "refused"};
    std::string nm = op == 100 ? "scale" : names[op]; ops += " " + nm + strf("(%d,%d)", a, b); if (ops.size() > 400) ops.erase(400); c.sample = head + ops;
    MM<T> w(A.m), bm(B.m); mag.assign(nr, std::vector<double>(nc, 0));
    bool changed = op <= 12 || op == 100; done++; c.label(nm);
    std::vector<T> v; std::vector<double> vm;
    PM<T> N; bool fresh = false; MM<T> nw; MM<double> nmag;      // a new matrix
    switch (op) {
      case 0: case 1: {
        VI ii, jj; std::vector<T> xx;
        for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) if (A.pat[i][j] && hsh(seed, i, j) % 3 == 0) { T y = val<T>(seed, i * 1009 + j, 3); mag[i][j] = std::abs(y) + std::abs(w[i][j]); if (op) w[i][j] += y; else w[i][j] = y; if (i >= sp[A.rs].off[me] && i < sp[A.rs].off[me + 1]) { ii.push_back(i); jj.push_back(j); xx.push_back(y); } }
        int n = ii.size(); ii.push_back(0); jj.push_back(0); xx.push_back(T(0));
        if (op) A.a->addElements(n, &ii[0], &jj[0], &xx[0]); else A.a->setElements(n, &ii[0], &jj[0], &xx[0]);
        A.a->ready(); break; }
      case 2: A.a->zero(); for (int i = 0; i < nr; i++) std::fill(w[i].begin(), w[i].end(), T(0)); break;
      case 3: case 100: if (op == 100) setv(x, 1e-6, 0); A.a->scale(x); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) w[i][j] *= x; break;
      case 4: if (a == b) { boost::scoped_ptr<gm::MatrixT<T> > q(A.a->clone()); A.a->add(*q); } else A.a->add(*B.a);
        for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { mag[i][j] = std::abs(w[i][j]) + std::abs(bm[i][j]); w[i][j] += bm[i][j]; if (A.known && B.known) A.pat[i][j] |= B.pat[i][j]; } if (!B.known && !A.dense) A.known = false; A.diag = A.diag || B.diag; break;
      case 5: A.a->equate(*B.a); w = bm; break;
      case 6: A.a->real(); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) setv(w[i][j], re(w[i][j]), 0); break;
      case 7: A.a->imaginary(); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) setv(w[i][j], im(w[i][j]), 0); break;
      case 8: A.a->conjugate(); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) w[i][j] = cj(w[i][j]); break;
      case 9: A.a->identity(); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) w[i][j] = i == j ? T(1) : T(0); break;
      case 10: A.a->addDiagonal(x); for (int i = 0; i < nr; i++) { mag[i][i] = std::abs(x) + std::abs(w[i][i]); w[i][i] += x; } break;
      case 11: { boost::shared_ptr<gm::VectorT<T> > q = mkvec<T>(comm, sp[A.rs], seed, v); A.a->multiplyDiagonal(*q); for (int i = 0; i < nr; i++) w[i][i] *= v[i]; vec_is(c, comm, sp[A.rs], *q, v, vm, nm + " (operand)"); break; }
      case 12: { boost::shared_ptr<gm::VectorT<T> > q = mkvec<T>(comm, sp[A.rs], seed, v); A.a->addDiagonalVector(*q); for (int i = 0; i < nr; i++) { mag[i][i] = std::abs(v[i]) + std::abs(w[i][i]); w[i][i] += v[i]; } vec_is(c, comm, sp[A.rs], *q, v, vm, nm + " (operand)"); break; }
      case 13: case 14: {
        bool t = op == 14; const Dist &in = sp[t ? A.rs : A.cs], &out = sp[t ? A.cs : A.rs];
        boost::shared_ptr<gm::VectorT<T> > q = mkvec<T>(comm, in, seed, v), r; std::vector<T> e(out.tot, T(0)); vm.assign(out.tot, 0);
        for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { T y = w[i][j] * (t ? v[i] : v[j]); e[t ? j : i] += y; vm[t ? j : i] += std::abs(y); }
        if (alt) { r.reset(new gm::VectorT<T>(comm, out.n[me])); r->fill(T(5)); if (t) gm::transposeMultiply(*A.a, *q, *r); else gm::multiply(*A.a, *q, *r); }
        else r.reset(t ? gm::transposeMultiply(*A.a, *q) : gm::multiply(*A.a, *q));
        vec_is(c, comm, out, *r, e, vm, nm); vm.clear(); vec_is(c, comm, in, *q, v, vm, nm + " (operand)"); break; }
      case 15: N.a.reset(gm::transpose(*A.a)); fresh = true; N.rs = A.cs; N.cs = A.rs; N.dense = A.dense; nw = transp(w, nc); N.diag = A.diag; N.known = A.known; if (A.known) N.pat = transp(A.pat, nc); break;
      case 17: N.a.reset(gm::multiply(*A.a, *B.a)); fresh = true; N.rs = A.rs; N.cs = B.cs; N.dense = A.dense || B.dense; N.known = false; N.diag = N.dense; nw = matmul(w, bm, nmag, sp[B.cs].tot); break;
      case 18: N = mkmat<T>(s, c, comm, sp, A.rs, B.cs, A.dense || B.dense ? 3 : 0, false); gm::multiply(*A.a, *B.a, *N.a); fresh = true; N.known = false; N.diag = N.dense; nw = matmul(w, bm, nmag, sp[B.cs].tot); break;
      case 19: { int j = seed % nc; boost::shared_ptr<gm::VectorT<T> > r; if (alt) { r.reset(new gm::VectorT<T>(comm, sp[A.rs].n[me])); r->fill(T(4)); gm::column(*A.a, j, *r); } else r.reset(gm::column(*A.a, j)); v.clear(); for (int i = 0; i < nr; i++) v.push_back(w[i][j]); vec_is(c, comm, sp[A.rs], *r, v, vm, nm); break; }
      case 20: { boost::shared_ptr<gm::VectorT<T> > r; if (alt) { r.reset(new gm::VectorT<T>(comm, sp[A.rs].n[me])); r->fill(T(4)); gm::diagonal(*A.a, *r); } else r.reset(gm::diagonal(*A.a)); v.clear(); for (int i = 0; i < nr; i++) v.push_back(w[i][i]); vec_is(c, comm, sp[A.rs], *r, v, vm, nm); break; }
      case 21: { boost::shared_ptr<gm::VectorT<T> > q = mkvec<T>(comm, sp[A.rs], seed, v); N.a.reset(gm::diagonal(*q, alt ? gm::Dense : gm::Sparse)); fresh = true; N.rs = N.cs = A.rs; N.dense = alt; N.known = false; N.diag = true; nw.assign(nr, std::vector<T>(nr, T(0))); for (int i = 0; i < nr; i++) nw[i][i] = v[i]; vec_is(c, comm, sp[A.rs], *q, v, vm, nm + " (operand)"); break; }
      case 22: {      // any rows, in any order, different ones on every process
        if (alt) { int row = hsh(seed, me, 3) % nr; std::vector<T> x1(nc); A.a->getRow(row, &x1[0]); if (x1 != w[row]) c.fail("getRow", "getRow(%d) differs", row); }
        else { VI rows; for (int i = 0; i < nr; i++) if (hsh(seed, i, me) % 2) rows.push_back(i); if (rows.empty()) rows.push_back(seed % nr); uint64_t h = seed; for (size_t i = rows.size(); i > 1; i--) std::swap(rows[i - 1], rows[(h = hsh(h, i, me)) % i]);
          MM<T> got; read_all(*A.a, rows, got, c); for (size_t i = 0; i < rows.size(); i++) if (got[i] != w[rows[i]]) { std::string o; for (size_t q = 0; q < rows.size(); q++) o += strf(" %d", rows[q]); c.fail("getRowBlock", "rows%s: position %d does not hold row %d", o.c_str(), (int)i, rows[i]); break; } }
        break; }
      case 23: { double e = 0; for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) e += std::norm(w[i][j]); e = sqrt(e); double g = A.a->norm2(); if (fabs(g - e) > 1e-12 * e) c.fail("norm2", "norm is %.17g, expected %.17g", g, e); break; }
      case 24: N = A; N.a.reset(A.a->clone()); fresh = true; nw = w; break;
      case 25: { boost::scoped_ptr<gm::MatrixT<T> > q(A.a->localClone()); int lo, hi; q->localRowRange(lo, hi);
        if (q->rows() != nr || q->cols() != nc || lo != 0 || hi != nr || q->processor_size() != 1) c.fail("localClone", "local clone is %dx%d, rows [%d,%d) on %d processes, expected %dx%d", q->rows(), q->cols(), lo, hi, q->processor_size(), nr, nc);
        else for (int i = 0; i < nr && !c.failed; i++) for (int j = 0; j < nc; j++) { T y; q->getElement(i, j, y); if (y != w[i][j]) { c.fail("localClone", "element (%d,%d) of the local clone is %s, expected %s", i, j, sh(y).c_str(), sh(w[i][j]).c_str()); break; } }
        q->scale(T(2)); break; }
      case 26: N = A; N.a.reset(gm::storageType(*A.a, alt ? gm::Dense : gm::Sparse)); N.diag = alt || (A.diag && !A.dense); N.dense = alt; N.known = false; fresh = true; nw = w; break;
      case 27: { std::string f = group_file(c, comm, "mat"); A.a->saveBinary(f.c_str()); MPI_Barrier(raw(comm));
        if (alt || A.dense) { N = A; N.a.reset(A.a->clone()); if (s.flag()) N.a->scale(T(2)); N.a->loadBinary(f.c_str()); nw = w; fresh = true; }
        else { boost::scoped_ptr<gm::MatrixT<T> > q(gm::matrixLoadBinary<T, int>(comm, f.c_str()));
          if (q->rows() != nr || q->cols() != nc) c.fail("file", "loaded matrix is %dx%d, expected %dx%d", q->rows(), q->cols(), nr, nc);
          else { VI all; for (int i = 0; i < nr; i++) all.push_back(i); MM<T> got; read_all(*q, all, got, c); if (got != w) c.fail("file", "the matrix read from a file differs from the one written"); } }
        MPI_Barrier(raw(comm)); if (!me) { unlink(f.c_str()); unlink((f + ".info").c_str()); } break; }
      case 28: { N = A; N.known = false; fresh = true; nw = w; int k2 = s.range(0, 4);
        switch (k2) {
          case 0: N.a.reset(gm::add(*A.a, *B.a)); nmag = mag; for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { nw[i][j] += bm[i][j]; nmag[i][j] = std::abs(w[i][j]) + std::abs(bm[i][j]); } break;
          case 1: N.a.reset(gm::real(*A.a)); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) setv(nw[i][j], re(w[i][j]), 0); break;
          case 2: N.a.reset(gm::imaginary(*A.a)); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) setv(nw[i][j], im(w[i][j]), 0); break;
          case 3: N.a.reset(gm::conjugate(*A.a)); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) nw[i][j] = cj(w[i][j]); break;
          default: if (!sq || !A.diag) { N.a.reset(A.a->clone()); break; } N.a.reset(gm::identity(*A.a)); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) nw[i][j] = i == j ? T(1) : T(0); }
        break; }
      default: { gm::MatrixT<T> q(comm, sp[A.rs].n[me] + (me == 0), sp[A.cs].n[me], A.dense ? gm::Dense : gm::Sparse); q.zero(); q.ready(); bool threw = false;
        try { if (alt) A.a->add(q); else A.a->equate(q); } catch (const gridpack::Exception &) { threw = true; }
        if (!threw) c.fail("refused", "a matrix of another size was accepted as an operand"); }
    }
    if (!all_ok(c, comm)) break;
    mcheck(c, comm, sp, pool[a], w, mag, nm);
    for (size_t q = 0; q < pool.size() && all_ok(c, comm); q++) if ((int)q != a) { MM<T> keep(pool[q].m); MM<double> z; mcheck(c, comm, sp, pool[q], keep, z, nm + " (another matrix)", 0); }
    if (!all_ok(c, comm)) break;
    if (fresh) {
      mcheck(c, comm, sp, N, nw, nmag, nm + " (result)");
      if (!all_ok(c, comm)) break;
      bool keep = pool.size() < 4;
      if (!keep || s.flag()) {       // the result and its source do not share values
        MM<double> z; MM<T> e(N.m); for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < e[i].size(); j++) e[i][j] *= T(2);
        N.a->scale(T(2)); mcheck(c, comm, sp, N, e, z, nm + " (scaled result)"); if (!all_ok(c, comm)) break;
        MM<T> k2(pool[a].m); mcheck(c, comm, sp, pool[a], k2, z, nm + " (source of a scaled result)", 0); if (!all_ok(c, comm)) break;
      }
      if (N.dense) { N.known = true; N.pat.assign(N.m.size(), std::vector<char>(sp[N.cs].tot, 1)); }
      if (keep) pool.push_back(N);
    }
    c.sub++; (void)changed;
  }
  int parts = 0; for (size_t i = 0; i < sp[0].n.size(); i++) parts += sp[0].n[i] > 0 && sp[1].n[i] > 0;
  c.nontrivial = done >= 2 && sp[0].tot > 1 && (comm.size() == 1 || parts > 1);
  if (parts < comm.size()) c.label("process without rows");
}
static void L02(Source &s, Ctx &c) { if (s.flag()) L02T<Z>(s, c); else { c.label("real"); L02T<double>(s, c); } }

// the recorded finding: matrix.hpp allows operands of add() with another local ownership, PETSc does not
static void L02X(Source &s, Ctx &c) {
  gridpack::parallel::Communicator comm; int n = s.range(1, 6), me = comm.rank(), P = comm.size(), tot = n * P + P * (P - 1) / 2;
  gm::MatrixT<Z> A(comm, n + me, n + me, gm::Sparse), B(comm, n + P - 1 - me, n + P - 1 - me, gm::Sparse);
  int lo, hi; A.localRowRange(lo, hi); for (int i = lo; i < hi; i++) A.setElement(i, i, Z(1)); A.ready();
  B.localRowRange(lo, hi); for (int i = lo; i < hi; i++) B.setElement(i, (i + 1) % tot, Z(2)); B.ready();
  c.sample = ("operand of add distributed otherwise"); c.nontrivial = true;
  std::string w; try { A.add(B); } catch (const std::exception &e) { w = e.what(); }
  if (!w.empty()) c.fail("operand-distribution", "MatrixT::add refuses a matrix of the same global size whose rows are distributed otherwise, which its documentation allows");
}

int main(int argc, char **argv) {
  pbt::Registry r; r["L02X"] = L02X; r["L01"] = L01; r["L02"] = L02;
  return pbt_main(argc, argv, r);
}
