// M01, M02, M03: assembling matrices and vectors from network components.
#include "net.hpp"
#include "main.hpp"
#include "comm.hpp"
#include <boost/mpi.hpp>
#include "gridpack/network/base_network.hpp"
#include "gridpack/component/base_component.hpp"
#include "gridpack/factory/base_factory.hpp"
#include "gridpack/math/math.hpp"
#include "gridpack/mapper/full_map.hpp"
#include "gridpack/mapper/bus_vector_map.hpp"
#include "gridpack/mapper/gen_matrix_map.hpp"
#include "gridpack/mapper/gen_vector_map.hpp"
#include "gridpack/mapper/gen_slab_map.hpp"
using pbt::Source; using pbt::Ctx;
typedef gridpack::ComplexType Z;
typedef std::vector<int> VI; typedef std::vector<Z> VZ; typedef std::vector<double> VD;
namespace gc = gridpack::component;

// What a component declares is a function of its identity (bus number / pair of bus numbers) and of this plan.
struct Plan {
  uint64_t seed, salt;            // seed: shape, salt: values
  int maxr, maxc;                 // block sizes 0..max (1..max when nozero)
  bool square, uniform, nozero;
  int pdiag, pbr, pval;           // percent of components which contribute / have values
  int slabc;
  bool shuffle;
  int later;                      // percent of the components with values that still have them in later assemblies
  bool brcols;                    // generalised: values of branches in rows of their buses
} static P;
static Ctx *C;                    // for failures noticed inside of callbacks
static uint64_t hv(uint64_t a, uint64_t b, uint64_t c, uint64_t k) { return hsh(P.seed * 7919 + k, a * 1000003ULL + b, c); }
static int pct(uint64_t h) { return (int)(h % 100); }
static Z value(uint64_t a, uint64_t b, int i, int j, int k) {
  uint64_t h = hsh(P.salt * 131 + k, a * 1000003ULL + b, i * 977 + j);
  double x = (double)(int64_t)(h >> 34) - (1 << 29), y = (double)(int64_t)(hsh(h, 1, 2) >> 34) - (1 << 29);
  return Z(ldexp(x, -10), ldexp(y, -10));   // exact sums
}
static int dim(int mx, uint64_t h) { return P.uniform ? mx : P.nozero ? 1 + (int)(h % mx) : (int)(h % (mx + 1)); }
static int rows_of(int oid) { return dim(P.maxr, hv(oid, 0, 0, 1)); }
static int cols_of(int oid) { return P.square ? rows_of(oid) : dim(P.maxc, hv(oid, 0, 0, 2)); }
static bool diag_of(int oid) { return pct(hv(oid, 0, 0, 3)) < P.pdiag; }
static bool diagval_of(int oid) { return pct(hv(oid, 0, 0, 4)) < P.pval && pct(hsh(P.salt, oid, 4)) < P.later; }
static bool br_of(int a, int b, int dir) { return pct(hv(a, b, dir, 5)) < P.pbr; }
static bool brval_of(int a, int b, int dir) { return pct(hv(a, b, dir, 6)) < P.pval && pct(hsh(P.salt, a * 1000003ULL + b, 6 + dir)) < P.later; }
static int vec_of(int oid) { return dim(P.maxr, hv(oid, 0, 0, 8)); }
static bool vec_has(int oid) { return pct(hv(oid, 0, 0, 9)) < P.pdiag; }
// generalised interface
static int gr_of(int a, int b) { return dim(P.maxr, hv(a, b, 0, 11)); }
static int gc_of(int a, int b) { return P.square ? gr_of(a, b) : dim(P.maxc, hv(a, b, 0, 12)); }
static int gv_of(int a, int b) { return dim(P.maxr, hv(a, b, 0, 13)); }
static int gs_of(int a, int b) { return dim(P.maxr, hv(a, b, 0, 14)); }
static bool has_of(uint64_t a, uint64_t b, int i, int j, int k) { return pct(hsh(P.seed + k, a * 1000003ULL + b, i * 31 + j)) < P.pbr; }

struct Gen {   // index book-keeping common to buses and branches
  VI row, col, vec, slab; VZ vgot; std::vector<VZ> sgot; int vset, sset;
  Gen() : vset(0), sset(0) {}
  static void put(VI &v, int n, int i, int idx, const char *what) {
    if (i < 0 || i >= n) { C->fail("index", "index %d set for a component that declares %d %s", i, n, what); return; }
    v.resize(n, -1); v[i] = idx;
  }
  static int get(const VI &v, int i, const char *what) { (void)what; return i >= 0 && i < (int)v.size() ? v[i] : -1; }
};

class MBus : public gc::BaseBusComponent {
public:
  Gen g; VZ got; VD gotr; int set;
  MBus() : set(0) {}
  int id() const { return getOriginalIndex(); }
  bool matrixDiagSize(int *i, int *j) const { if (!diag_of(id())) return false; *i = rows_of(id()); *j = cols_of(id()); return true; }
  template <class T> bool dv(T *v, T (*f)(Z)) {
    int r = rows_of(id()), q = cols_of(id());
    if (!diagval_of(id())) return false;
    for (int j = 0; j < q; j++) for (int i = 0; i < r; i++) v[j * r + i] = f(value(id(), 0, i, j, 0));
    return true;
  }
  static Z cz(Z x) { return x; }
  static double cr(Z x) { return x.real(); }
  bool matrixDiagValues(Z *v) { return dv<Z>(v, cz); }
  bool matrixDiagValues(double *v) { return dv<double>(v, cr); }
  bool vectorSize(int *n) const { if (!vec_has(id())) return false; *n = vec_of(id()); return true; }
  bool vectorValues(Z *v) { for (int i = 0; i < vec_of(id()); i++) v[i] = value(id(), 0, i, 0, 3); return true; }
  bool vectorValues(double *v) { for (int i = 0; i < vec_of(id()); i++) v[i] = value(id(), 0, i, 0, 3).real(); return true; }
  void setValues(Z *v) { set++; got.assign(v, v + (vec_has(id()) ? vec_of(id()) : 0)); }
  void setValues(double *v) { set++; gotr.assign(v, v + (vec_has(id()) ? vec_of(id()) : 0)); }
  // generalised
  int matrixNumRows() const { return gr_of(id(), 0); }
  int matrixNumCols() const { return gc_of(id(), 0); }
  void matrixSetRowIndex(int i, int x) { Gen::put(g.row, gr_of(id(), 0), i, x, "rows"); }
  void matrixSetColIndex(int i, int x) { Gen::put(g.col, gc_of(id(), 0), i, x, "columns"); }
  int matrixGetRowIndex(int i) { return Gen::get(g.row, i, "row"); }
  int matrixGetColIndex(int i) { return Gen::get(g.col, i, "column"); }
  int matrixNumValues() const;
  void matrixGetValues(Z *v, int *r, int *c);
  int vectorNumElements() const { return gv_of(id(), 0); }
  void vectorSetElementIndex(int i, int x) { Gen::put(g.vec, gv_of(id(), 0), i, x, "elements"); }
  void vectorGetElementIndices(int *x) { std::copy(g.vec.begin(), g.vec.end(), x); }
  void vectorGetElementValues(Z *v, int *x) { vectorGetElementIndices(x); for (size_t i = 0; i < g.vec.size(); i++) v[i] = value(id(), 0, i, 0, 21); }
  void vectorSetElementValues(Z *v) { g.vset++; g.vgot.assign(v, v + gv_of(id(), 0)); }
  void slabSize(int *r, int *c) const { *r = gs_of(id(), 0); *c = P.slabc; }
  void slabSetRowIndex(int i, int x) { Gen::put(g.slab, gs_of(id(), 0), i, x, "slab rows"); }
  void slabGetRowIndices(int *x) { std::copy(g.slab.begin(), g.slab.end(), x); }
  void slabGetValues(std::vector<Z *> &v, int *x) { slabGetRowIndices(x); for (size_t i = 0; i < g.slab.size(); i++) for (int j = 0; j < P.slabc; j++) v[i][j] = value(id(), 0, i, j, 22); }
  void slabSetValues(Z **v) { g.sset++; g.sgot.clear(); for (int i = 0; i < gs_of(id(), 0); i++) g.sgot.push_back(VZ(v[i], v[i] + P.slabc)); }
private:
  friend class boost::serialization::access;
  template <class A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::base_object<gc::BaseBusComponent>(*this); }
};
class MBr : public gc::BaseBranchComponent {
public:
  Gen g;
  int a() const { return getBus1OriginalIndex(); }
  int b() const { return getBus2OriginalIndex(); }
  bool matrixForwardSize(int *i, int *j) const { if (!br_of(a(), b(), 0)) return false; *i = rows_of(a()); *j = cols_of(b()); return true; }
  bool matrixReverseSize(int *i, int *j) const { if (!br_of(a(), b(), 1)) return false; *i = rows_of(b()); *j = cols_of(a()); return true; }
  template <class T> bool bv(T *v, int dir, T (*f)(Z)) {
    int r = rows_of(dir ? b() : a()), q = cols_of(dir ? a() : b());
    if (!brval_of(a(), b(), dir)) return false;
    for (int j = 0; j < q; j++) for (int i = 0; i < r; i++) v[j * r + i] = f(value(a(), b(), i, j, 1 + dir));
    return true;
  }
  bool matrixForwardValues(Z *v) { return bv<Z>(v, 0, MBus::cz); }
  bool matrixReverseValues(Z *v) { return bv<Z>(v, 1, MBus::cz); }
  bool matrixForwardValues(double *v) { return bv<double>(v, 0, MBus::cr); }
  bool matrixReverseValues(double *v) { return bv<double>(v, 1, MBus::cr); }
  int matrixNumRows() const { return gr_of(a(), b()); }
  int matrixNumCols() const { return gc_of(a(), b()); }
  void matrixSetRowIndex(int i, int x) { Gen::put(g.row, gr_of(a(), b()), i, x, "rows"); }
  void matrixSetColIndex(int i, int x) { Gen::put(g.col, gc_of(a(), b()), i, x, "columns"); }
  int matrixGetRowIndex(int i) { return Gen::get(g.row, i, "row"); }
  int matrixGetColIndex(int i) { return Gen::get(g.col, i, "column"); }
  int matrixNumValues() const;
  void matrixGetValues(Z *v, int *r, int *c);
  int vectorNumElements() const { return gv_of(a(), b()); }
  void vectorSetElementIndex(int i, int x) { Gen::put(g.vec, gv_of(a(), b()), i, x, "elements"); }
  void vectorGetElementIndices(int *x) { std::copy(g.vec.begin(), g.vec.end(), x); }
  void vectorGetElementValues(Z *v, int *x) { vectorGetElementIndices(x); for (size_t i = 0; i < g.vec.size(); i++) v[i] = value(a(), b(), i, 0, 21); }
  void vectorSetElementValues(Z *v) { g.vset++; g.vgot.assign(v, v + gv_of(a(), b())); }
  void slabSize(int *r, int *c) const { *r = gs_of(a(), b()); *c = P.slabc; }
  void slabSetRowIndex(int i, int x) { Gen::put(g.slab, gs_of(a(), b()), i, x, "slab rows"); }
  void slabGetRowIndices(int *x) { std::copy(g.slab.begin(), g.slab.end(), x); }
  void slabGetValues(std::vector<Z *> &v, int *x) { slabGetRowIndices(x); for (size_t i = 0; i < g.slab.size(); i++) for (int j = 0; j < P.slabc; j++) v[i][j] = value(a(), b(), i, j, 22); }
  void slabSetValues(Z **v) { g.sset++; g.sgot.clear(); for (int i = 0; i < gs_of(a(), b()); i++) g.sgot.push_back(VZ(v[i], v[i] + P.slabc)); }
private:
  friend class boost::serialization::access;
  template <class A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::base_object<gc::BaseBranchComponent>(*this); }
};
BOOST_CLASS_EXPORT(MBus)
BOOST_CLASS_EXPORT(MBr)
typedef gridpack::network::BaseNetwork<MBus, MBr> Net;
typedef gridpack::factory::BaseFactory<Net> Fac;

// ---- what the generalised components declare: rows own x own columns, own x neighbours', and (branches) bus rows
// key of an equation/unknown: (component, position)
struct Key { int a, b, i; bool operator<(const Key &o) const { return a != o.a ? a < o.a : b != o.b ? b < o.b : i < o.i; } };
struct Decl { Key r, c; Z v; };
static void cross(std::vector<Decl> &d, int a, int b, int ra, int rb, int ca, int cb, int kind) {
  for (int i = 0; i < gr_of(ra, rb); i++) for (int j = 0; j < gc_of(ca, cb); j++)
    if (has_of(ra * 7919ULL + ca, rb * 104729ULL + cb, i, j, kind)) { Decl x = {{ra, rb, i}, {ca, cb, j}, value(ra * 7919ULL + ca, rb * 104729ULL + cb, i, j, 30 + kind)}; d.push_back(x); }
}
static std::vector<Decl> bus_decl(int o, const std::vector<std::pair<int,int> > &brs) {   // brs: branches at this bus
  std::vector<Decl> d;
  cross(d, o, 0, o, 0, o, 0, 40);
  for (size_t k = 0; k < brs.size(); k++) {
    cross(d, o, 0, o, 0, brs[k].first, brs[k].second, 41);                                    // bus row, branch column
    if (!P.brcols) cross(d, o, 0, o, 0, brs[k].first == o ? brs[k].second : brs[k].first, 0, 42);   // bus row, neighbour column
  }
  return d;
}
static std::vector<Decl> br_decl(int a, int b) {
  std::vector<Decl> d;
  cross(d, a, b, a, b, a, b, 43);
  cross(d, a, b, a, b, a, 0, 44);
  cross(d, a, b, a, b, b, 0, 45);
  if (P.brcols) { cross(d, a, b, a, 0, b, 0, 42); cross(d, a, b, b, 0, a, 0, 42); }
  return d;
}
static std::vector<std::pair<int,int> > my_branches(const MBus *x) {
  std::vector<boost::shared_ptr<gc::BaseComponent> > n; x->getNeighborBranches(n);
  std::vector<std::pair<int,int> > r;
  for (size_t i = 0; i < n.size(); i++) { MBr *q = dynamic_cast<MBr *>(n[i].get()); r.push_back(std::make_pair(q->a(), q->b())); }
  return r;
}
int MBus::matrixNumValues() const { return (int)bus_decl(id(), my_branches(this)).size(); }
int MBr::matrixNumValues() const { return (int)br_decl(a(), b()).size(); }
void MBus::matrixGetValues(Z *v, int *r, int *c) {
  std::vector<Decl> d = bus_decl(id(), my_branches(this));
  std::vector<boost::shared_ptr<gc::BaseComponent> > nb, nn; getNeighborBranches(nb); getNeighborBuses(nn);
  for (size_t k = 0; k < d.size(); k++) {
    v[k] = d[k].v; r[k] = matrixGetRowIndex(d[k].r.i);
    c[k] = -1;
    if (d[k].c.b == 0) {
      if (d[k].c.a == id()) c[k] = matrixGetColIndex(d[k].c.i);
      else for (size_t q = 0; q < nn.size(); q++) { MBus *x = dynamic_cast<MBus *>(nn[q].get()); if (x->id() == d[k].c.a) c[k] = x->matrixGetColIndex(d[k].c.i); }
    } else for (size_t q = 0; q < nb.size(); q++) { MBr *x = dynamic_cast<MBr *>(nb[q].get()); if (x->a() == d[k].c.a && x->b() == d[k].c.b) c[k] = x->matrixGetColIndex(d[k].c.i); }
  }
}
void MBr::matrixGetValues(Z *v, int *r, int *c) {
  std::vector<Decl> d = br_decl(a(), b());
  MBus *x1 = dynamic_cast<MBus *>(getBus1().get()), *x2 = dynamic_cast<MBus *>(getBus2().get());
  for (size_t k = 0; k < d.size(); k++) {
    v[k] = d[k].v;
    r[k] = d[k].r.b ? matrixGetRowIndex(d[k].r.i) : (d[k].r.a == a() ? x1 : x2)->matrixGetRowIndex(d[k].r.i);
    c[k] = d[k].c.b ? matrixGetColIndex(d[k].c.i) : (d[k].c.a == a() ? x1 : x2)->matrixGetColIndex(d[k].c.i);
  }
}

// ---- generation ------------------------------------------------------------
static void gen_plan(Source &s, bool gen) {
  P.seed = s.range(0, 1 << 20); P.salt = s.range(0, 1 << 20);
  P.maxr = s.range(1, gen ? 3 : 4); P.maxc = s.range(1, gen ? 3 : 4);
  P.square = s.flag(); P.uniform = s.chance(1, 3); P.nozero = s.flag();
  P.pdiag = s.pick({100, 100, 80, 40}); P.pbr = s.pick({100, 90, 60, 30}); P.pval = s.pick({100, 100, 80, 30});
  P.slabc = s.range(1, 5); P.brcols = s.flag(); P.shuffle = false; P.later = 100;
}
static std::string plan_str() {
  return strf("plan max %dx%d%s%s%s diag %d%% branch %d%% values %d%%", P.maxr, P.maxc, P.square ? " square" : "", P.uniform ? " uniform" : "", P.nozero ? " nozero" : "", P.pdiag, P.pbr, P.pval);
}
struct World {
  NetModel m; VI gb, gr, lb, lr; boost::shared_ptr<Net> net; boost::shared_ptr<Fac> fac; VI order;   // buses by global index
};
static void build(Source &s, Ctx &c, Comm &comm, World &w, bool gen, int maxb) {
  int np = comm.size(), me = comm.rank();
  w.m = gen_graph(s, np, std::max(2, np), maxb); if ((int)w.m.br.size() < np) w.m = gen_graph(s, np, std::max(3, np + 1), maxb);
  gen_owners(s, w.m, !gen && s.chance(1, 6));
  contiguous(w.m, w.gb, w.gr);
  w.net.reset(new Net(comm));
  place(*w.net, w.m, me, w.gb, w.gr, w.lb, w.lr, s.flag());
  w.fac.reset(new Fac(w.net)); w.fac->setComponents();
  w.order.assign(w.m.nb, 0); for (int i = 0; i < w.m.nb; i++) w.order[w.gb[i]] = i;
}
static bool cut(const NetModel &m) {
  for (size_t k = 0; k < m.br.size(); k++) if (m.bown[m.br[k].first] != m.bown[m.br[k].second]) return true;
  return false;
}
template <class M> bool read_rows(Ctx &c, M &mat, std::vector<VZ> &out, int &lo, int &hi) {
  mat.localRowRange(lo, hi); int n = mat.cols(); out.clear();
  for (int i = lo; i < hi; i++) {
    out.push_back(VZ(n));
    for (int j = 0; j < n; j++) { typename M::TheType x; mat.getElement(i, j, x); out.back()[j] = x; }
  }
  return true;
}
// expected assembled matrix
struct Expect { int nr, nc; VI ro, co; std::vector<VZ> a; std::vector<std::vector<char> > in; VI rs, cs; };
static Expect expect(const World &w, bool real) {
  const NetModel &m = w.m; Expect e; VI rs(m.nb, 0), cs(m.nb, 0);
  for (int i = 0; i < m.nb; i++) if (diag_of(m.oid[i])) { rs[i] = rows_of(m.oid[i]); cs[i] = cols_of(m.oid[i]); }
  for (size_t k = 0; k < m.br.size(); k++) for (int d = 0; d < 2; d++) {
    int i = d ? m.br[k].second : m.br[k].first, j = d ? m.br[k].first : m.br[k].second;
    if (br_of(m.oid[m.br[k].first], m.oid[m.br[k].second], d)) { rs[i] = std::max(rs[i], rows_of(m.oid[i])); cs[j] = std::max(cs[j], cols_of(m.oid[j])); }
  }
  e.ro.assign(m.nb, 0); e.co.assign(m.nb, 0); e.nr = e.nc = 0;
  for (int q = 0; q < m.nb; q++) { int i = w.order[q]; e.ro[i] = e.nr; e.co[i] = e.nc; e.nr += rs[i]; e.nc += cs[i]; }
  e.a.assign(e.nr, VZ(e.nc)); e.in.assign(e.nr, std::vector<char>(e.nc, 0)); e.rs = rs; e.cs = cs;
  struct Put { Expect &e; bool real; void operator()(int bi, int bj, int i, int j, Z v) { e.a[e.ro[bi] + i][e.co[bj] + j] = real ? Z(v.real()) : v; e.in[e.ro[bi] + i][e.co[bj] + j] = 1; } } put = {e, real};
  for (int i = 0; i < m.nb; i++) if (diag_of(m.oid[i]) && diagval_of(m.oid[i]))
    for (int x = 0; x < rows_of(m.oid[i]); x++) for (int y = 0; y < cols_of(m.oid[i]); y++) put(i, i, x, y, value(m.oid[i], 0, x, y, 0));
  for (size_t k = 0; k < m.br.size(); k++) for (int d = 0; d < 2; d++) {
    int a = m.oid[m.br[k].first], b = m.oid[m.br[k].second], i = d ? m.br[k].second : m.br[k].first, j = d ? m.br[k].first : m.br[k].second;
    if (!br_of(a, b, d) || !brval_of(a, b, d)) continue;
    for (int x = 0; x < rows_of(m.oid[i]); x++) for (int y = 0; y < cols_of(m.oid[j]); y++) put(i, j, x, y, value(a, b, x, y, 1 + d));
  }
  return e;
}
static double near(Z a, Z b) { return std::abs(a - b); }
template <class M> void compare(Ctx &c, const World &w, M &mat, const Expect &e, const std::vector<VZ> &want, int me, const char *what) {
  if (mat.rows() != e.nr || mat.cols() != e.nc) { c.fail("dimensions", "%s: matrix is %dx%d, expected %dx%d", what, mat.rows(), mat.cols(), e.nr, e.nc); return; }
  int lo, hi; std::vector<VZ> got; read_rows(c, mat, got, lo, hi);
  int nloc = 0; for (int i = 0; i < w.m.nb; i++) if (w.m.bown[i] == me) nloc += e.rs[i];
  if (hi - lo != nloc) c.fail("rows", "%s: %d local rows, expected %d", what, hi - lo, nloc);
  for (int i = lo; i < hi; i++) for (int j = 0; j < e.nc; j++) if (near(got[i - lo][j], want[i][j]) > 0) {
    int bi = -1, bj = -1; for (int q = 0; q < w.m.nb; q++) { if (e.ro[q] <= i && i < e.ro[q] + e.rs[q]) bi = q; if (e.co[q] <= j && j < e.co[q] + e.cs[q]) bj = q; }
    c.fail("element", "%s: element (%d,%d) (buses %d, %d) is %g%+gi, expected %g%+gi", what, i, j, bi < 0 ? -1 : w.m.oid[bi], bj < 0 ? -1 : w.m.oid[bj],
           got[i - lo][j].real(), got[i - lo][j].imag(), want[i][j].real(), want[i][j].imag());
    return;
  }
}

template <class M> struct Mp;
template <> struct Mp<gridpack::math::Matrix> {
  typedef gridpack::mapper::FullMatrixMap<Net> F;
  static boost::shared_ptr<gridpack::math::Matrix> mk(F &f, bool d) { return f.mapToMatrix(d); }
  static void re(F &f, boost::shared_ptr<gridpack::math::Matrix> &m, bool sp) { if (sp) f.mapToMatrix(m); else f.mapToMatrix(*m); }
  static const bool real = false;
};
template <> struct Mp<gridpack::math::RealMatrix> {
  typedef gridpack::mapper::FullMatrixMap<Net> F;
  static boost::shared_ptr<gridpack::math::RealMatrix> mk(F &f, bool d) { return f.mapToRealMatrix(d); }
  static void re(F &f, boost::shared_ptr<gridpack::math::RealMatrix> &m, bool sp) { if (sp) f.mapToRealMatrix(m); else f.mapToRealMatrix(*m); }
  static const bool real = true;
};
template <class M> void m01_run(Source &s, Ctx &c, World &w, gridpack::mapper::FullMatrixMap<Net> &f, int me) {
  // PETSc fixes the sparsity at the first assembly: later contributions use a part of it
  bool dense = s.chance(1, 4); P.later = 100;
  Expect e = expect(w, Mp<M>::real);
  boost::shared_ptr<M> mat = Mp<M>::mk(f, dense);
  std::vector<VZ> want = e.a;
  compare(c, w, *mat, e, want, me, dense ? "new dense matrix" : "new matrix");
  int n = s.range(0, 3);
  for (int k = 0; k < n; k++) {
    P.salt = s.range(0, 1 << 20);
    int op = Mp<M>::real ? 0 : s.range(0, 2); bool sp = s.flag(); P.later = s.pick({100, 80, 30});
    e = expect(w, Mp<M>::real);
    if (op == 0) { Mp<M>::re(f, mat, sp); want = e.a; }
    else {
      gridpack::math::Matrix &cm = *(gridpack::math::Matrix *)(void *)mat.get(); boost::shared_ptr<gridpack::math::Matrix> cs;
      if (op == 1) { f.incrementMatrix(cm); for (int i = 0; i < e.nr; i++) for (int j = 0; j < e.nc; j++) want[i][j] += e.a[i][j]; }
      else { f.overwriteMatrix(cm); for (int i = 0; i < e.nr; i++) for (int j = 0; j < e.nc; j++) if (e.in[i][j]) want[i][j] = e.a[i][j]; }
    }
    compare(c, w, *mat, e, want, me, op == 0 ? "matrix assembled again" : op == 1 ? "matrix incremented" : "matrix overwritten");
    c.sub++;
  }
  if (dense) c.label("dense");
  c.label(Mp<M>::real ? "real" : "complex");
  c.label(e.nr == 0 || e.nc == 0 ? "empty matrix" : e.nr == e.nc ? "square" : "rectangular");
}
static void M01(Source &s, Ctx &c) {
  C = &c; Comm comm = pick_sub(s, c, 1, 5);
  World w; build(s, c, comm, w, false, 14);
  gen_plan(s, false);
  c.sample = plan_str() + " " + w.m.show();
  int maps = s.range(1, 2);
  for (int k = 0; k < maps && all_ok(c, comm); k++) {
    if (k) gen_plan(s, false);
    // some row and some column must exist for a matrix to exist
    Expect e = expect(w, false); if (!e.nr || !e.nc) { P.pdiag = 100; P.nozero = true; e = expect(w, false); }
    gridpack::mapper::FullMatrixMap<Net> f(w.net);
    int runs = s.range(1, 2);
    for (int r = 0; r < runs && all_ok(c, comm); r++)
      if (s.chance(1, 3)) m01_run<gridpack::math::RealMatrix>(s, c, w, f, comm.rank());
      else m01_run<gridpack::math::Matrix>(s, c, w, f, comm.rank());
  }
  c.nontrivial = comm.size() > 1 ? cut(w.m) : w.m.br.size() > 1;
}

// ---- M02 --------------------------------------------------------------------
template <class V> void m02_run(Source &s, Ctx &c, World &w, gridpack::mapper::BusVectorMap<Net> &f, int me);
template <class V> struct Vp;
template <> struct Vp<gridpack::math::Vector> {
  typedef gridpack::mapper::BusVectorMap<Net> F; typedef Z T;
  static boost::shared_ptr<gridpack::math::Vector> mk(F &f) { return f.mapToVector(); }
  static void re(F &f, boost::shared_ptr<gridpack::math::Vector> &m, bool sp) { if (sp) f.mapToVector(m); else f.mapToVector(*m); }
  static VZ got(MBus &b) { return b.got; }
  static Z cv(Z x) { return x; }
};
template <> struct Vp<gridpack::math::RealVector> {
  typedef gridpack::mapper::BusVectorMap<Net> F; typedef double T;
  static boost::shared_ptr<gridpack::math::RealVector> mk(F &f) { return f.mapToRealVector(); }
  static void re(F &f, boost::shared_ptr<gridpack::math::RealVector> &m, bool sp) { if (sp) f.mapToRealVector(m); else f.mapToRealVector(*m); }
  static VZ got(MBus &b) { VZ r; for (size_t i = 0; i < b.gotr.size(); i++) r.push_back(b.gotr[i]); return r; }
  static double cv(Z x) { return x.real(); }
};
template <class V> void m02_run(Source &s, Ctx &c, World &w, gridpack::mapper::BusVectorMap<Net> &f, int me) {
  const NetModel &m = w.m; typedef typename Vp<V>::T T;
  VI off(m.nb, -1), len(m.nb, 0); int n = 0, lo = 0, hi = 0; bool first = true;
  for (int q = 0; q < m.nb; q++) {
    int i = w.order[q]; if (m.bown[i] == me && first) { lo = n; first = false; }
    off[i] = n; if (vec_has(m.oid[i])) { len[i] = vec_of(m.oid[i]); n += len[i]; }
    if (m.bown[i] == me) hi = n;
  }
  boost::shared_ptr<V> v = Vp<V>::mk(f);
  for (int r = 0; r < 3 && !c.failed; r++) {
    if (r) { P.salt = s.range(0, 1 << 20); Vp<V>::re(f, v, s.flag()); }
    if (v->size() != n) { c.fail("size", "vector has %d elements, expected %d", v->size(), n); return; }
    int a, b; v->localIndexRange(a, b);
    if (b - a != hi - lo || (b > a && a != lo)) c.fail("range", "local elements %d..%d, expected %d..%d", a, b, lo, hi);
    for (int i = 0; i < m.nb && !c.failed; i++) {
      if (m.bown[i] != me) continue;
      for (int k = 0; k < len[i]; k++) { T x; v->getElement(off[i] + k, x); T y = Vp<V>::cv(value(m.oid[i], 0, k, 0, 3)); if (x != y) { c.fail("element", "%s: entry %d of bus %d differs", r ? "vector set again" : "new vector", k, m.oid[i]); break; } }
      int o, z; f.getLocalOffset(w.lb[i], &o, &z);
      if (z != len[i] || (vec_has(m.oid[i]) && o != off[i] - lo)) c.fail("offset", "local offset of bus %d is %d size %d, expected %d size %d", m.oid[i], o, z, off[i] - lo, len[i]);
    }
    // change the vector, push it back
    VZ want(n); std::vector<T> nv;
    VI idx;
    for (int i = a; i < b; i++) { Z x = value(i, 777, r, 0, 5); idx.push_back(i); nv.push_back(Vp<V>::cv(x)); }
    bool changed = s.flag();
    if (changed) { if (!idx.empty()) v->setElements((int)idx.size(), &idx[0], &nv[0]); v->ready(); }
    for (int k = 0; k < w.net->numBuses(); k++) { MBus &B = *w.net->getBus(k); B.set = 0; B.got.clear(); B.gotr.clear(); }
    if (s.flag()) f.mapToBus(v); else f.mapToBus(*v);
    for (int i = 0; i < m.nb && !c.failed; i++) {
      if (w.lb[i] < 0) continue;
      MBus &B = *w.net->getBus(w.lb[i]);
      int must = m.bown[i] == me && vec_has(m.oid[i]);
      if (B.set != must) { c.fail("push", "bus %d received values %d times, expected %d", m.oid[i], B.set, must); break; }
      if (!must) continue;
      VZ got = Vp<V>::got(B);
      for (int k = 0; k < len[i]; k++) { Z y = changed ? (Z)Vp<V>::cv(value(off[i] + k, 777, r, 0, 5)) : (Z)Vp<V>::cv(value(m.oid[i], 0, k, 0, 3)); if (got[k] != y) { c.fail("push", "entry %d pushed to bus %d differs", k, m.oid[i]); break; } }
    }
    c.sub++;
  }
}
static void M02(Source &s, Ctx &c) {
  C = &c; Comm comm = pick_sub(s, c, 1, 5);
  World w; build(s, c, comm, w, false, 16);
  gen_plan(s, false);
  int n = 0; for (int i = 0; i < w.m.nb; i++) n += vec_has(w.m.oid[i]) ? vec_of(w.m.oid[i]) : 0;
  if (!n) { P.pdiag = 100; P.nozero = true; }
  c.sample = plan_str() + " " + w.m.show();
  gridpack::mapper::BusVectorMap<Net> f(w.net);
  int runs = s.range(1, 2);
  for (int r = 0; r < runs && all_ok(c, comm); r++)
    if (s.chance(1, 3)) m02_run<gridpack::math::RealVector>(s, c, w, f, comm.rank()); else m02_run<gridpack::math::Vector>(s, c, w, f, comm.rank());
  // rows of a matrix with the same block sizes
  if (P.square && s.flag()) {
    Plan old = P; P.pdiag = 100;
    gridpack::mapper::FullMatrixMap<Net> fm(w.net); Expect e = expect(w, false);
    if (e.nr && e.nc) {
      P.pval = P.later = 100; e = expect(w, false);
      boost::shared_ptr<gridpack::math::Matrix> mat = fm.mapToMatrix(); int lo, hi; mat->localRowRange(lo, hi);
      int l2 = e.nr, h2 = 0; for (int i = 0; i < w.m.nb; i++) if (w.m.bown[i] == comm.rank()) { l2 = std::min(l2, e.ro[i]); h2 = std::max(h2, e.ro[i] + e.rs[i]); }
      if (hi > lo && (lo != l2 || hi != h2)) c.fail("rows", "matrix rows %d..%d on this process, expected %d..%d", lo, hi, l2, h2);
      c.label("matrix rows");
    }
    P = old;
  }
  c.nontrivial = comm.size() > 1 ? cut(w.m) : w.m.nb > 2;
}

// ---- M03 --------------------------------------------------------------------
// gather (component, position) -> index over the group from every copy; check agreement, permutation, contiguity
typedef std::map<Key, int> Index;
static bool learn(Ctx &c, const World &w, const Comm &comm, int what, Index &ix, int &n) {
  const NetModel &m = w.m; int me = comm.rank();
  std::vector<int> send, owned;
  for (int k = 0; k < w.net->numBuses() + w.net->numBranches(); k++) {
    bool bus = k < w.net->numBuses(); int q = bus ? k : k - w.net->numBuses();
    int a, b = 0; const Gen *g;
    if (bus) { MBus &x = *w.net->getBus(q); a = x.id(); g = &x.g; } else { MBr &x = *w.net->getBranch(q); a = x.a(); b = x.b(); g = &x.g; }
    const VI &v = what == 0 ? g->row : what == 1 ? g->col : what == 2 ? g->vec : g->slab;
    int cnt = what == 0 ? gr_of(a, b) : what == 1 ? gc_of(a, b) : what == 2 ? gv_of(a, b) : gs_of(a, b);
    bool act = bus ? w.net->getActiveBus(q) : w.net->getActiveBranch(q);
    if ((int)v.size() != cnt && cnt > 0) c.fail("index", "component %d-%d got %d indices, declares %d", a, b, (int)v.size(), cnt);
    for (int i = 0; i < (int)v.size(); i++) { int t[5] = {a, b, i, v[i], act}; send.insert(send.end(), t, t + 5); }
  }
  int P = comm.size(), ns = (int)send.size(); std::vector<int> cn(P), dp(P, 0);
  MPI_Comm mc = static_cast<MPI_Comm>(const_cast<Comm &>(comm));
  MPI_Allgather(&ns, 1, MPI_INT, &cn[0], 1, MPI_INT, mc);
  for (int p = 1; p < P; p++) dp[p] = dp[p - 1] + cn[p - 1];
  std::vector<int> all(dp[P - 1] + cn[P - 1] + 1);
  MPI_Allgatherv(ns ? &send[0] : NULL, ns, MPI_INT, &all[0], &cn[0], &dp[0], MPI_INT, mc);
  all.pop_back();
  Index own; ix.clear();
  for (int pass = 0; pass < 2; pass++) for (size_t i = 0; i < all.size(); i += 5) {
    Key k = {all[i], all[i + 1], all[i + 2]}; 
    if (all[i + 4] && pass == 0) { if (ix.count(k)) c.fail("owner", "component %d-%d owned twice", k.a, k.b); ix[k] = all[i + 3]; }
    if (!all[i + 4] && pass == 1) { if (!ix.count(k)) c.fail("owner", "ghost without owner"); else if (ix[k] != all[i + 3]) { c.fail("copies", "copies of component %d-%d see indices %d and %d at position %d", k.a, k.b, ix[k], all[i + 3], k.i); return false; } }
  }
  n = 0;
  for (int i = 0; i < m.nb; i++) { int a = m.oid[i]; n += what == 0 ? gr_of(a, 0) : what == 1 ? gc_of(a, 0) : what == 2 ? gv_of(a, 0) : gs_of(a, 0); }
  for (size_t k = 0; k < m.br.size(); k++) { int a = m.oid[m.br[k].first], b = m.oid[m.br[k].second]; n += what == 0 ? gr_of(a, b) : what == 1 ? gc_of(a, b) : what == 2 ? gv_of(a, b) : gs_of(a, b); }
  std::vector<char> seen(n, 0);
  if ((int)ix.size() != n) { c.fail("index", "%d indices assigned, %d declared", (int)ix.size(), n); return false; }
  for (Index::iterator i = ix.begin(); i != ix.end(); ++i) {
    if (i->second < 0 || i->second >= n || seen[i->second]) { c.fail("permutation", "index %d of component %d-%d is out of range or used twice", i->second, i->first.a, i->first.b); return false; }
    seen[i->second] = 1;
  }
  (void)me;
  return !c.failed;
}
static void clear_got(World &w) {
  for (int k = 0; k < w.net->numBuses(); k++) { Gen &g = w.net->getBus(k)->g; g.vset = g.sset = 0; g.vgot.clear(); g.sgot.clear(); }
  for (int k = 0; k < w.net->numBranches(); k++) { Gen &g = w.net->getBranch(k)->g; g.vset = g.sset = 0; g.vgot.clear(); g.sgot.clear(); }
}
static void m03_matrix(Source &s, Ctx &c, World &w, Comm &comm) {
  const NetModel &m = w.m;
  gridpack::mapper::GenMatrixMap<Net> f(w.net);
  Index r, q; int nr, nc;
  learn(c, w, comm, 0, r, nr); if (!all_ok(c, comm)) return;
  learn(c, w, comm, 1, q, nc); if (!all_ok(c, comm)) return;
  boost::shared_ptr<gridpack::math::Matrix> mat = f.mapToMatrix();
  std::vector<VZ> want(nr, VZ(nc));
  int n = s.range(0, 3), op = 0;
  for (int k = 0; ; k++) {
    std::vector<Decl> d, t;
    for (int i = 0; i < m.nb; i++) {
      std::vector<std::pair<int,int> > brs; for (size_t j = 0; j < m.br.size(); j++) if (m.br[j].first == i || m.br[j].second == i) brs.push_back(std::make_pair(m.oid[m.br[j].first], m.oid[m.br[j].second]));
      t = bus_decl(m.oid[i], brs); d.insert(d.end(), t.begin(), t.end());
    }
    for (size_t j = 0; j < m.br.size(); j++) { t = br_decl(m.oid[m.br[j].first], m.oid[m.br[j].second]); d.insert(d.end(), t.begin(), t.end()); }
    if (op == 0) for (int i = 0; i < nr; i++) want[i].assign(nc, Z(0));
    for (size_t i = 0; i < d.size(); i++) { Z &x = want[r[d[i].r]][q[d[i].c]]; if (op == 1) x += d[i].v; else x = d[i].v; }
    if (mat->rows() != nr || mat->cols() != nc) { c.fail("dimensions", "matrix is %dx%d, declared %dx%d", mat->rows(), mat->cols(), nr, nc); return; }
    int lo, hi; std::vector<VZ> got; read_rows(c, *mat, got, lo, hi);
    for (int i = lo; i < hi && !c.failed; i++) for (int j = 0; j < nc; j++) if (got[i - lo][j] != want[i][j]) {
      Key kr = {0,0,0}, kc = {0,0,0}; for (Index::iterator x = r.begin(); x != r.end(); ++x) if (x->second == i) kr = x->first; for (Index::iterator x = q.begin(); x != q.end(); ++x) if (x->second == j) kc = x->first;
      c.fail("element", "%s: row %d of %d-%d, column %d of %d-%d is %g%+gi, declared %g%+gi", op == 0 ? (k ? "matrix assembled again" : "new matrix") : op == 1 ? "matrix incremented" : "matrix overwritten",
             kr.i, kr.a, kr.b, kc.i, kc.a, kc.b, got[i - lo][j].real(), got[i - lo][j].imag(), want[i][j].real(), want[i][j].imag());
      break;
    }
    c.sub++;
    if (k >= n || !all_ok(c, comm)) break;
    P.salt = s.range(0, 1 << 20); op = s.range(0, 2); bool sp = s.flag();
    if (op == 0) { if (sp) f.mapToMatrix(mat); else f.mapToMatrix(*mat); } else if (op == 1) { if (sp) f.incrementMatrix(mat); else f.incrementMatrix(*mat); } else { if (sp) f.overwriteMatrix(mat); else f.overwriteMatrix(*mat); }
  }
  c.label("matrix");
}
template <class F> void each(World &w, F &f) {
  for (int k = 0; k < w.net->numBuses(); k++) { MBus &x = *w.net->getBus(k); f(x.id(), 0, x.g, w.net->getActiveBus(k)); }
  for (int k = 0; k < w.net->numBranches(); k++) { MBr &x = *w.net->getBranch(k); f(x.a(), x.b(), x.g, w.net->getActiveBranch(k)); }
}
static void m03_vector(Source &s, Ctx &c, World &w, Comm &comm) {
  gridpack::mapper::GenVectorMap<Net> f(w.net);
  Index ix; int n; learn(c, w, comm, 2, ix, n); if (!all_ok(c, comm)) return;
  boost::shared_ptr<gridpack::math::Vector> v = f.mapToVector();
  for (int r = 0; r < 2; r++) {
    if (r) { P.salt = s.range(0, 1 << 20); if (s.flag()) f.mapToVector(v); else f.mapToVector(*v); }
    if (v->size() != n) { c.fail("size", "vector has %d elements, declared %d", v->size(), n); return; }
    int lo, hi; v->localIndexRange(lo, hi);
    for (Index::iterator i = ix.begin(); i != ix.end(); ++i) if (i->second >= lo && i->second < hi) { Z x; v->getElement(i->second, x); if (x != value(i->first.a, i->first.b, i->first.i, 0, 21)) { c.fail("element", "vector element %d of component %d-%d differs", i->first.i, i->first.a, i->first.b); break; } }
    bool changed = s.flag();
    if (changed) { for (int i = lo; i < hi; i++) v->setElement(i, value(i, 5, r, 0, 7)); v->ready(); }
    clear_got(w);
    if (s.flag()) f.mapToNetwork(v); else f.mapToNetwork(*v);
    struct Chk { Ctx &c; Index &ix; bool ch; int r;
      void operator()(int a, int b, Gen &g, bool act) {
        if (c.failed) return;
        if (g.vset != (act ? 1 : 0)) { c.fail("push", "component %d-%d received values %d times, expected %d", a, b, g.vset, (int)act); return; }
        if (act) for (int i = 0; i < gv_of(a, b); i++) { Key k = {a, b, i}; Z y = ch ? value(ix[k], 5, r, 0, 7) : value(a, b, i, 0, 21); if (g.vgot[i] != y) c.fail("push", "element %d pushed to component %d-%d differs", i, a, b); }
      } } chk = {c, ix, changed, r};
    each(w, chk);
    c.sub++;
    if (!all_ok(c, comm)) return;
  }
  c.label("vector");
}
static void m03_slab(Source &s, Ctx &c, World &w, Comm &comm) {
  gridpack::mapper::GenSlabMap<Net> f(w.net);
  Index ix; int n; learn(c, w, comm, 3, ix, n); if (!all_ok(c, comm)) return;
  boost::shared_ptr<gridpack::math::Matrix> v = f.mapToMatrix();
  for (int r = 0; r < 2; r++) {
    if (r) { P.salt = s.range(0, 1 << 20); if (s.flag()) f.mapToMatrix(v); else f.mapToMatrix(*v); }
    if (v->rows() != n || v->cols() != P.slabc) { c.fail("dimensions", "slab is %dx%d, declared %dx%d", v->rows(), v->cols(), n, P.slabc); return; }
    int lo, hi; v->localRowRange(lo, hi);
    for (Index::iterator i = ix.begin(); i != ix.end(); ++i) if (i->second >= lo && i->second < hi) for (int j = 0; j < P.slabc; j++) { Z x; v->getElement(i->second, j, x); if (x != value(i->first.a, i->first.b, i->first.i, j, 22)) { c.fail("element", "slab row %d of component %d-%d differs", i->first.i, i->first.a, i->first.b); break; } }
    bool changed = s.flag();
    if (changed) { for (int i = lo; i < hi; i++) for (int j = 0; j < P.slabc; j++) v->setElement(i, j, value(i, 5, r, j, 8)); v->ready(); }
    clear_got(w);
    if (s.flag()) f.mapToNetwork(v); else f.mapToNetwork(*v);
    struct Chk { Ctx &c; Index &ix; bool ch; int r;
      void operator()(int a, int b, Gen &g, bool act) {
        if (c.failed) return;
        if (g.sset != (act ? 1 : 0)) { c.fail("push", "component %d-%d received slab values %d times, expected %d", a, b, g.sset, (int)act); return; }
        if (act) for (int i = 0; i < gs_of(a, b); i++) for (int j = 0; j < P.slabc; j++) { Key k = {a, b, i}; Z y = ch ? value(ix[k], 5, r, j, 8) : value(a, b, i, j, 22); if (g.sgot[i][j] != y) c.fail("push", "slab row %d pushed to component %d-%d differs", i, a, b); }
      } } chk = {c, ix, changed, r};
    each(w, chk);
    c.sub++;
    if (!all_ok(c, comm)) return;
  }
  c.label("slab");
}
static void M03(Source &s, Ctx &c) {
  C = &c; Comm comm = pick_sub(s, c, 1, 5);
  World w; build(s, c, comm, w, true, 10);
  gen_plan(s, true);
  // at least one row/column/element in all: make the first component non-empty by retrying shapes
  for (int t = 0; t < 50; t++) {
    int r = 0, q = 0, v = 0, sl = 0;
    for (int i = 0; i < w.m.nb; i++) { r += gr_of(w.m.oid[i], 0); q += gc_of(w.m.oid[i], 0); v += gv_of(w.m.oid[i], 0); sl += gs_of(w.m.oid[i], 0); }
    if (r && q && v && sl) break; P.seed++; if (t == 48) P.nozero = true;
  }
  c.sample = plan_str() + " " + w.m.show();
  int n = s.range(1, 3);
  for (int k = 0; k < n && all_ok(c, comm); k++) {
    switch (s.range(0, 2)) { case 0: m03_matrix(s, c, w, comm); break; case 1: m03_vector(s, c, w, comm); break; default: m03_slab(s, c, w, comm); }
  }
  c.nontrivial = comm.size() > 1 ? cut(w.m) : w.m.br.size() > 1;
}
int main(int argc, char **argv) {
  pbt::Registry r;
  r["M01"] = M01; r["M02"] = M02; r["M03"] = M03;
  return pbt_main(argc, argv, r);
}
