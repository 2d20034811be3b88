// C01 attribute collections, C02 serialization, C03 configuration
#include "main.hpp"
#include "comm.hpp"
#include "gridpack/component/data_collection.hpp"
#include "gridpack/component/base_component.hpp"
#include "gridpack/configuration/configuration.hpp"
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/scoped_ptr.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/export.hpp>
#include <boost/mpi.hpp>
#include <limits>
#include <limits.h>
using namespace pbt;
typedef gridpack::component::DataCollection DC;
typedef gridpack::ComplexType CX;

// ------------------------------------------------------------------ model
typedef std::pair<std::string, int> Key;          // name, index (INT_MIN: none)
static const int NOIDX = INT_MIN;
template <class T> static bool bits(const T &a, const T &b) { return memcmp(&a, &b, sizeof(T)) == 0; }
template <> bool bits<std::string>(const std::string &a, const std::string &b) { return a == b; }
template <> bool bits<CX>(const CX &a, const CX &b) { double x[4] = {a.real(), a.imag(), b.real(), b.imag()}; return memcmp(x, x + 2, 16) == 0; }
struct Model {
  std::map<Key, int> i; std::map<Key, long> l; std::map<Key, bool> b; std::map<Key, std::string> s;
  std::map<Key, float> f; std::map<Key, double> d; std::map<Key, CX> z;
  size_t size() const { return i.size() + l.size() + b.size() + s.size() + f.size() + d.size() + z.size(); }
};
static const char *NAMES[] = {"A", "AB", "BUS_NUMBER", "GENERATOR_ID", "a", "X1", "X", "LOAD_PL", "x y", "1", "VERY_LONG_NAME_THAT_EXCEEDS_ANY_SHORT_STRING_BUFFER", "B"};
static std::string name(Source &s) { return NAMES[s.range(0, 11)]; }
static int index(Source &s) {
  switch (s.range(0, 6)) {
    case 0: case 1: return NOIDX;
    case 2: return s.range(0, 2);
    case 3: return s.range(0, 12);
    case 4: return s.range(98, 112);
    case 5: return s.pick({-1, -7, 9999999, 10000000, 99999999, 123456789, INT_MAX, -99999999});
    default: return 1;
  }
}
static double dbl(Source &s) {
  switch (s.range(0, 9)) {
    case 0: return 0.0; case 1: return -0.0; case 2: return HUGE_VAL; case 3: return -HUGE_VAL;
    case 4: return std::numeric_limits<double>::quiet_NaN(); case 5: return 5e-324; case 6: return std::numeric_limits<double>::max();
    default: return s.real(); }
}
static std::string text(Source &s) {
  int n = s.pick({0, 1, 2, 5, 15, 16, 40}); std::string r;
  int mode = s.range(0, 2);
  for (int k = 0; k < n; k++) r += mode == 0 ? (char)('a' + s.range(0, 25)) : mode == 1 ? " \t\n\r'\",:<&"[s.range(0, 9)] : (char)s.range(1, 255);
  return r;
}
template <class T> static T gen(Source &s);
template <> int gen<int>(Source &s) { return s.chance(1, 4) ? s.pick({INT_MAX, INT_MIN, 0, -1}) : s.range(-1000, 1000); }
template <> long gen<long>(Source &s) { return s.chance(1, 3) ? (s.flag() ? LONG_MAX : LONG_MIN) : (long)s.range(-1000, 1000) * 1000003L * 1009L; }
template <> bool gen<bool>(Source &s) { return s.flag(); }
template <> float gen<float>(Source &s) { return (float)dbl(s); }
template <> double gen<double>(Source &s) { return dbl(s); }
template <> CX gen<CX>(Source &s) { double a = dbl(s), b = dbl(s); return CX(a, b); }
template <> std::string gen<std::string>(Source &s) { return text(s); }

template <class T> static const T &passv(const T &v) { return v; }
static const char *passv(const std::string &v) { return v.c_str(); }

template <class T> static void one_op(Source &s, Ctx &c, DC &dc, std::map<Key, T> &m, const char *ty, std::string &h) {
  Key k(name(s), index(s)); T v = gen<T>(s);
  int op = s.range(0, 2);
  if (op == 0) {
    if (k.second == NOIDX) dc.addValue(k.first.c_str(), passv(v)); else dc.addValue(k.first.c_str(), passv(v), k.second);
    m.insert(std::make_pair(k, v));
  } else if (op == 1) {
    bool r = k.second == NOIDX ? dc.setValue(k.first.c_str(), passv(v)) : dc.setValue(k.first.c_str(), passv(v), k.second);
    typename std::map<Key, T>::iterator it = m.find(k);
    if (r != (it != m.end())) c.fail(std::string("set ") + ty, "setting %s %s:%d reported %d", ty, k.first.c_str(), k.second, (int)r);
    if (it != m.end()) it->second = v;
  } else {
    T g = v, g0 = v; bool r = k.second == NOIDX ? dc.getValue(k.first.c_str(), &g) : dc.getValue(k.first.c_str(), &g, k.second);
    typename std::map<Key, T>::iterator it = m.find(k);
    if (r != (it != m.end())) c.fail(std::string("get ") + ty, "getting %s %s:%d reported %d", ty, k.first.c_str(), k.second, (int)r);
    else if (!bits(g, r ? it->second : g0)) c.fail(std::string("get ") + ty, "%s %s:%d has a wrong value%s", ty, k.first.c_str(), k.second, r ? "" : " after a lookup that found nothing");
  }
  h += op == 0 ? 'a' : op == 1 ? 's' : 'g';
}
template <class T> static bool full(Ctx &c, DC &dc, const std::map<Key, T> &m, const char *ty, const char *what) {
  static const int idx[] = {NOIDX, 0, 1, 2, 3, 11, 12, 100, 110, -1, 9999999, 10000000, 99999999, INT_MAX, 123456789};
  for (int n = 0; n < 12; n++) for (size_t q = 0; q < sizeof idx / sizeof *idx; q++) {
    Key k(NAMES[n], idx[q]); T g = T(), g0 = T();
    bool r = k.second == NOIDX ? dc.getValue(k.first.c_str(), &g) : dc.getValue(k.first.c_str(), &g, k.second);
    typename std::map<Key, T>::const_iterator it = m.find(k);
    if (r != (it != m.end())) { c.fail(std::string(what) + " " + ty, "%s: %s %s:%d %s", what, ty, k.first.c_str(), k.second, r ? "present but never added" : "lost"); return false; }
    if (!bits(g, r ? it->second : g0)) { c.fail(std::string(what) + " " + ty, "%s: %s %s:%d has a wrong value", what, ty, k.first.c_str(), k.second); return false; }
  }
  for (typename std::map<Key, T>::const_iterator it = m.begin(); it != m.end(); ++it) {
    T g = T(); bool r = it->first.second == NOIDX ? dc.getValue(it->first.first.c_str(), &g) : dc.getValue(it->first.first.c_str(), &g, it->first.second);
    if (!r || !bits(g, it->second)) { c.fail(std::string(what) + " " + ty, "%s: %s %s:%d lost or wrong", what, ty, it->first.first.c_str(), it->first.second); return false; }
  }
  return true;
}
static void full(Ctx &c, DC &dc, const Model &m, const char *what) {
  full(c, dc, m.i, "int", what) && full(c, dc, m.l, "long", what) && full(c, dc, m.b, "bool", what) && full(c, dc, m.s, "string", what) &&
  full(c, dc, m.f, "float", what) && full(c, dc, m.d, "double", what) && full(c, dc, m.z, "complex", what);
}
static void op(Source &s, Ctx &c, DC &dc, Model &m, std::string &h) {
  switch (s.range(0, 6)) {
    case 0: one_op(s, c, dc, m.i, "int", h); break; case 1: one_op(s, c, dc, m.l, "long", h); break;
    case 2: one_op(s, c, dc, m.b, "bool", h); break; case 3: one_op(s, c, dc, m.s, "string", h); break;
    case 4: one_op(s, c, dc, m.f, "float", h); break; case 5: one_op(s, c, dc, m.d, "double", h); break;
    default: one_op(s, c, dc, m.z, "complex", h);
  }
}
static void C01(Source &s, Ctx &c) {
  std::vector<boost::shared_ptr<DC> > dc; std::vector<Model> m; std::string h;
  dc.push_back(boost::shared_ptr<DC>(new DC)); m.push_back(Model());
  int n = s.range(1, 80), copies = 0;
  for (int t = 0; t < n && !c.failed; t++) {
    int k = s.range(0, (int)dc.size() - 1);
    if (s.chance(1, 12)) {
      if (dc.size() < 3 && s.flag()) { dc.push_back(boost::shared_ptr<DC>(new DC(*dc[k]))); Model mm = m[k]; m.push_back(mm); h += 'C'; }
      else { int j = s.range(0, (int)dc.size() - 1); *dc[j] = *dc[k]; Model mm = m[k]; m[j] = mm; h += 'A'; }
      copies++;
    } else op(s, c, *dc[k], m[k], h);
    c.sub++;
  }
  for (size_t k = 0; k < dc.size() && !c.failed; k++) full(c, *dc[k], m[k], copies ? "after copies" : "at the end");
  if (copies) c.label("copies");
  c.nontrivial = m[0].size() > 2;
  c.sample = h;
}

// -------------------------------------------------------------------- C02
class TBus : public gridpack::component::BaseBusComponent {
public:
  int a; double v; std::string t;
  TBus() : a(0), v(0) {}
private:
  friend class boost::serialization::access;
  template <class A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::base_object<gridpack::component::BaseBusComponent>(*this) & a & v & t; }
};
class TBranch : public gridpack::component::BaseBranchComponent {
public:
  int a; CX v;
  TBranch() : a(0) {}
private:
  friend class boost::serialization::access;
  template <class A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::base_object<gridpack::component::BaseBranchComponent>(*this) & a & v; }
};
BOOST_CLASS_EXPORT_KEY(TBus)
BOOST_CLASS_EXPORT_KEY(TBranch)
BOOST_CLASS_EXPORT_IMPLEMENT(TBus)
BOOST_CLASS_EXPORT_IMPLEMENT(TBranch)
struct BusRec { int a, orig, glob, mv, i, j; double v; std::string t; bool ref, two; };
struct BrRec { int a, o1, o2, g1, g2, mv, i, j; CX v; bool two; };
static void fill(TBus &b, const BusRec &r) {
  b.a = r.a; b.v = r.v; b.t = r.t; b.setOriginalIndex(r.orig); b.setGlobalIndex(r.glob); b.setReferenceBus(r.ref);
  b.setMatVecIndex(r.mv); if (r.two) b.setMatVecIndices(r.i, r.j);
}
static void same(Ctx &c, TBus &b, const BusRec &r, const char *w) {
  int mv, i, j; b.getMatVecIndex(&mv); b.getMatVecIndices(&i, &j);
  if (b.a != r.a || !bits(b.v, r.v) || b.t != r.t) c.fail("bus-fields", "%s: fields of the bus changed", w);
  if (b.getOriginalIndex() != r.orig) c.fail("bus-original", "%s: original index %d became %d", w, r.orig, b.getOriginalIndex());
  if (b.getGlobalIndex() != r.glob) c.fail("bus-global", "%s: global index %d became %d", w, r.glob, b.getGlobalIndex());
  if (b.getReferenceBus() != r.ref) c.fail("bus-reference", "%s: reference flag changed", w);
  if (mv != r.mv) c.fail("bus-mvindex", "%s: matrix index %d became %d", w, r.mv, mv);
  if (r.two && (i != r.i || j != r.j)) c.fail("bus-mvindices", "%s: matrix indices (%d,%d) became (%d,%d)", w, r.i, r.j, i, j);
}
static void fill(TBranch &b, const BrRec &r) {
  b.a = r.a; b.v = r.v; b.setBus1OriginalIndex(r.o1); b.setBus2OriginalIndex(r.o2); b.setBus1GlobalIndex(r.g1); b.setBus2GlobalIndex(r.g2);
  b.setMatVecIndex(r.mv); if (r.two) b.setMatVecIndices(r.i, r.j);
}
static void same(Ctx &c, TBranch &b, const BrRec &r, const char *w) {
  int mv, i, j; b.getMatVecIndex(&mv); b.getMatVecIndices(&i, &j);
  if (b.a != r.a || !bits(b.v, r.v)) c.fail("branch-fields", "%s: fields of the branch changed", w);
  if (b.getBus1OriginalIndex() != r.o1 || b.getBus2OriginalIndex() != r.o2) c.fail("branch-original", "%s: original indices changed", w);
  if (b.getBus1GlobalIndex() != r.g1 || b.getBus2GlobalIndex() != r.g2) c.fail("branch-global", "%s: global indices changed", w);
  if (mv != r.mv) c.fail("branch-mvindex", "%s: matrix index changed", w);
  if (r.two && (i != r.i || j != r.j)) c.fail("branch-mvindices", "%s: matrix indices changed", w);
}
// through an archive, or to another process and back
template <class T> static void trip(const T &in, T &out, int how, Ctx &c, int partner) {
  if (how == 0) { std::ostringstream o; { boost::archive::binary_oarchive a(o); a << in; } std::istringstream i(o.str()); boost::archive::binary_iarchive a(i); a >> out; }
  else if (how == 1) { std::ostringstream o; { boost::archive::text_oarchive a(o); a << in; } std::istringstream i(o.str()); boost::archive::text_iarchive a(i); a >> out; }
  else {   // every process sends to the next, and gets its own object back after a round
    boost::mpi::communicator w(c.comm, boost::mpi::comm_attach);
    T cur = in;
    for (int k = 0; k < c.size; k++) {
      T nx; int to = (c.rank + partner) % c.size, from = (c.rank + c.size - partner) % c.size;
      if (to == c.rank) { nx = cur; }
      else {
        boost::mpi::packed_oarchive oa(w); oa << cur; boost::mpi::packed_iarchive ia(w);
        MPI_Request rq; int n = (int)oa.size(), m; MPI_Isend(&n, 1, MPI_INT, to, 5, c.comm, &rq); MPI_Recv(&m, 1, MPI_INT, from, 5, c.comm, MPI_STATUS_IGNORE); MPI_Wait(&rq, MPI_STATUS_IGNORE);
        MPI_Isend((void *)oa.address(), n, MPI_PACKED, to, 6, c.comm, &rq); ia.resize(m); MPI_Recv(ia.address(), m, MPI_PACKED, from, 6, c.comm, MPI_STATUS_IGNORE); MPI_Wait(&rq, MPI_STATUS_IGNORE);
        ia >> nx;
      }
      cur = nx;
    }
    out = cur;
  }
}
static bool finite(const Model &m) {
  for (auto &x : m.f) if (!std::isfinite(x.second)) return false;
  for (auto &x : m.d) if (!std::isfinite(x.second) || (x.second != 0 && fabs(x.second) < 1e-300)) return false;
  for (auto &x : m.z) if (!std::isfinite(x.second.real()) || !std::isfinite(x.second.imag())|| (fabs(x.second.real()) < 1e-300) || (fabs(x.second.imag()) < 1e-300)) return false;
  for (auto &x : m.f) if (x.second != 0 && fabs(x.second) < 1e-37) return false;
  return true;
}
static void C02(Source &s, Ctx &c) {
  int how = s.range(0, 2), partner = s.range(1, std::max(1, c.size - 1)); int what = s.range(0, 4);
  if (c.size == 1) partner = 0;
  std::string h;
  c.label(how == 0 ? "binary archive" : how == 1 ? "text archive" : "between processes");
  if (what <= 1) {
    boost::shared_ptr<DC> d(new DC), e(new DC); Model m; int n = s.range(0, 60);
    for (int t = 0; t < n; t++) { Ctx dummy; op(s, dummy, *d, m, h); }
    if (how == 1 && !finite(m)) { how = 0; }
    if (what == 0) { trip(*d, *e, how, c, partner); full(c, *e, m, "round trip"); full(c, *d, m, "source"); }
    else {  // shared pointers in a vector, sharing kept
      std::vector<boost::shared_ptr<DC> > v, w; v.push_back(d); v.push_back(boost::shared_ptr<DC>(new DC)); v.push_back(d);
      trip(v, w, how, c, partner);
      if (w.size() != 3) c.fail("vector", "a vector of 3 collections became %d", (int)w.size());
      else { full(c, *w[0], m, "round trip"); full(c, *w[2], m, "round trip"); full(c, *w[1], Model(), "empty"); }
      c.label("pointers");
    }
    c.nontrivial = m.size() > 1; c.sample = "collection " + h;
  } else {
    BusRec b; b.a = gen<int>(s); b.v = how == 1 ? s.real() : dbl(s); b.t = text(s); b.orig = gen<int>(s); b.glob = gen<int>(s); b.mv = gen<int>(s); b.i = gen<int>(s); b.j = gen<int>(s); b.ref = s.flag(); b.two = s.flag();
    BrRec r; r.a = gen<int>(s); r.v = how == 1 ? CX(s.real(), s.real()) : gen<CX>(s); r.o1 = gen<int>(s); r.o2 = gen<int>(s); r.g1 = gen<int>(s); r.g2 = gen<int>(s); r.mv = gen<int>(s); r.i = gen<int>(s); r.j = gen<int>(s); r.two = s.flag();
    // setMatVecIndices may share storage with setMatVecIndex in a component
    if (b.two) { TBus p; fill(p, b); p.getMatVecIndex(&b.mv); } if (r.two) { TBranch p; fill(p, r); p.getMatVecIndex(&r.mv); }
    if (what == 2) { TBus x, y; fill(x, b); trip(x, y, how, c, partner); same(c, y, b, "bus"); same(c, x, b, "source bus"); }
    else if (what == 3) { TBranch x, y; fill(x, r); trip(x, y, how, c, partner); same(c, y, r, "branch"); }
    else {
      typedef boost::shared_ptr<gridpack::component::BaseComponent> P; std::vector<P> v, w;
      TBus *x = new TBus; fill(*x, b); v.push_back(P(x)); TBranch *z = new TBranch; fill(*z, r); v.push_back(P(z));
      trip(v, w, how, c, partner);
      TBus *xb = w.size() == 2 ? dynamic_cast<TBus *>(w[0].get()) : 0; TBranch *zb = w.size() == 2 ? dynamic_cast<TBranch *>(w[1].get()) : 0;
      if (!xb || !zb) c.fail("pointers", "components came back with other types"); else { same(c, *xb, b, "bus by pointer"); same(c, *zb, r, "branch by pointer"); }
      c.label("pointers");
    }
    c.nontrivial = true; c.sample = strf("component kind %d orig %d glob %d", what, b.orig, b.glob);
  }
}

// -------------------------------------------------------------------- C03
struct Node { std::string name, txt; std::vector<Node> ch; };
static const char *ELEM[] = {"Powerflow", "a", "b", "maxIterations", "tolerance", "x", "y", "z", "Bus", "bus", "solver"};
static std::string value(Source &s) {
  char b[64];
  switch (s.range(0, 12)) {
    case 0: return s.flag() ? "true" : "false"; case 1: return s.flag() ? "1" : "0";
    case 2: snprintf(b, sizeof b, "%d", s.range(-100000, 100000)); return b;
    case 3: snprintf(b, sizeof b, "%.17g", s.real()); return b;
    case 4: snprintf(b, sizeof b, "%.3e", s.real()); return b;
    case 5: return s.flag() ? "yes" : "True";
    case 6: snprintf(b, sizeof b, "%dabc", s.range(0, 99)); return b;
    case 7: { std::string r; int n = s.range(1, 12); for (int i = 0; i < n; i++) r += "ab c.<&\"'>/-_"[s.range(0, 12)]; 
              while (!r.empty() && r[0] == ' ') r.erase(0, 1); while (!r.empty() && r[r.size() - 1] == ' ') r.erase(r.size() - 1); return r; }
    case 8: return "";
    case 9: snprintf(b, sizeof b, "%d", s.flag() ? INT_MAX : INT_MIN); return b;
    case 10: return "2147483648";
    case 11: snprintf(b, sizeof b, "-%d.%d", s.range(0, 9), s.range(0, 999)); return b;
    default: return "IEEE14.raw";
  }
}
static void gen_tree(Source &s, Node &n, int depth) {
  int k = depth == 0 ? s.range(1, 5) : s.range(1, 4);
  for (int i = 0; i < k; i++) {
    Node c; c.name = ELEM[s.range(0, 10)];
    if (depth < 3 && s.chance(2, 5)) gen_tree(s, c, depth + 1); else c.txt = value(s);
    n.ch.push_back(c);
  }
}
static std::string esc(const std::string &t) {
  std::string r; for (size_t i = 0; i < t.size(); i++) switch (t[i]) { case '<': r += "&lt;"; break; case '&': r += "&amp;"; break; case '>': r += "&gt;"; break; case '"': r += "&quot;"; break; default: r += t[i]; } return r;
}
static void write(Source &s, const Node &n, int ind, bool pretty, std::string &o) {
  std::string nl = pretty ? "\n" : "", sp = pretty ? std::string(ind * 2, ind % 2 ? '\t' : ' ') : "";
  if (n.ch.empty()) {
    bool pad = s.chance(1, 4); std::string p = pad ? "  " : "";
    if (n.txt.empty()) { o += sp + (s.flag() ? "<" + n.name + "/>" : "<" + n.name + "></" + n.name + ">") + nl; return; }
    o += sp + "<" + n.name + ">" + p + esc(n.txt) + p + "</" + n.name + ">" + nl; return; }
  o += sp + "<" + n.name + ">" + nl;
  for (size_t i = 0; i < n.ch.size(); i++) { if (s.chance(1, 8)) o += sp + "<!-- note " + n.ch[i].name + " -->" + nl; write(s, n.ch[i], ind + 1, pretty, o); }
  o += sp + "</" + n.name + ">" + nl;
}
static const Node *find(const Node &n, const std::string &path) {
  if (path.empty()) return &n;
  size_t p = path.find('.'); std::string h = path.substr(0, p);
  for (size_t i = 0; i < n.ch.size(); i++) if (n.ch[i].name == h) return p == std::string::npos ? &n.ch[i] : find(n.ch[i], path.substr(p + 1));
  return 0;
}
static bool p_int(const std::string &t, int &v) { char *e; errno = 0; if (t.empty()) return false; long x = strtol(t.c_str(), &e, 10); if (*e || x > INT_MAX || x < INT_MIN) return false; v = (int)x; return true; }
static bool p_dbl(const std::string &t, double &v) { char *e; if (t.empty()) return false; v = strtod(t.c_str(), &e); return !*e; }
static bool p_bool(const std::string &t, bool &v) { if (t == "true" || t == "1") v = true; else if (t == "false" || t == "0") v = false; else return false; return true; }
typedef gridpack::utility::Configuration CF;
static void look(Ctx &c, CF &cf, const Node &base, const std::string &path, uint64_t r) {
  const Node *n = find(base, path); const char *P = path.c_str(); bool leaf = n && n->ch.empty();
  std::string t = leaf ? n->txt : "";
  int wi; double wd; bool wb; bool hi = leaf && p_int(t, wi), hd = leaf && p_dbl(t, wd), hb = leaf && p_bool(t, wb);
  int di = (int)(r % 1000) - 500; double dd = di / 7.0; bool db = r & 1;
  { int x = di; bool f = cf.get(path, &x); int y = cf.get(path, di); if (f != hi || x != (hi ? wi : di) || y != (hi ? wi : di)) c.fail("int", "integer at '%s' ('%s'): found %d value %d, with default %d", P, t.c_str(), (int)f, x, y); }
  { double x = dd; bool f = cf.get(path, &x); double y = cf.get(path, dd); if (f != hd || x != (hd ? wd : dd) || y != (hd ? wd : dd)) c.fail("double", "real at '%s' ('%s'): found %d value %.17g, with default %.17g", P, t.c_str(), (int)f, x, y); }
  { bool x = db; bool f = cf.get(path, &x); bool y = cf.get(path, db); if (f != hb || x != (hb ? wb : db) || y != (hb ? wb : db)) c.fail("bool", "truth value at '%s' ('%s'): found %d value %d, with default %d", P, t.c_str(), (int)f, (int)x, (int)y); }
  if (!n || leaf) { std::string x = "dflt v", ds = "other"; bool f = cf.get(path, &x); std::string y = cf.get(path, ds), z = cf.get(path, "third");
    if (f != (n != 0) || x != (n ? t : "dflt v") || y != (n ? t : ds) || z != (n ? t : "third")) c.fail("string", "text at '%s': found %d '%s' / '%s' / '%s', written '%s'", P, (int)f, x.c_str(), y.c_str(), z.c_str(), t.c_str()); }
  { CF::CursorPtr p = cf.getCursor(path); if ((bool)p != (n != 0)) c.fail("cursor", "cursor at '%s' is %s", P, p ? "set but the entry is absent" : "empty but the entry exists"); }
  { std::vector<double> v, d(3, dd), g; bool f = cf.get(path, &v); g = cf.get(path, d);
    std::vector<double> w; if (n) { const char *ax[] = {"x", "y", "z"}; for (int i = 0; i < 3; i++) { const Node *q = find(*n, ax[i]); double u; w.push_back(q && q->ch.empty() && p_dbl(q->txt, u) ? u : 0.0); } }
    if (f != (n != 0) || v != w || g != (n ? w : d)) c.fail("vector", "3-vector at '%s' differs", P); }
}
static void walk(Ctx &c, CF &cf, const Node &n, int depth) {
  CF::ChildElements el; CF::ChildCursors cs; cf.children(el); cf.children(cs);
  std::vector<CF::CursorPtr> k; std::vector<std::string> nm; size_t comments = 0;
  for (size_t i = 0; i < el.size(); i++) { if (el[i].name.compare(0, 4, "<xml") == 0) { comments++; continue; } k.push_back(el[i].cursor); nm.push_back(el[i].name); }
  if (cs.size() != el.size() && cs.size() != nm.size()) c.fail("children", "%d child cursors but %d child elements", (int)cs.size(), (int)el.size());
  if (nm.size() != n.ch.size()) { c.fail("children", "element %s has %d children, the document %d", n.name.c_str(), (int)nm.size(), (int)n.ch.size()); return; }
  for (size_t i = 0; i < nm.size(); i++) {
    if (nm[i] != n.ch[i].name) { c.fail("children", "child %d is %s, the document has %s", (int)i, nm[i].c_str(), n.ch[i].name.c_str()); return; }
    if (n.ch[i].ch.empty()) { std::string w = "?"; if (!k[i]->get("", &w) || w != n.ch[i].txt) c.fail("child-value", "child %s reads '%s', written '%s'", nm[i].c_str(), w.c_str(), n.ch[i].txt.c_str()); }
    else walk(c, *k[i], n.ch[i], depth + 1);
  }
}
static void C03(Source &s, Ctx &c) {
  Comm comm = pick_sub(s, c); static int serial = 0; serial++;
  int lead = c.rank; MPI_Bcast(&lead, 1, MPI_INT, 0, (MPI_Comm)comm);
  Node doc; doc.name = ""; Node root; root.name = s.chance(1, 5) ? "Settings" : "Configuration"; gen_tree(s, root, 0); doc.ch.push_back(root);
  std::string o; if (s.flag()) o += "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n"; size_t st = o.size();
  write(s, root, 0, s.flag(), o);
  int mode = s.range(0, 8); bool good = true;
  if (mode == 0) {   // damage
    good = false; size_t en = o.find_last_of('>');
    int d = s.pick({0, 2, 3});
    if (d == 0) { o.resize(st + 1 + s.draw(en - st - 1)); }
    else if (d == 1) { size_t p = o.rfind("</"); o.insert(p + 2, "q"); }
    else if (d == 2) { o = ""; }
    else { size_t p = o.find("<", st); o.erase(p, 1 + root.name.size() + 1); size_t q = o.rfind("</"); o.insert(q, "<unclosed>"); o.insert(st, "<" + root.name + ">"); }
    c.label(strf("damaged document %d", d));
  }
  CF cf; bool r;
  if (s.chance(1, 3)) {
    std::vector<std::string> ln; std::string cur; for (size_t i = 0; i < o.size(); i++) { cur += o[i]; if (o[i] == '\n') { ln.push_back(cur); cur = ""; } } if (!cur.empty()) ln.push_back(cur);
    if (comm.rank() != 0 && s.flag()) ln.clear();
    r = cf.openStringFile(ln, comm); c.label("from strings");
  } else {
    std::string f = c.scratch + strf("/cfg-%d-%d.xml", lead, serial % 4);
    bool gone = mode == 1; if (gone) { f += ".missing"; good = false; c.label("missing file"); }
    if (comm.rank() == 0 && !gone) { FILE *fp = fopen(f.c_str(), "w"); if (!fp) { perror("scratch"); abort(); } fwrite(o.data(), 1, o.size(), fp); fclose(fp); }
    comm.barrier();
    r = cf.open(f, comm);
  }
  if (r != good) c.fail("open", "opening a %s document reported %s", good ? "well-formed" : "damaged or missing", r ? "success" : "failure");
  if (good && r) {
    walk(c, cf, doc, 0);
    int n = s.range(3, 12), present = 0;
    CF::CursorPtr cur; const Node *base = &doc; std::string bp;
    if (s.chance(1, 2)) { // through a cursor, maybe two steps
      std::string p = root.name; cur = cf.getCursor(p); base = &root;
      if (cur && s.flag()) { std::vector<const Node *> in; for (size_t i = 0; i < root.ch.size(); i++) if (!root.ch[i].ch.empty()) in.push_back(&root.ch[i]);
        if (!in.empty()) { const Node *t = in[s.draw(in.size())]; const Node *first = find(root, t->name); cur = cur->getCursor(t->name); base = first; } }
      c.label("cursor");
      if (!cur) { c.fail("cursor", "no cursor for an existing entry"); return; }
    }
    for (int q = 0; q < n && !c.failed; q++) {
      std::string p; const Node *at = base; int steps = s.range(1, 4);
      for (int k = 0; k < steps; k++) {
        std::string nm; if (!at->ch.empty() && s.chance(5, 6)) { at = &at->ch[s.draw(at->ch.size())]; nm = at->name; } else nm = ELEM[s.range(0, 10)];
        p += (p.empty() ? "" : ".") + nm; if (at->ch.empty()) break;
      }
      if (find(*base, p)) present++;
      look(c, cur ? *cur : cf, *base, p, s.draw(1 << 20)); c.sub++;
    }
    c.nontrivial = present > 0;
  } else c.nontrivial = true;
  c.sample = o.substr(0, 300);
}

int main(int argc, char **argv) {
  Registry r; r["C01"] = C01; r["C02"] = C02; r["C03"] = C03;
  return pbt_main(argc, argv, r);
}
