// D04 (values sent to the holders of buses and branches), A01 (statistics), A02 (collected output), A03 (tables of buses)
#include "net.hpp"
#include "main.hpp"
#include "comm.hpp"
#include <boost/mpi.hpp>
#include <fstream>
#include <sstream>
#include "gridpack/network/base_network.hpp"
#include "gridpack/component/base_component.hpp"
#include "gridpack/factory/base_factory.hpp"
#include "gridpack/parser/hash_distr.hpp"
#include "gridpack/parser/bus_table.hpp"
#include "gridpack/serial_io/serial_io.hpp"
#include "gridpack/analysis/stat_block.hpp"
using pbt::Source; using pbt::Ctx; using pbt::Registry; using pbt::str;
namespace gc = gridpack::component;
typedef std::vector<int> VI; typedef std::vector<double> VD; typedef std::vector<std::string> VS;

// what a component writes is a function of its identity, the signal and this plan
static struct Plan { uint64_t seed; int pct, maxlen; } P;
static std::string content(bool branch, int a, int b, const char *signal, bool &gives) {
  uint64_t h = hsh(P.seed + (branch ? 77 : 0), a * 1000003ULL + b, signal ? hsh(signal[0], signal[1], strlen(signal)) : 5);
  gives = (int)(h % 100) < P.pct; int n = (h >> 8) % 7 == 0 ? P.maxlen - 1 : (h >> 8) % 7 == 1 ? 0 : (int)((h >> 16) % P.maxlen);
  std::string r = str("%s %d %d|", branch ? "branch" : "bus", a, b); r.resize(n, '.');
  for (int i = (int)r.size() > 24 ? 24 : n; i < n; i++) r[i] = " ab\n\t%0Z"[(h >> (i % 40)) & 7];
  return r;
}
struct Item { int a, b; double x; char pad[7]; };
static Item item(bool branch, int a, int b, const char *signal, bool &gives) {
  content(branch, a, b, signal, gives); uint64_t h = hsh(P.seed ^ 0x55, a * 1000003ULL + b, branch); Item i; memset(&i, 0, sizeof i); i.a = a; i.b = b; i.x = (double)(int64_t)h; snprintf(i.pad, 7, "%d", (int)(h % 99999)); return i;
}
class IBus : public gc::BaseBusComponent {
public:
  bool serialWrite(char *s, const int n, const char *signal = NULL) { bool g; std::string c = content(false, getOriginalIndex(), 0, signal, g); if (!g) return false; memcpy(s, c.c_str(), c.size() + 1); (void)n; return true; }
  bool getDataItem(void *d, const char *signal = NULL) { bool g; Item i = item(false, getOriginalIndex(), 0, signal, g); if (g) memcpy(d, &i, sizeof i); return g; }
private:
  friend class boost::serialization::access;
  template <class A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::base_object<gc::BaseBusComponent>(*this); }
};
class IBr : public gc::BaseBranchComponent {
public:
  bool serialWrite(char *s, const int n, const char *signal = NULL) { bool g; std::string c = content(true, getBus1OriginalIndex(), getBus2OriginalIndex(), signal, g); if (!g) return false; memcpy(s, c.c_str(), c.size() + 1); (void)n; return true; }
  bool getDataItem(void *d, const char *signal = NULL) { bool g; Item i = item(true, getBus1OriginalIndex(), getBus2OriginalIndex(), signal, g); if (g) memcpy(d, &i, sizeof i); return g; }
private:
  friend class boost::serialization::access;
  template <class A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::base_object<gc::BaseBranchComponent>(*this); }
};
BOOST_CLASS_EXPORT(IBus)
BOOST_CLASS_EXPORT(IBr)
typedef gridpack::network::BaseNetwork<IBus, IBr> Net;
typedef gridpack::factory::BaseFactory<Net> Fac;

struct World { NetModel m; VI gb, gr, lb, lr, bo, ro; boost::shared_ptr<Net> net; boost::shared_ptr<Fac> fac; };   // bo, ro: buses and branches by global index
static bool cut(const NetModel &m) { for (size_t k = 0; k < m.br.size(); k++) if (m.bown[m.br[k].first] != m.bown[m.br[k].second]) return true; return false; }
static VI sorted_by(const VI &g) { VI o(g.size()); for (size_t i = 0; i < g.size(); i++) o[g[i]] = (int)i; return o; }
static void build(Source &s, Comm &comm, World &w, int maxb) {
  int np = comm.size(), me = comm.rank();
  w.m = gen_graph(s, np, std::max(2, np), std::max(maxb, np + 1)); gen_owners(s, w.m, s.chance(1, 5));
  switch (s.range(0, 2)) {
    case 0: contiguous(w.m, w.gb, w.gr); break;
    case 1: w.gb.resize(w.m.nb); w.gr.resize(w.m.br.size()); for (int i = 0; i < w.m.nb; i++) w.gb[i] = i; for (size_t i = 0; i < w.gr.size(); i++) w.gr[i] = (int)i; break;
    default: w.gb = s.perm(w.m.nb); w.gr = s.perm((int)w.m.br.size());
  }
  w.net.reset(new Net(comm)); place(*w.net, w.m, me, w.gb, w.gr, w.lb, w.lr, s.flag());
  w.fac.reset(new Fac(w.net)); w.fac->setComponents(); w.bo = sorted_by(w.gb); w.ro = sorted_by(w.gr);
}
static std::string slurp(const std::string &f) { std::ifstream i(f.c_str()); std::stringstream b; b << i.rdbuf(); return b.str(); }

// ---- A02 ---------------------------------------------------------------------
template <class IO> static VS expect(const World &w, bool branch, const char *sig, std::vector<Item> &items) {
  VS r; items.clear(); size_t n = branch ? w.ro.size() : w.bo.size();
  for (size_t i = 0; i < n; i++) { bool g; int a, b = 0; if (branch) { a = w.m.oid[w.m.br[w.ro[i]].first]; b = w.m.oid[w.m.br[w.ro[i]].second]; } else a = w.m.oid[w.bo[i]];
    std::string c = content(branch, a, b, sig, g); if (g) { r.push_back(c); items.push_back(item(branch, a, b, sig, g)); } }
  return r;
}
struct Capture { std::streambuf *old; std::ostringstream o; Capture() { old = std::cout.rdbuf(o.rdbuf()); } ~Capture() { std::cout.rdbuf(old); } };
template <class IO> static void step(Source &s, Ctx &c, Comm &comm, World &w, IO &io, bool branch, std::string &file, std::string &hist, const char *sig, int op, const std::string &path, bool &open, int width) {
  std::vector<Item> items; VS e = expect<IO>(w, branch, sig, items); int me = comm.rank(); std::string all; for (size_t i = 0; i < e.size(); i++) all += e[i]; c.sub++;
  const char *what = branch ? "branches" : "buses"; hist += str("%s%d,", branch ? "B" : "b", op); if (all.size()) c.label("records");
  if (op == 0) {
    VS r = io.writeStrings(sig);
    if (me) { if (!r.empty()) c.fail("strings elsewhere", "process %d gets %d strings of %s", me, (int)r.size(), what); }
    else if (r != e) { size_t k = 0; while (k < r.size() && k < e.size() && r[k] == e[k]) k++; c.fail("strings", "%s: %d strings, expected %d; string %d is '%s' instead of '%s'", what, (int)r.size(), (int)e.size(), (int)k, k < r.size() ? r[k].c_str() : "(missing)", k < e.size() ? e[k].c_str() : "(none)"); }
  } else if (op == 1) {
    std::string got; { Capture cap; io.write(sig); got = cap.o.str(); }
    if (open) { if (me == 0) file += all; all = ""; }
    if (got != (me ? std::string() : all)) c.fail("output", "%s written to the standard output: '%s' instead of '%s'", what, got.c_str(), me ? "" : all.c_str());
  } else if (op == 2) {
    std::string got, h = str("== header %d ==\n", s.range(0, 999)); { Capture cap; io.header(h.c_str()); got = cap.o.str(); }
    if (open) { if (me == 0) file += h; h = ""; }
    if (got != (me ? std::string() : h)) c.fail("header", "header on the standard output of process %d: '%s' instead of '%s'", me, got.c_str(), me ? "" : h.c_str());
  } else if (op == 3 && width >= (int)sizeof(Item)) {
    std::vector<Item> r; Item junk; memset(&junk, 9, sizeof junk); r.resize(s.range(0, 3), junk); io.gatherData(r, sig); c.label("gathered data");
    if (me) { if (!r.empty()) c.fail("data elsewhere", "process %d gets %d records of %s", me, (int)r.size(), what); return; }
    if (r.size() != items.size()) c.fail("gathered data", "%d records of %s gathered, expected %d", (int)r.size(), what, (int)items.size());
    else for (size_t i = 0; i < r.size(); i++) if (r[i].a != items[i].a || r[i].b != items[i].b || r[i].x != items[i].x || strcmp(r[i].pad, items[i].pad)) { c.fail("gathered data", "record %d of %s is %d %d %g '%s' instead of %d %d %g '%s'", (int)i, what, r[i].a, r[i].b, r[i].x, r[i].pad, items[i].a, items[i].b, items[i].x, items[i].pad); break; }
  }
}
static void a02(Source &s, Ctx &c) {
  Comm comm = pick_sub(s, c, 1, 5); World w; build(s, comm, w, 4 + 5 * c.size);
  P.seed = s.range(0, 1 << 20); P.pct = s.pick({100, 100, 60, 20, 5}); int wb = s.pick({128, 40, 64, 25, 300}), wr = s.pick({128, 64, 41, 25}); 
  bool ob = false; std::string hist, file, path = group_file(c, comm, "out"); int n = s.range(1, 7);
  typedef gridpack::serial_io::SerialBusIO<Net> BIO; typedef gridpack::serial_io::SerialBranchIO<Net> RIO;
  boost::shared_ptr<BIO> b(new BIO(wb, w.net)); boost::shared_ptr<RIO> r(new RIO(wr, w.net)); int nfile = 0;
  for (int k = 0; k < n && !c.failed; k++) {
    const char *S[] = {"a", "bus_str", "v", (const char *)0}; const char *sig = S[s.range(0, 3)];
    int op = s.range(0, 5); bool br = s.flag();
    if (op <= 3) { P.maxlen = br ? wr : wb; if (br) step(s, c, comm, w, *r, true, file, hist, sig, op, path, ob, wr); else step(s, c, comm, w, *b, false, file, hist, sig, op, path, ob, wb); }
    else if (op == 4) {   // both go to one file, then back
      if (!ob) { nfile++; std::string f = path + str("_%d", nfile); file = ""; if (br) { r->open(f.c_str()); b->setStream(r->getStream()); } else { b->open(f.c_str()); r->setStream(b->getStream()); } ob = true; hist += "open,"; c.label("file"); }
      else { if (br) { r->close(); b->close(); } else { b->close(); r->close(); } ob = false; hist += "close,"; comm.sync();
        std::string got = slurp(path + str("_%d", nfile)); if (comm.rank() == 0 && got != file) c.fail("file", "the file holds %d bytes instead of %d: '%s' instead of '%s'", (int)got.size(), (int)file.size(), got.substr(0, 200).c_str(), file.substr(0, 200).c_str()); comm.sync(); }
    } else if (!ob) { hist += "new,"; if (br) { r.reset(); r.reset(new RIO(wr, w.net)); } else { b.reset(); b.reset(new BIO(wb, w.net)); } }
    if (!all_ok(c, comm)) return;
  }
  c.nontrivial = n > 1 && (comm.size() == 1 || cut(w.m)); c.sample = w.m.show() + str(" %d%%, widths %d %d: ", P.pct, wb, wr) + hist;
}
// ---- D04 ---------------------------------------------------------------------
struct Small { int v; char t[3]; bool operator<(const Small &o) const { return v != o.v ? v < o.v : strcmp(t, o.t) < 0; } bool operator==(const Small &o) const { return v == o.v && !strcmp(t, o.t); } };
template <class T> struct Make; 
template <> struct Make<double> { static double of(uint64_t h) { return (double)(int64_t)h; } };
template <> struct Make<Small> { static Small of(uint64_t h) { Small r; memset(&r, 0, sizeof r); r.v = (int)(h >> 33); snprintf(r.t, 3, "%d", (int)(h % 97)); return r; } };
template <> struct Make<int> { static int of(uint64_t h) { return (int)(h >> 33); } };
template <class T> static void compare(Ctx &c, std::vector<std::pair<int, std::vector<T> > > got, std::vector<std::pair<int, std::vector<T> > > want, const char *what) {
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); c.sub++;
  if (got == want) return; size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
  bool extra = k >= want.size() || (k < got.size() && got[k] < want[k]);
  c.fail(what, "%s: process gets %d values, expected %d; the first %s is for local index %d", what, (int)got.size(), (int)want.size(), extra ? "value that should not be there" : "missing value", extra ? got[k].first : want[k].first);
}
template <class B, class R> static void d04_run(Source &s, Ctx &c, Comm &comm, World &w) {
  typedef gridpack::hash_distr::HashDistribution<Net, B, R> H; int me = comm.rank(), np = comm.size(); NetModel &m = w.m;
  std::string hist; boost::shared_ptr<H> h(new H(w.net)); int rounds = s.range(1, 4); int travels = 0;
  for (int k = 0; k < rounds && !c.failed; k++) {
    bool br = s.flag(); int nv = s.flag() ? 0 : s.range(1, 5), dense = s.range(0, 4), from = s.range(0, np - 1), salt = s.range(0, 1 << 20); int strange = s.pick({0, 0, 5, 30});
    std::vector<std::pair<int, int> > key; VI who; int most = dense == 0 ? 0 : dense == 1 ? s.range(1, 2) : s.range(1, 3 * m.nb);
    for (int i = 0; i < most; i++) {
      if (br) { const std::pair<int, int> &e = m.br[s.range(0, (int)m.br.size() - 1)]; key.push_back(std::make_pair(m.oid[e.first], m.oid[e.second])); } else key.push_back(std::make_pair(m.oid[s.range(0, m.nb - 1)], 0));
      if (s.chance(strange, 100)) { if (br && s.flag()) key.back().second = 1000003; else key.back().first = 1000001 + s.range(0, 3); }
      who.push_back(dense == 2 ? from : s.range(0, np - 1));
    }
    hist += str("%d %s values x%d;", most, br ? "branch" : "bus", nv); if (most == 0) c.label("nothing to send"); if (nv) c.label("arrays");
    int n = nv ? nv : 1; VI count(np, 0);
    // expected on this process
    std::vector<std::pair<int, std::vector<B> > > wb, gb; std::vector<std::pair<int, std::vector<R> > > wr, gr;
    for (size_t i = 0; i < key.size(); i++) {
      std::vector<B> vb; std::vector<R> vr; for (int j = 0; j < n; j++) { uint64_t x = hsh(salt, i, j); vb.push_back(Make<B>::of(x)); vr.push_back(Make<R>::of(x)); }
      if (br) { for (size_t e = 0; e < m.br.size(); e++) if (w.lr[e] >= 0 && m.oid[m.br[e].first] == key[i].first && m.oid[m.br[e].second] == key[i].second) { wr.push_back(std::make_pair(w.lr[e], vr)); if (who[i] != me) travels++; } }
      else for (int e = 0; e < m.nb; e++) if (w.lb[e] >= 0 && m.oid[e] == key[i].first) { wb.push_back(std::make_pair(w.lb[e], vb)); if (who[i] != me) travels++; }
    }
    if (!br) {
      VI kk; std::vector<B> v; std::vector<B *> a; for (size_t i = 0; i < key.size(); i++) if (who[i] == me) { kk.push_back(key[i].first); if (nv) { B *x = new B[nv]; for (int j = 0; j < nv; j++) x[j] = Make<B>::of(hsh(salt, i, j)); a.push_back(x); } else v.push_back(Make<B>::of(hsh(salt, i, 0))); }
      if (nv) h->distributeBusValues(kk, a, nv); else h->distributeBusValues(kk, v);
      size_t got = nv ? a.size() : v.size(); if (kk.size() != got) { c.fail("lengths", "%d bus indices are returned with %d values", (int)kk.size(), (int)got); }
      else for (size_t i = 0; i < got; i++) gb.push_back(std::make_pair(kk[i], nv ? std::vector<B>(a[i], a[i] + nv) : std::vector<B>(1, v[i])));
      for (size_t i = 0; i < a.size(); i++) delete [] a[i];
      if (!c.failed) compare<B>(c, gb, wb, nv ? "bus arrays" : "bus values");
    } else {
      std::vector<std::pair<int, int> > kk; VI ids(s.range(0, 2), -5); std::vector<R> v; std::vector<R *> a; for (size_t i = 0; i < key.size(); i++) if (who[i] == me) { kk.push_back(key[i]); if (nv) { R *x = new R[nv]; for (int j = 0; j < nv; j++) x[j] = Make<R>::of(hsh(salt, i, j)); a.push_back(x); } else v.push_back(Make<R>::of(hsh(salt, i, 0))); }
      if (nv) h->distributeBranchValues(kk, ids, a, nv); else h->distributeBranchValues(kk, ids, v);
      size_t got = nv ? a.size() : v.size(); if (ids.size() != got) { c.fail("lengths", "%d branch indices are returned with %d values", (int)ids.size(), (int)got); }
      else for (size_t i = 0; i < got; i++) gr.push_back(std::make_pair(ids[i], nv ? std::vector<R>(a[i], a[i] + nv) : std::vector<R>(1, v[i])));
      for (size_t i = 0; i < a.size(); i++) delete [] a[i];
      if (!c.failed) compare<R>(c, gr, wr, nv ? "branch arrays" : "branch values");
    }
    if (!all_ok(c, comm)) return; if (s.chance(1, 5)) h.reset(new H(w.net));
  }
  int all; MPI_Allreduce(&travels, &all, 1, MPI_INT, MPI_SUM, raw(comm));
  c.nontrivial = np == 1 ? all > 0 || hist.size() > 30 : all > 0; c.sample = m.show() + " " + hist;
}
static void d04(Source &s, Ctx &c) {
  Comm comm = pick_sub(s, c, 1, 5); World w; build(s, comm, w, 4 + 5 * c.size);
  if (s.flag()) d04_run<double, Small>(s, c, comm, w); else d04_run<Small, int>(s, c, comm, w);
}
// ---- A03 ---------------------------------------------------------------------
struct Row { int bus; std::string tag; VD v; };
static void a03(Source &s, Ctx &c) {
  Comm comm = pick_sub(s, c, 1, 5); World w; build(s, comm, w, 4 + 5 * c.size); NetModel &m = w.m; int me = comm.rank();
  boost::shared_ptr<gridpack::bus_table::BusTable<Net> > t(new gridpack::bus_table::BusTable<Net>(w.net)); int reads = s.range(1, 3); std::string hist;
  for (int k = 0; k < reads && !c.failed; k++) {
    int what = s.range(0, 9); std::string f = group_file(c, comm, "table") + str("_%d", k);
    if (what == 0) {   // nothing to read
      int kind = s.range(0, 3); if (me == 0 && !kind) remove(f.c_str()); if (me == 0 && kind) { std::ofstream o(f.c_str()); if (kind == 2) o << "# only a comment\n"; if (kind == 3) o << "12 A\n"; } comm.sync();
      bool ok = t->readTable(f); c.sub++; hist += "nothing;"; c.label("no data");
      int v = ok, lo, hi; MPI_Allreduce(&v, &lo, 1, MPI_INT, MPI_MIN, raw(comm)); MPI_Allreduce(&v, &hi, 1, MPI_INT, MPI_MAX, raw(comm));
      if (hi) { c.fail("no data", "a %s is accepted", kind == 0 ? "missing file" : kind == 1 ? "empty file" : kind == 2 ? "file of comments" : "file without columns"); return; }
      continue;
    }
    int nr = s.range(1, s.chance(1, 6) ? 45 : 15), nc = s.range(1, 6), nh = s.flag() ? 0 : s.range(1, 3); std::vector<Row> rows; VS head, lines;
    for (int i = 0; i < nh; i++) { std::string h = str("head %d ", s.range(0, 9)) + std::string(s.range(0, 20), 'x'); head.push_back(h); while (head.back().size() && head.back()[head.back().size() - 1] == ' ') head.back().resize(head.back().size() - 1); lines.push_back((s.chance(1, 4) ? "#" : "# ") + h); }
    bool late = s.chance(1, 4), blank = s.chance(1, 8), noeol = s.chance(1, 6); std::string sep = s.chance(1, 6) ? "\t" : s.flag() ? " " : "   ";
    for (int i = 0; i < nr; i++) {
      Row r; r.bus = s.chance(1, 8) ? 1000001 + s.range(0, 3) : m.oid[s.range(0, m.nb - 1)]; static const char T[] = "ABCDE12345"; r.tag = std::string(1, T[s.range(0, 9)]); if (s.flag()) r.tag += T[s.range(0, 9)];
      std::string l = s.flag() ? "" : std::string(s.range(1, 4), ' '); l += str("%d", r.bus) + sep; bool q = s.chance(1, 6); l += q ? "'" + r.tag + "'" : r.tag; if (r.tag.size() == 1) r.tag += ' ';
      for (int j = 0; j < nc; j++) { double x = s.chance(1, 5) ? s.range(-3, 3) : s.dec(-1000, 1000); std::string n = s.flag() ? str("%.17g", x) : str("%.6e", x); r.v.push_back(atof(n.c_str())); l += sep + n; }
      if (s.chance(1, 8)) l += "  "; rows.push_back(r); if (late && i && s.chance(1, 4)) lines.push_back("# in between"); if (blank && i && s.chance(1, 4)) lines.push_back(""); lines.push_back(l);
    }
    if (late) c.label("comment between rows"); if (blank && s.flag()) lines.push_back(""); if (noeol) c.label("no newline at the end"); if (blank) c.label("blank lines"); if (sep == "\t") c.label("tabs");
    if (me == 0) { std::ofstream o(f.c_str()); for (size_t i = 0; i < lines.size(); i++) { o << lines[i]; if (i + 1 < lines.size() || !noeol) o << "\n"; } } comm.sync();
    if (getenv("PBT_SHOW") && me == 0) for (size_t i = 0; i < lines.size(); i++) fprintf(stderr, "|%s\n", lines[i].c_str());
    hist += str("%d rows of %d;", nr, nc);
    bool ok = t->readTable(f); c.sub++; if (!ok) c.fail("read", "a table of %d rows and %d columns is refused", nr, nc); if (!all_ok(c, comm)) return;
    if (t->getNumColumns() != nc) c.fail("columns", "%d columns instead of %d", t->getNumColumns(), nc);
    VS h, tags; t->getHeaders(h); 
    if (!late) { if (h != head) c.fail("headers", "%d headers instead of %d; the first is '%s' instead of '%s'", (int)h.size(), (int)head.size(), h.size() ? h[0].c_str() : "", head.size() ? head[0].c_str() : ""); }
    VI idx; t->getLocalIndices(idx); t->getTags(tags); if (idx.size() != tags.size()) c.fail("lengths", "%d indices and %d tags", (int)idx.size(), (int)tags.size()); if (!all_ok(c, comm)) return;
    std::vector<std::pair<std::pair<int, std::string>, VD> > got, want; std::vector<VD> cols(nc); VI order = s.perm(nc);
    for (int j = 0; j < nc; j++) { cols[order[j]] = VD(s.range(0, 2), 5.0); t->getValues(order[j], cols[order[j]]); if (cols[order[j]].size() != idx.size()) c.fail("lengths", "%d indices and %d values", (int)idx.size(), (int)cols[order[j]].size()); } if (!all_ok(c, comm)) return;
    for (size_t i = 0; i < idx.size(); i++) { VD v; for (int j = 0; j < nc; j++) v.push_back(cols[j][i]); got.push_back(std::make_pair(std::make_pair(idx[i], tags[i]), v)); }
    for (int i = 0; i < nr; i++) for (int e = 0; e < m.nb; e++) if (w.lb[e] >= 0 && m.oid[e] == rows[i].bus) want.push_back(std::make_pair(std::make_pair(w.lb[e], rows[i].tag), rows[i].v));
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    if (got != want) { size_t q = 0; while (q < got.size() && q < want.size() && got[q] == want[q]) q++; 
      c.fail("rows", "%d rows arrive instead of %d; row %d is bus %d '%s' %.17g instead of bus %d '%s' %.17g", (int)got.size(), (int)want.size(), (int)q, q < got.size() ? w.net->getOriginalBusIndex(got[q].first.first) : -1, q < got.size() ? got[q].first.second.c_str() : "", q < got.size() ? got[q].second[0] : 0, q < want.size() ? w.net->getOriginalBusIndex(want[q].first.first) : -1, q < want.size() ? want[q].first.second.c_str() : "", q < want.size() ? want[q].second[0] : 0); }
    if (nr > 1) c.nontrivial = comm.size() == 1 || cut(m);
    if (!all_ok(c, comm)) return;
    if (s.chance(1, 4)) t.reset(new gridpack::bus_table::BusTable<Net>(w.net));
  }
  c.sample = m.show() + " " + hist;
}
// ---- A01 ---------------------------------------------------------------------
static bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
static void a01(Source &s, Ctx &c) {
  Comm comm = pick_sub(s, c, 1, 5); int np = comm.size(), me = comm.rank();
  int nr = s.range(np, s.chance(1, 4) ? 320 : 25), nc = s.range(2, s.chance(1, 6) ? 230 : 14); if (nr * nc > 20000) nr = 20000 / nc; bool branch = s.flag(), lo = s.flag(), hi = s.flag(), label2 = s.chance(1, 3);
  uint64_t seed = s.range(0, 1 << 24); int pmask = s.pick({0, 10, 40, 90}), kind = s.range(0, 2), base_mask = s.pick({1, 1, 1, 0, 2}), holes = s.pick({0, 0, 20});
  struct V { uint64_t seed; int pmask, kind, bm; double val(int i, int j) const { uint64_t h = hsh(seed, i, j); if (kind == 0) return (double)((int)(h % 4001) - 2000) / 100; if (kind == 1) return 1 + (double)(h % 1001) / 10000; return (double)((int)(h % 7) - 3); } int mask(int i, int j) const { uint64_t h = hsh(seed + 1, i, j); if (j == 0 && bm != 2) return bm; return (int)(h % 100) < pmask ? 0 : (h >> 20) % 5 == 0 ? 2 : 1; } double bound(int i, int w) const { return (double)((int)(hsh(seed + 2, i, w) % 4001) - 2000) / 64; } int id(int i, int w) const { return 1 + hsh(seed + 3, i, w) % 999997; } std::string tag(int i) const { uint64_t h = hsh(seed + 4, i, 0); static const char T[] = "ABCDEF123456"; std::string t(1, T[h % 12]); if ((h >> 8) & 1) t += T[(h >> 12) % 12]; else if ((h >> 9) & 1) t += ' '; return t; } } V = {seed, pmask, kind, base_mask};
  std::vector<char> sup(nc, 1); for (int j = 1; j < nc; j++) if ((int)(hsh(seed + 5, j, 0) % 100) < holes) sup[j] = 0;
  boost::shared_ptr<gridpack::analysis::StatBlock> b(new gridpack::analysis::StatBlock(comm, nr, nc));
  c.nontrivial = nc > 2 && (np == 1 || nr > np); c.sample = strf("%d rows %d columns, %s, mask %d%%, base mask %d%s%s%s", nr, nc, branch ? "branches" : "buses", pmask, base_mask, lo ? ", min" : "", hi ? ", max" : "", holes ? ", columns missing" : "");
  if (nr > 100) c.label("several blocks of rows"); if (nc > 100) c.label("several blocks of columns"); if (holes) c.label("missing columns"); if (base_mask != 1) c.label("base may be masked");
  // labels and bounds from any process, columns from any process, some replaced
  int lp = s.range(0, np - 1), bp = s.range(0, np - 1);
  if (me == lp || label2) { VI a, d; VS t; for (int i = 0; i < nr; i++) { a.push_back(V.id(i, 0)); d.push_back(V.id(i, 1)); t.push_back(V.tag(i)); } if (branch) b->addRowLabels(a, d, t); else b->addRowLabels(a, t); }
  if (me == bp || label2) { VD v; if (lo) { for (int i = 0; i < nr; i++) v.push_back(V.bound(i, 0)); b->addRowMinValue(v); } v.clear(); if (hi) { for (int i = 0; i < nr; i++) v.push_back(V.bound(i, 1)); b->addRowMaxValue(v); } }
  bool again = s.flag();
  if (again) { for (int j = 0; j < nc; j++) if (sup[j] && hsh(seed + 6, j, 1) % 4 == 0 && (int)(hsh(seed + 6, j, 2) % np) == me) b->addColumnValues(j, VD(nr, 1e9), VI(nr, 2)); comm.sync(); }
  for (int j = 0; j < nc; j++) if (sup[j] && (int)(hsh(seed + 7, j, 1) % np) == me) { VD v; VI k; for (int i = 0; i < nr; i++) { v.push_back(V.val(i, j)); k.push_back(V.mask(i, j)); } b->addColumnValues(j, v, k); }
  std::string path = group_file(c, comm, "stat"); int n = s.range(1, 4);
  for (int k = 0; k < n && !c.failed; k++) {
    int what = s.range(0, 3), mval = s.range(what == 2 ? 0 : 1, 2); bool flag = s.chance(3, 4); std::string f = path + str("_%d", k); c.sub++;
    if (what == 0) b->writeMeanAndRMS(f, mval, flag); else if (what == 1) b->writeMinAndMax(f, mval, flag); else if (what == 2) b->writeMaskValueCount(f, mval, flag); else b->sumColumnValues(f, mval);
    static const char *W[] = {"mean and deviations", "extremes", "mask count", "column sums"}; c.label(W[what]);
    if (me == 0) {
      std::ifstream in(f.c_str()); std::string l; int i = 0;
      for (; std::getline(in, l) && !c.failed; i++) {
        std::istringstream q(l); std::vector<std::string> w; std::string x; while (q >> x) w.push_back(x); size_t p = 0;
        if (what == 3) {
          if (i >= nc || w.size() != 3 || atoi(w[0].c_str()) != i) { c.fail("format", "%s: line %d is '%s'", W[what], i, l.c_str()); break; }
          double sum = 0, mag = 1; if (sup[i]) for (int r = 0; r < nr; r++) if (V.mask(r, i) >= mval) { sum += V.val(r, i); mag += std::fabs(V.val(r, i)); }
          if (!close(atof(w[1].c_str()), sum, 1e-8 * mag) || !close(atof(w[2].c_str()), sum / nr, 1e-8 * mag)) c.fail("sum", "column %d: '%s' instead of %.8e %.8e", i, l.c_str(), sum, sum / nr);
          continue;
        }
        size_t lab = 1 + (branch ? 2 : 1) + (flag ? 1 : 0), val = what == 0 ? 3 : what == 1 ? 7 + lo + hi : 1; std::string tag = V.tag(i); while (tag[tag.size() - 1] == ' ') tag.resize(tag.size() - 1);
        if (i >= nr || w.size() != lab + val) { c.fail("format", "%s: line %d has %d fields instead of %d: '%s'", W[what], i, (int)w.size(), (int)(lab + val), l.c_str()); break; }
        bool okl = atoi(w[p++].c_str()) == i + 1; okl = atoi(w[p++].c_str()) == V.id(i, 0) && okl; if (branch) okl = atoi(w[p++].c_str()) == V.id(i, 1) && okl; if (flag) okl = w[p++] == tag && okl; if (!okl) { c.fail("labels", "%s: line %d is labelled '%s'", W[what], i, l.c_str()); break; }
        VD v; VI at; int cnt = 0; double base = V.val(i, 0), sum = 0, d2 = 0, big = 1; for (int j = 0; j < nc; j++) { if (sup[j] && V.mask(i, j) >= mval) { v.push_back(V.val(i, j)); at.push_back(j); sum += v.back(); big = std::max(big, std::fabs(v.back())); if (j) d2 += (v.back() - base) * (v.back() - base); } if ((sup[j] ? V.mask(i, j) : 0) == mval) cnt++; }
        int M = (int)v.size();
        if (what == 2) { if (atoi(w[p].c_str()) != cnt) c.fail("count", "line %d: mask value %d is counted %s times instead of %d", i, mval, w[p].c_str(), cnt); }
        else if (what == 0) {
          double avg = M ? sum / M : 0, s2 = 0; for (int j = 0; j < M; j++) s2 += (v[j] - avg) * (v[j] - avg); s2 = M > 1 ? std::sqrt(s2 / (M - 1)) : 0; d2 = M > 1 ? std::sqrt(d2 / (M - 1)) : 0; double e = 2e-8 * big;
          if (!close(atof(w[p].c_str()), avg, e)) c.fail("mean", "line %d: mean %s instead of %.8e (%d values)", i, w[p].c_str(), avg, M);
          else if (!close(atof(w[p + 1].c_str()), s2, s2 < 1e-6 * big ? 1e-6 * big : 1e-7 * s2 + e * big / std::max(s2, 1e-6))) c.fail("deviation", "line %d: deviation %s instead of %.8e (%d values)", i, w[p + 1].c_str(), s2, M);
          else if (!close(atof(w[p + 2].c_str()), d2, e + 1e-7 * d2)) c.fail("deviation from base", "line %d: deviation from the base %s instead of %.8e (%d values)", i, w[p + 2].c_str(), d2, M);
        } else {
          double mn = base, mx = base; int jn = 0, jx = 0; for (int j = 0; j < M; j++) { if (!j || v[j] < mn) { mn = v[j]; jn = at[j]; } if (!j || v[j] > mx) { mx = v[j]; jx = at[j]; } }
          double e = 1e-8 * (big + std::fabs(base)), want[5] = {base, mn, mx, mn - base, mx - base}; static const char *N[] = {"base", "minimum", "maximum", "minimum minus base", "maximum minus base"};
          for (int j = 0; j < 5; j++) if (!close(atof(w[p + j].c_str()), want[j], e)) { c.fail(N[j], "line %d: %s %s instead of %.8e (%d values)", i, N[j], w[p + j].c_str(), want[j], M); break; } p += 5; if (c.failed) break;
          if (lo && !close(atof(w[p++].c_str()), V.bound(i, 0), 1e-6)) { c.fail("lower limit", "line %d: '%s'", i, l.c_str()); break; }
          if (hi && !close(atof(w[p++].c_str()), V.bound(i, 1), 1e-6)) { c.fail("upper limit", "line %d: '%s'", i, l.c_str()); break; }
          int a = atoi(w[p].c_str()), z = atoi(w[p + 1].c_str()); bool ga = false, gz = false; for (int j = 0; j < M; j++) { if (at[j] == a && v[j] == mn) ga = true; if (at[j] == z && v[j] == mx) gz = true; }
          if (M && (!ga || !gz)) c.fail("place", "line %d: extremes given at columns %d and %d, they are at %d and %d", i, a, z, jn, jx);
        }
      }
      if (!c.failed && i != (what == 3 ? nc : nr)) c.fail("lines", "%s: %d lines instead of %d", W[what], i, what == 3 ? nc : nr);
    }
    if (!all_ok(c, comm)) return;
  }
}
int main(int argc, char **argv) {
  Registry r;
  r["A01"] = a01; r["A02"] = a02; r["A03"] = a03; r["D04"] = d04;
  return pbt_main(argc, argv, r);
}
