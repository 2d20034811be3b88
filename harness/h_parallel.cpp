// D01 redistribution, D02 shared stores, D03 distributed index, D05 task hand-out,
// D06 group communication, R01 random streams
#include "main.hpp"
#include "comm.hpp"
#include "gridpack/parallel/shuffler.hpp"
#include "gridpack/parallel/ga_shuffler.hpp"
#include "gridpack/parallel/global_store.hpp"
#include "gridpack/parallel/global_vector.hpp"
#include "gridpack/parallel/index_hash.hpp"
#include "gridpack/parallel/task_manager.hpp"
#include "gridpack/parallel/random.hpp"
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/shared_ptr.hpp>
#include <algorithm>
#include <typeinfo>
using namespace pbt;
typedef std::vector<int> VI;

// ---------------------------------------------------------------- D01
struct Item {
  int id; std::string s; std::vector<double> v; boost::shared_ptr<int> p;
  Item() : id(-1) {}
  template <class A> void serialize(A &a, const unsigned int) { a & id & s & v; }
};
static uint64_t hs(uint64_t x) { return Source::mix(x); }
static Item make_item(int id, int big) {
  Item t; t.id = id; uint64_t h = hs(id * 7919ULL + big);
  int n = h % 12; for (int i = 0; i < n; i++) t.s += (char)(hs(h + i) & 0xff);
  int m = big ? (int)(hs(h + 5) % big) : (int)(h / 16 % 3);
  for (int i = 0; i < m; i++) t.v.push_back(ldexp((double)(int64_t)hs(h + 100 + i), -40));
  return t;
}
static bool same(const Item &a, const Item &b) { return a.id == b.id && a.s == b.s && a.v == b.v; }
static std::vector<Item> gather(const Comm &c, const std::vector<Item> &l) {
  std::vector<Item> all; std::vector<std::vector<Item> > g;
  boost::mpi::all_gather(c.getCommunicator(), l, g);
  for (size_t i = 0; i < g.size(); i++) all.insert(all.end(), g[i].begin(), g[i].end());
  return all;
}
template <class Sh> static void shuffle_case(Source &s, Ctx &c, const Comm &comm, Sh &sh, int round) {
  int P = comm.size(), me = comm.rank();
  int cmode = s.range(0, 4), dmode = s.range(0, 5);
  int big = s.chance(1, 12) ? 20000 : 0;
  std::vector<Item> mine; VI dest, wantid; long cross = 0, tot = 0;
  std::vector<VI> expect(P);
  int id = round * 100000;
  std::vector<int> cnt(P);
  for (int p = 0; p < P; p++) {
    int mx = s.range(0, s.chance(1, 10) ? 300 : 25);
    cnt[p] = cmode == 0 ? mx : cmode == 1 ? (p == 0 ? mx : 0) : cmode == 2 ? (p == P - 1 ? mx : 0) : cmode == 3 ? (p == 0 ? 0 : mx) : (mx > 8 ? 0 : mx);
  }
  int hot = s.range(0, P - 1);
  uint64_t dseed = s.draw(1 << 30);
  for (int p = 0; p < P; p++) for (int i = 0; i < cnt[p]; i++) {
    uint64_t h = hs(dseed + id);
    int d = dmode == 0 ? (int)(h % P) : dmode == 1 ? hot : dmode == 2 ? p : dmode == 3 ? (p + 1) % P : dmode == 4 ? (h % 8 ? hot : (int)(h / 8 % P)) : (int)((p + i) % P);
    if (p == me) { mine.push_back(make_item(id, big)); dest.push_back(d); }
    expect[d].push_back(id); cross += d != p; tot++;
    id++;
  }
  sh(mine, dest);
  VI got; for (size_t i = 0; i < mine.size(); i++) got.push_back(mine[i].id);
  VI w = expect[me]; std::sort(w.begin(), w.end()); std::sort(got.begin(), got.end());
  if (got != w) {
    std::string t; for (size_t i = 0; i < w.size() && i < 20; i++) if (!std::binary_search(got.begin(), got.end(), w[i])) t += strf(" missing %d", w[i]);
    for (size_t i = 0; i < got.size() && i < 20; i++) if (!std::binary_search(w.begin(), w.end(), got[i])) t += strf(" extra %d", got[i]);
    c.fail("delivery", "round %d: got %d items, expected %d;%s", round, (int)got.size(), (int)w.size(), t.c_str());
  }
  for (size_t i = 0; i < mine.size(); i++) if (!same(mine[i], make_item(mine[i].id, big))) c.fail("contents", "item %d arrived modified", mine[i].id);
  if (cross > 1) c.nontrivial = true;
  if (big && tot) c.label("large items");
  c.label(strf("destinations mode %d", dmode)); c.label(strf("counts mode %d", cmode));
  c.sample += strf("[counts"); for (int p = 0; p < P; p++) c.sample += strf(" %d", cnt[p]);
  c.sample += strf(" dmode %d cross %ld]", dmode, cross);
}
static void D01(Source &s, Ctx &c) {
  Comm comm = pick_sub(s, c);
  int rounds = s.range(1, 3), kind = s.range(0, 2);
  c.label(kind == 2 ? "array transport" : "message transport");
  if (kind == 2) {
    gridpack::parallel::gaShuffler<Item, int> sh(comm);
    for (int r = 0; r < rounds && !c.failed; r++) { shuffle_case(s, c, comm, sh, r); c.sub++; }
  } else {
    gridpack::parallel::Shuffler<Item, int> sh(comm);
    for (int r = 0; r < rounds; r++) { shuffle_case(s, c, comm, sh, r); c.sub++; }
  }
}

// ---------------------------------------------------------------- D02
struct Rec { int a; double b; char t[5]; };
static bool operator==(const Rec &x, const Rec &y) { return x.a == y.a && x.b == y.b && memcmp(x.t, y.t, 5) == 0; }
static void mk(int &r, uint64_t h) { r = (int)h; }
static void mk(double &r, uint64_t h) { r = ldexp((double)(int64_t)h, -30); }
static void mk(gridpack::ComplexType &r, uint64_t h) { r = gridpack::ComplexType(ldexp((double)(int64_t)h, -30), ldexp((double)(int64_t)hs(h), -50)); }
static void mk(Rec &r, uint64_t h) { memset(&r, 0, sizeof r); r.a = (int)h; r.b = ldexp((double)(int64_t)hs(h), -30); for (int i = 0; i < 5; i++) r.t[i] = (char)hs(h + i); }
template <class T> static T mk(uint64_t h) { T r; mk(r, h); return r; }

template <class T> static void store_case(Source &s, Ctx &c, const Comm &comm) {
  int P = comm.size(), me = comm.rank();
  gridpack::parallel::GlobalStore<T> st(comm);
  int maxid = s.range(0, s.chance(1, 6) ? 120 : 15), nid = 0; uint64_t salt = s.draw(1 << 30);
  std::map<int, VI> stored;   // id -> {owner, size}
  bool empties = s.chance(1, 3);
  int omode = s.range(0, 2), total = 0, top = -1;
  std::vector<int> order = s.perm(maxid + 1);
  for (int k = 0; k <= maxid; k++) {
    int id = order[k];
    if (s.chance(1, 4)) continue;
    int own = omode == 0 ? id % P : omode == 1 ? s.range(0, P - 1) : 0;
    int n = s.range(empties ? 0 : 1, s.chance(1, 15) ? 3000 : 12);
    stored[id] = {own, n}; total += n; nid++; top = std::max(top, id);
    if (own == me) { std::vector<T> v(n); for (int i = 0; i < n; i++) v[i] = mk<T>(hs(salt + id * 10007ULL + i)); st.addVector(id, v); }
  }
  if (total == 0) { T one = mk<T>(salt); stored[maxid + 1] = {0, 1}; top = maxid + 1; total = 1;
    if (me == 0) st.addVector(maxid + 1, std::vector<T>(1, mk<T>(hs(salt + (maxid + 1) * 10007ULL)))); }
  st.upload();
  int nq = s.range(1, 12); int missing = 0;
  for (int q = 0; q < nq; q++) {
    // every process asks for its own sequence
    uint64_t base = s.draw(1 << 20);
    int id = (int)(hs(base + me) % (top + 1));
    std::vector<T> v; bool threw = false;
    try { st.getVector(id, v); } catch (const gridpack::Exception &) { threw = true; }
    std::map<int, VI>::iterator it = stored.find(id);
    int n = it == stored.end() ? 0 : it->second[1];
    if (it == stored.end()) missing++;
    if (threw && it != stored.end()) c.fail("store", "vector %d was stored but is reported as out of range", id);
    if (!threw && (int)v.size() != n) c.fail("store", "vector %d has %d entries, expected %d", id, (int)v.size(), n);
    for (int i = 0; !threw && i < (int)v.size() && i < n; i++) if (!(v[i] == mk<T>(hs(salt + id * 10007ULL + i)))) { c.fail("store", "entry %d of vector %d differs", i, id); break; }
    c.sub++;
  }
  // identifiers beyond anything stored
  bool threw = false; std::vector<T> v;
  try { st.getVector(top + 1 + (int)s.range(0, 3), v); } catch (const gridpack::Exception &) { threw = true; }
  if (!threw && !v.empty()) c.fail("store", "an identifier above all stored ones returned data");
  if (missing) c.label("absent identifier asked for");
  if (empties) c.label("empty vectors");
  if (nid > 1) c.nontrivial = true;
  c.sample = strf("store ids=%d total=%d top=%d", nid, total, top);
}
template <class T> static void vector_case(Source &s, Ctx &c, const Comm &comm) {
  int P = comm.size(), me = comm.rank();
  gridpack::parallel::GlobalVector<T> gv(comm);
  int n = s.range(1, s.chance(1, 8) ? 1500 : 40);
  uint64_t salt = s.draw(1 << 30);
  int omode = s.range(0, 3), density = s.range(1, 4);
  std::vector<uint64_t> val(n, 0); std::vector<char> has(n, 0);
  std::vector<int> perm = s.perm(n);
  VI idx; std::vector<T> vals; int cnt = 0, seq = 0;
  for (int k = 0; k < n; k++) {
    int i = perm[k];
    if (i != n - 1 && density < 3 && hs(salt + 77 + i) % 3 < (uint64_t)(3 - density)) continue;
    int own = omode == 0 ? i % P : omode == 1 ? (int)(hs(salt + 5 + i) % P) : omode == 2 ? P - 1 : (i * P / n + 1) % P;
    has[i] = 1; val[i] = hs(salt + i); cnt++;
    if (own == me) { idx.push_back(i); vals.push_back(mk<T>(val[i])); if (seq++ % 5 == 4) { gv.addElements(idx, vals); idx.clear(); vals.clear(); } }
  }
  gv.addElements(idx, vals);
  uint64_t delay = s.chance(1, 3) ? s.draw(600) : 0;
  if (delay) nap(hs(salt + me) % delay);
  gv.upload();
  int rounds = s.range(1, 4);
  for (int r = 0; r < rounds; r++) {
    if (r > 0) {
      comm.barrier();
      VI ix; std::vector<T> vv; uint64_t rs = s.draw(1 << 30); int rm = s.range(0, 2);
      for (int i = 0; i < n; i++) {
        if (hs(rs + i) % 3 == 0) continue;
        val[i] = hs(rs * 3 + i); has[i] = 1;
        int own = rm == 0 ? (int)(hs(rs + i) / 7 % P) : rm == 1 ? 0 : (n - 1 - i) % P;
        if (own == me) { ix.push_back(i); vv.push_back(mk<T>(val[i])); }
      }
      if (s.chance(1, 4)) {   // a reset that is replaced before it is loaded
        VI ix2; std::vector<T> vv2; for (int i = me; i < n; i += P + 1) { ix2.push_back(i); vv2.push_back(mk<T>(rs + 99 + i)); }
        gv.resetElements(ix2, vv2); c.label("reset replaced");
      }
      gv.resetElements(ix, vv);
      if (delay) nap(hs(rs + me) % delay);
      gv.reload();
      c.label("reloaded");
    }
    VI q; uint64_t qs = s.draw(1 << 30); int nq = s.range(0, 30);
    for (int k = 0; k < nq; k++) { int i = (int)(hs(qs + k + me * 1000) % n); if (has[i]) q.push_back(i); }
    std::vector<T> out(3);
    gv.getData(q, out);
    if (out.size() != q.size()) c.fail("vector", "getData returned %d values for %d indices", (int)out.size(), (int)q.size());
    for (size_t k = 0; k < q.size() && k < out.size(); k++) if (!(out[k] == mk<T>(val[q[k]]))) { c.fail("vector", "round %d: index %d has a wrong value", r, q[k]); break; }
    std::vector<T> all; gv.getAllData(all);
    if ((int)all.size() != n) c.fail("vector", "the whole vector has %d elements, expected %d", (int)all.size(), n);
    for (int i = 0; i < n && i < (int)all.size(); i++) if (has[i] && !(all[i] == mk<T>(val[i]))) { c.fail("vector", "round %d: whole vector is wrong at index %d", r, i); break; }
    c.sub++;
  }
  comm.barrier();
  if (cnt > 1) c.nontrivial = true;
  c.sample = strf("vector n=%d contributed=%d rounds=%d", n, cnt, rounds);
}
static void D02(Source &s, Ctx &c) {
  Comm comm = pick_sub(s, c);
  int what = s.range(0, 1), ty = s.range(0, 3);
  c.label(strf("%s of %s", what ? "vector" : "store", ty == 0 ? "int" : ty == 1 ? "double" : ty == 2 ? "complex" : "struct"));
  if (what == 0) { if (ty == 0) store_case<int>(s, c, comm); else if (ty == 1) store_case<double>(s, c, comm); else if (ty == 2) store_case<gridpack::ComplexType>(s, c, comm); else store_case<Rec>(s, c, comm); }
  else { if (ty == 0) vector_case<int>(s, c, comm); else if (ty == 1) vector_case<double>(s, c, comm); else if (ty == 2) vector_case<gridpack::ComplexType>(s, c, comm); else vector_case<Rec>(s, c, comm); }
}

// ---------------------------------------------------------------- D03
static void D03(Source &s, Ctx &c) {
  Comm comm = pick_sub(s, c);
  int P = comm.size(), me = comm.rank();
  gridpack::hash_map::GlobalIndexHashMap hm(comm);
  std::multimap<int, int> m1; std::multimap<std::pair<int, int>, int> m2;
  bool have1 = false, have2 = false;
  int steps = s.range(2, 6), nq = 0;
  int space = s.pick({3, 10, 60, 999997});
  for (int t = 0; t < steps; t++) {
    int op = t == 0 ? s.range(0, 1) : s.range(0, 3);
    if (op >= 2 && !(op == 2 ? have1 : have2)) op -= 2;
    uint64_t sd = s.draw(1 << 30);
    std::vector<int> cnt(P); int mode = s.range(0, 3);
    for (int p = 0; p < P; p++) { int k = s.range(0, s.chance(1, 10) ? 200 : 15); cnt[p] = mode == 0 ? k : mode == 1 ? (p == 0 ? k : 0) : mode == 2 ? (p ? k : 0) : (k < 8 ? 0 : k); }
    if (op == 0) {
      std::vector<std::pair<int, int> > mine; m1.clear();
      for (int p = 0; p < P; p++) for (int i = 0; i < cnt[p]; i++) {
        int k = (int)(hs(sd + p * 1000 + i) % space), v = (int)(hs(sd * 5 + p * 1000 + i) % 100000) - 50000;
        m1.insert(std::make_pair(k, v)); if (p == me) mine.push_back(std::make_pair(k, v)); }
      hm.addPairs(mine); have1 = true; c.sample += strf("add1(%d) ", (int)m1.size());
    } else if (op == 1) {
      std::vector<std::pair<std::pair<int, int>, int> > mine; m2.clear();
      for (int p = 0; p < P; p++) for (int i = 0; i < cnt[p]; i++) {
        uint64_t h = hs(sd + p * 1000 + i);
        std::pair<int, int> k((int)(h % space), (int)(h / 1000003 % space)); int v = (int)(hs(h) % 100000) - 50000;
        m2.insert(std::make_pair(k, v)); if (p == me) mine.push_back(std::make_pair(k, v)); }
      hm.addPairs(mine); have2 = true; c.sample += strf("add2(%d) ", (int)m2.size());
    } else if (op == 2) {
      std::vector<int> keys, vals; std::vector<int> pool; bool uniq = s.chance(2, 3);
      for (std::multimap<int, int>::iterator it = m1.begin(); it != m1.end(); ++it) pool.push_back(it->first);
      for (int i = 0; i < cnt[me]; i++) { uint64_t h = hs(sd + me * 1000 + i); keys.push_back(!pool.empty() && h % 4 ? pool[h / 4 % pool.size()] : (int)(h / 4 % space)); }
      std::set<int> ks(keys.begin(), keys.end()); if (uniq) { keys.assign(ks.begin(), ks.end()); std::reverse(keys.begin(), keys.end()); }
      std::multiset<std::pair<int, int> > want, got;
      for (std::set<int>::iterator k = ks.begin(); k != ks.end(); ++k) { auto r = m1.equal_range(*k); for (auto it = r.first; it != r.second; ++it) want.insert(*it); }
      vals.assign(2, 777);
      hm.getValues(keys, vals);
      if (keys.size() != vals.size()) { c.fail("index", "%d keys but %d values returned", (int)keys.size(), (int)vals.size()); break; }
      for (size_t i = 0; i < keys.size(); i++) got.insert(std::make_pair(keys[i], vals[i]));
      if (!uniq) { std::set<std::pair<int, int> > a(want.begin(), want.end()), b(got.begin(), got.end()); want.clear(); got.clear(); want.insert(a.begin(), a.end()); got.insert(b.begin(), b.end()); }
      if (want != got) { c.fail("index", "lookup of %d keys returned %d pairs, expected %d", (int)ks.size(), (int)got.size(), (int)want.size()); }
      nq += want.size(); c.sub++;
    } else {
      std::vector<std::pair<int, int> > keys, pool; std::vector<int> vals; bool uniq = s.chance(2, 3);
      for (auto it = m2.begin(); it != m2.end(); ++it) pool.push_back(it->first);
      for (int i = 0; i < cnt[me]; i++) { uint64_t h = hs(sd + me * 1000 + i);
        std::pair<int, int> k = !pool.empty() && h % 4 ? pool[h / 4 % pool.size()] : std::make_pair((int)(h / 4 % space), (int)(h / 4000037 % space));
        if (h % 29 == 1) std::swap(k.first, k.second);
        keys.push_back(k); }
      std::set<std::pair<int, int> > ks(keys.begin(), keys.end()); if (uniq) { keys.assign(ks.begin(), ks.end()); std::reverse(keys.begin(), keys.end()); }
      typedef std::pair<std::pair<int, int>, int> T3;
      std::multiset<T3> want, got;
      for (auto k = ks.begin(); k != ks.end(); ++k) { auto r = m2.equal_range(*k); for (auto it = r.first; it != r.second; ++it) want.insert(*it); }
      hm.getValues(keys, vals);
      if (keys.size() != vals.size()) { c.fail("pair-index", "%d keys but %d values returned", (int)keys.size(), (int)vals.size()); break; }
      for (size_t i = 0; i < keys.size(); i++) got.insert(std::make_pair(keys[i], vals[i]));
      if (!uniq) { std::set<T3> a(want.begin(), want.end()), b(got.begin(), got.end()); want.clear(); got.clear(); want.insert(a.begin(), a.end()); got.insert(b.begin(), b.end()); }
      if (want != got) c.fail("pair-index", "lookup of %d key pairs returned %d entries, expected %d", (int)ks.size(), (int)got.size(), (int)want.size());
      nq += want.size(); c.sub++;
    }
  }
  int tot = 0; MPI_Allreduce(&nq, &tot, 1, MPI_INT, MPI_SUM, raw(comm));
  c.nontrivial = tot > 0;
  c.sample += strf("found %d space %d", tot, space);
}

// ---------------------------------------------------------------- D05
static void D05(Source &s, Ctx &c) {
  Comm world;
  bool grouped = c.size > 1 && s.chance(1, 3);
  Comm mgr = grouped ? world : pick_sub(s, c, 1, 5);
  Comm grp = grouped ? world.divide(s.range(1, c.size)) : mgr.self();
  bool worldctor = mgr.size() == world.size() && s.flag();
  std::vector<boost::shared_ptr<gridpack::parallel::TaskManager> > tms;
  int nm = s.range(1, 2);
  for (int i = 0; i < nm; i++)
    tms.push_back(boost::shared_ptr<gridpack::parallel::TaskManager>(worldctor ? new gridpack::parallel::TaskManager() : new gridpack::parallel::TaskManager(mgr)));
  int rounds = s.range(1, 4);
  if (grouped) c.label("process groups");
  bool multi = false;
  for (int r = 0; r < rounds; r++) {
    gridpack::parallel::TaskManager &tm = *tms[s.range(0, nm - 1)];
    int N = s.pick({0, 1, 2, 5, 13, 40}); N += s.range(0, 3);
    bool cancel = s.chance(1, 4); int canceller = s.range(0, mgr.size() - 1), after = s.range(1, 4);
    uint64_t delay = s.pick({0, 0, 30, 200}), sd = s.draw(1 << 30);
    tm.set(N);
    VI got; int t, calls = 0; bool cancelled = false;
    for (;;) {
      if (delay) nap(hs(sd + mgr.rank() * 131 + calls) % delay);
      // a group cancels through its first process
      t = -77;
      bool ok = grouped ? tm.nextTask(grp, &t) : tm.nextTask(&t);
      calls++;
      if (!ok) { if (t != -1) c.fail("task", "no task left but the task number is %d", t); break; }
      if (t < 0 || t >= N) { c.fail("task", "task number %d out of 0..%d", t, N - 1); }
      if (cancelled) c.fail("task-cancel", "task %d handed out after this process cancelled", t);
      got.push_back(t);
      if (grouped) {
        int t0 = t; MPI_Bcast(&t0, 1, MPI_INT, 0, (MPI_Comm)grp);
        if (t0 != t) c.fail("task-group", "members of one group got tasks %d and %d", t0, t);
      }
      if (cancel && mgr.rank() == canceller && calls == after && (!grouped || grp.rank() == 0)) {
        tm.cancel(); cancelled = true; }
      if (calls > N + 2) { c.fail("task", "more tasks than exist"); }
      if (calls > N + 200) break;
    }
    if (cancelled && grouped) cancelled = true;
    // who reports: the first process of every group
    VI rep; if (!grouped || grp.rank() == 0) rep = got;
    std::vector<VI> all; boost::mpi::all_gather(mgr.getCommunicator(), rep, all);
    int anyc = cancelled, allc; MPI_Allreduce(&anyc, &allc, 1, MPI_INT, MPI_MAX, (MPI_Comm)mgr);
    VI flat; int askers = 0; for (size_t i = 0; i < all.size(); i++) { flat.insert(flat.end(), all[i].begin(), all[i].end()); askers += !all[i].empty(); }
    std::sort(flat.begin(), flat.end());
    for (size_t i = 1; i < flat.size(); i++) if (flat[i] == flat[i - 1]) c.fail("task-twice", "task %d handed out twice", flat[i]);
    if (!allc) {
      if ((int)flat.size() != N) c.fail("task-missing", "%d tasks handed out, %d set", (int)flat.size(), N);
    } else c.label("cancelled");
    if (askers > 1 || (mgr.size() == 1 && N > 1)) multi = true;
    c.sub++;
    c.sample += strf("N=%d%s ", N, allc ? " cancelled" : "");
  }
  c.nontrivial = multi;
}

// ---------------------------------------------------------------- D06
template <class T> static T val(uint64_t h, int mode);
template <> double val<double>(uint64_t h, int mode) { return mode == 0 ? (double)(int)(h % 2001) - 1000 : mode == 1 ? ldexp((double)(int64_t)h, -63) : -ldexp(1.0 + (double)(h % 1000) / 1000, (int)(h / 1000 % 400) - 200); }
template <> float val<float>(uint64_t h, int mode) { return mode == 0 ? (float)((int)(h % 2001) - 1000) : mode == 1 ? (float)ldexp((double)(int64_t)h, -63) : -(float)(1 + h % 1000); }
template <> int val<int>(uint64_t h, int mode) { return mode == 0 ? (int)(h % 2001) - 1000 : mode == 1 ? (int)(h % 100000000) - 50000000 : -(int)(h % 1000) - 1; }
template <> long val<long>(uint64_t h, int mode) { return mode == 0 ? (long)(h % 2001) - 1000 : mode == 1 ? (long)(h >> 8) - (1L << 54) : -(long)(h % 1000000007) - 1; }
template <> gridpack::ComplexType val<gridpack::ComplexType>(uint64_t h, int m) { return gridpack::ComplexType(val<double>(h, m > 1 ? 1 : m), val<double>(hs(h), m > 1 ? 1 : m)); }
static double mag(double x) { return fabs(x); }
static double mag(gridpack::ComplexType x) { return std::abs(x); }
template <class T> struct Eps { static double e() { return 1e-12; } };
template <> struct Eps<float> { static double e() { return 1e-5; } };
template <class T> static void test_sum(Source &s, Ctx &c, const Comm &g, const VI &mem) {
  int n = s.pick({1, 2, 7, 100}); if (s.chance(1, 25)) n = 5000;
  int mode = s.range(0, 1); uint64_t sd = s.draw(1 << 30);
  std::vector<T> x(n); for (int i = 0; i < n; i++) x[i] = val<T>(hs(sd + c.rank * 10000 + i), mode);
  g.sum(&x[0], n);
  for (int i = 0; i < n; i++) {
    T w = T(0); double sc = 1e-300; for (size_t k = 0; k < mem.size(); k++) { T v = val<T>(hs(sd + mem[k] * 10000 + i), mode); w = w + v; sc += mag((T)v); }
    bool exact = (T)0.5 == (T)0;
    if (exact ? x[i] != w : !(mag((T)(x[i] - w)) <= Eps<T>::e() * sc)) { c.fail(std::string("sum ") + typeid(T).name(), "element %d of %d over %d members: wrong sum", i, n, (int)mem.size()); return; }
  }
  c.sub++; c.label(std::string("sum ") + typeid(T).name());
}
template <class T> static void test_mm(Source &s, Ctx &c, const Comm &g, const VI &mem) {
  int n = s.pick({1, 2, 7, 100}); if (s.chance(1, 25)) n = 5000;
  int mode = s.range(0, 2); uint64_t sd = s.draw(1 << 30); bool mx = s.flag();
  std::vector<T> x(n); for (int i = 0; i < n; i++) x[i] = val<T>(hs(sd + c.rank * 10000 + i), mode);
  if (mx) g.max(&x[0], n); else g.min(&x[0], n);
  for (int i = 0; i < n; i++) {
    T w = val<T>(hs(sd + mem[0] * 10000 + i), mode); for (size_t k = 1; k < mem.size(); k++) { T v = val<T>(hs(sd + mem[k] * 10000 + i), mode); w = mx ? std::max(w, v) : std::min(w, v); }
    if (x[i] != w) { c.fail(std::string(mx ? "max " : "min ") + typeid(T).name(), "element %d of %d over %d members: wrong extreme value", i, n, (int)mem.size()); return; }
  }
  c.sub++; c.label(std::string(mx ? "max " : "min ") + typeid(T).name());
}
static void group_ops(Source &s, Ctx &c, const Comm &g, const VI &mem) {
  int k = s.range(1, 4);
  for (int q = 0; q < k; q++) switch (s.range(0, 9)) {
    case 0: test_sum<double>(s, c, g, mem); break;
    case 1: test_sum<float>(s, c, g, mem); break;
    case 2: test_sum<int>(s, c, g, mem); break;
    case 3: test_sum<long>(s, c, g, mem); break;
    case 4: test_sum<gridpack::ComplexType>(s, c, g, mem); break;
    case 5: test_mm<double>(s, c, g, mem); break;
    case 6: test_mm<float>(s, c, g, mem); break;
    case 7: test_mm<int>(s, c, g, mem); break;
    case 8: test_mm<long>(s, c, g, mem); break;
    default: {
      uint64_t sd = s.draw(1 << 30); int den = s.range(1, 4);
      bool mine = hs(sd + c.rank) % den == 0, a = false, b = true;
      for (size_t i = 0; i < mem.size(); i++) { bool v = hs(sd + mem[i]) % den == 0; a = a || v; b = b && v; }
      if (g.any(mine) != a) c.fail("any", "any() over %d members is wrong", (int)mem.size());
      if (g.all(mine) != b) c.fail("all", "all() over %d members is wrong", (int)mem.size());
      c.label("any/all"); c.sub++;
      if (s.flag()) g.sync(); else g.barrier();
    }
  }
}
static void check_members(Ctx &c, const Comm &g, const VI &mem, const char *what) {
  int me = (int)(std::find(mem.begin(), mem.end(), c.rank) - mem.begin());
  if (g.size() != (int)mem.size()) { c.fail("group-size", "%s: group has %d members, expected %d", what, g.size(), (int)mem.size()); return; }
  if (g.rank() != me) c.fail("group-rank", "%s: rank %d in the group, expected %d", what, g.rank(), me);
  if (g.worldRank() != c.rank) c.fail("world-rank", "%s: world rank %d", what, g.worldRank());
  VI all; boost::mpi::all_gather(g.getCommunicator(), c.rank, all);
  if (all != mem) c.fail("group-members", "%s: the group consists of other processes than requested", what);
  if (GA_Pgroup_nnodes(g.getGroup()) != (int)mem.size() || GA_Pgroup_nodeid(g.getGroup()) != me) c.fail("array-group", "%s: array group does not match", what);
}
static void D06(Source &s, Ctx &c) {
  Comm world; VI mem; for (int i = 0; i < c.size; i++) mem.push_back(i);
  Comm g = world; int depth = s.range(0, 3);
  check_members(c, g, mem, "world");
  group_ops(s, c, g, mem);
  std::string path;
  for (int d = 0; d < depth && !c.failed; d++) {
    // the draws are the same on all processes, the arguments may depend on the group
    int how = s.range(0, 3); uint64_t sd = s.draw(1 << 30); VI nm; int P = g.size(), me = g.rank();
    if (how == 0) {
      int n = s.range(1, c.size + 1);
      Comm h = g.divide(n);
      // contiguous ranks, ceil(P/n) groups of at most n members
      int ng = (P + n - 1) / n; VI sz(1, h.size()), rk; VI all;
      VI firsts; int first = mem[me] ; { int f = c.rank; MPI_Bcast(&f, 1, MPI_INT, 0, (MPI_Comm)h); first = f; }
      boost::mpi::all_gather(g.getCommunicator(), first, firsts);
      std::set<int> distinct(firsts.begin(), firsts.end());
      if ((int)distinct.size() != ng) c.fail("divide", "dividing %d processes into groups of %d gave %d groups", P, n, (int)distinct.size());
      for (int i = 0; i < P; i++) if (firsts[i] == first) nm.push_back(mem[i]);
      if ((int)nm.size() > n) c.fail("divide", "a group of %d members was made, %d requested", (int)nm.size(), n);
      for (int i = 1; i < P; i++) if (firsts[i] != firsts[i - 1] && firsts[i] != mem[i]) c.fail("divide", "groups are not runs of consecutive processes");
      g = h; path += strf("divide(%d) ", n);
    } else if (how == 1) {
      int nc = s.range(1, 4); VI col(P); for (int i = 0; i < P; i++) col[i] = (int)(hs(sd + mem[i]) % nc);
      Comm h = g.split(col[me]);
      for (int i = 0; i < P; i++) if (col[i] == col[me]) nm.push_back(mem[i]);
      g = h; path += strf("split(%d) ", nc);
    } else if (how == 2) {
      Comm h = g.self(); nm.push_back(c.rank); g = h; path += "self ";
    } else {
      Comm a(g); Comm b; b = a; g = b; nm = mem; path += "copy ";
      if (s.flag()) { Comm e((MPI_Comm)g); check_members(c, e, nm, "from MPI communicator"); group_ops(s, c, e, nm); path += "dup "; }
    }
    mem = nm;
    check_members(c, g, mem, path.c_str());
    if (!c.failed) group_ops(s, c, g, mem);
    // the larger groups stay usable
    if (s.chance(1, 3)) { VI w; for (int i = 0; i < c.size; i++) w.push_back(i); MPI_Barrier(c.comm); group_ops(s, c, world, w); }
  }
  int big = mem.size() > 1 && (int)mem.size() < c.size, any; MPI_Allreduce(&big, &any, 1, MPI_INT, MPI_MAX, c.comm);
  c.nontrivial = any || (depth > 0) || c.sub > 1;
  if (any) c.label("proper subgroup with several members");
  c.sample = path + strf("ops=%d", (int)c.sub);
}

// ---------------------------------------------------------------- R01
static void R01(Source &s, Ctx &c) {
  int seed = s.pick({0, 1, 7, 42, 1000, 123456789}) + s.range(0, 1000); if (s.chance(1, 4)) seed = -seed;
  gridpack::random::Random a(seed), b;
  int mode = s.range(0, 11);
  if (mode == 0) {   // moments and shape
    int n = 400000; double m = 0, v = 0, g1 = 0, g2 = 0, g4 = 0, in1 = 0, lag = 0, last = 0; int bk[16] = {0};
    bool mixed = s.flag();
    for (int i = 0; i < n; i++) {
      double u = a.drand(); if (!(u >= 0 && u < 1)) { c.fail("range", "uniform deviate %.17g", u); return; }
      m += u; v += (u - 0.5) * (u - 0.5); bk[(int)(u * 16)]++;
      double x = a.grand(); if (mixed && i % 3 == 0) a.drand();
      g1 += x; g2 += x * x; g4 += x * x * x * x; in1 += fabs(x) < 1; lag += x * last; last = x;
    }
    m /= n; v /= n; g1 /= n; g2 /= n; g4 /= n; in1 /= n; lag /= n;
    double q = 6 / sqrt((double)n);
    if (fabs(m - 0.5) > q * sqrt(1.0 / 12)) c.fail("uniform-mean", "mean of uniform deviates %g", m);
    if (fabs(v - 1.0 / 12) > q * sqrt(1.0 / 180)) c.fail("uniform-variance", "variance of uniform deviates %g", v);
    for (int i = 0; i < 16; i++) if (fabs(bk[i] - n / 16.0) > 6.5 * sqrt(n / 16.0 * 15 / 16)) c.fail("uniform-shape", "bin %d of 16 has %d of %d deviates", i, bk[i], n);
    if (fabs(g1) > q) c.fail("normal-mean", "mean of normal deviates %g", g1);
    if (fabs(g2 - 1) > q * sqrt(2.0)) c.fail("normal-variance", "variance of normal deviates %g", g2);
    if (fabs(g4 - 3) > q * sqrt(96.0)) c.fail("normal-kurtosis", "fourth moment of normal deviates %g", g4);
    if (fabs(in1 - 0.6826895) > q * 0.4654) c.fail("normal-shape", "fraction within one deviation %g", in1);
    if (fabs(lag) > q) c.fail("normal-correlation", "successive normal deviates correlate: %g", lag);
    c.nontrivial = true; c.label("moments"); c.sample = strf("seed %d moments", seed); return;
  }
  // a history of draws on one generator; any later reseed with the same value must
  // reproduce the reference stream
  int N = s.range(1, 60); std::vector<double> ref; VI kind;
  for (int i = 0; i < N; i++) kind.push_back(s.range(0, 1));
  { gridpack::random::Random f(seed); for (int i = 0; i < N; i++) ref.push_back(kind[i] ? f.grand() : f.drand()); }
  int rounds = s.range(1, 4); std::string h;
  gridpack::random::Random *g = s.flag() ? &a : &b;
  for (int r = 0; r < rounds; r++) {
    int before = s.range(0, 9), grands = 0; for (int i = 0; i < before; i++) { bool gr = s.flag(); if (gr) { g->grand(); grands++; } else { double u = g->drand(); if (!(u >= 0 && u < 1)) c.fail("range", "uniform deviate %.17g", u); } }
    if (s.chance(1, 3)) g->seed(seed + 1 + s.range(0, 5));
    g->seed(seed);
    for (int i = 0; i < N; i++) { double x = kind[i] ? g->grand() : g->drand();
      if (x != ref[i]) { c.fail("reseed", "after %d draws (%d normal) and reseeding with %d, draw %d is %.17g instead of %.17g", before, grands, seed, i, x, ref[i]); return; } }
    if (grands % 2) c.label("odd number of normal deviates before reseeding");
    h += strf("%d/%d ", before, grands); c.sub++;
  }
  bool varied = false; for (int i = 1; i < N; i++) varied |= ref[i] != ref[0];
  if (N > 3 && !varied) c.fail("constant", "the stream is constant");
  c.nontrivial = N > 1; c.sample = strf("seed %d N %d before %s", seed, N, h.c_str());
}

int main(int argc, char **argv) {
  Registry r;
  r["D01"] = D01; r["D02"] = D02; r["D03"] = D03; r["D05"] = D05; r["D06"] = D06; r["R01"] = R01;
  return pbt_main(argc, argv, r);
}
