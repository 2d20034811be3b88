// N01, N02, N03: distributed bus/branch networks.
#include "net.hpp"
#include "main.hpp"
#include <boost/mpi.hpp>
#include "gridpack/network/base_network.hpp"
#include "gridpack/component/base_component.hpp"
using pbt::Source; using pbt::Ctx; using pbt::str;

template <int K> class TBus : public gridpack::component::BaseBusComponent {
public:
  int tag; std::vector<double> pay;
  TBus() : tag(-1) {}
private:
  friend class boost::serialization::access;
  template <class A> void serialize(A &ar, const unsigned int) {
    ar & boost::serialization::base_object<gridpack::component::BaseBusComponent>(*this) & tag & pay; }
};
template <int K> class TBranch : public gridpack::component::BaseBranchComponent {
public:
  int tag; std::string pay;
  TBranch() : tag(-1) {}
private:
  friend class boost::serialization::access;
  template <class A> void serialize(A &ar, const unsigned int) {
    ar & boost::serialization::base_object<gridpack::component::BaseBranchComponent>(*this) & tag & pay; }
};
typedef TBus<0> Bus0; typedef TBranch<0> Br0; typedef TBus<1> Bus1; typedef TBranch<1> Br1;
BOOST_CLASS_EXPORT(Bus0)
BOOST_CLASS_EXPORT(Br0)
BOOST_CLASS_EXPORT(Bus1)
BOOST_CLASS_EXPORT(Br1)
typedef gridpack::network::BaseNetwork<Bus0, Br0> Net0;
typedef gridpack::network::BaseNetwork<Bus1, Br1> Net1;
typedef gridpack::parallel::Communicator Comm;

static std::string btag(int oid) { return str("B%d ", oid) + std::string(oid % 7, 'x'); }
static double bval(int oid) { return oid * 1.25 - 3; }

template <class N> void tag_bus(N &net, int k, int oid, int salt) {
  net.getBus(k)->tag = oid; net.getBus(k)->pay.assign(oid % 4, oid * 0.5);
  char nm[32]; strcpy(nm, "BUS_X"); net.getBusData(k)->addValue(nm, bval(oid) + salt);
  net.getBusData(k)->addValue("BUS_N", oid * 3 + salt);
  net.getBusData(k)->addValue("BUS_S", btag(oid).c_str());
  for (int j = 0; j < oid % 3; j++) net.getBusData(k)->addValue("BUS_A", oid + j, j);
}
template <class N> void tag_branch(N &net, int k, int a, int b, int salt) {
  net.getBranch(k)->tag = (a * 31 + b) & 0x7fffffff; net.getBranch(k)->pay = str("%d>%d", a, b);
  net.getBranchData(k)->addValue("BR_X", a - 0.5 * b + salt);
  net.getBranchData(k)->addValue("BR_F", (a + b) % 2 == 0);
  for (int j = 0; j < 1 + (a + b) % 3; j++) net.getBranchData(k)->addValue("BR_A", str("%d.%d", a, j).c_str(), j);
}

// Everything a process can see is compared with what the model says it should see.
// owner/bown known: m.bown and m.brown.  ghosts: ghosts present.  comps: component attributes/neighbours wired.
template <class N>
void check_local(N &net, const NetModel &m, const Comm &comm, Ctx &c, const char *when, bool ghosts, bool tags, int comps,
                 const std::vector<int> *gb, const std::vector<int> *gr, int salt = 0, bool lookups = true) {
  int me = comm.rank();
  std::map<int,int> byoid; std::map<std::pair<int,int>,int> bybr;
  for (int i = 0; i < m.nb; i++) byoid[m.oid[i]] = i;
  for (size_t k = 0; k < m.br.size(); k++) bybr[std::make_pair(m.oid[m.br[k].first], m.oid[m.br[k].second])] = (int)k;
  std::set<int> B, R; m.local(me, B, R);
  if (!ghosts) {
    B.clear(); R.clear();
    for (int i = 0; i < m.nb; i++) if (m.bown[i] == me) B.insert(i);
    for (size_t k = 0; k < m.br.size(); k++) if (m.brown[k] == me) R.insert((int)k);
  }
  int nb = net.numBuses(), nr = net.numBranches();
  std::map<int,int> seenb, seenr;     // model index -> local index
  for (int k = 0; k < nb; k++) {
    int o = net.getOriginalBusIndex(k);
    if (!byoid.count(o)) { c.fail("bus-invented", "%s: bus %d was never added", when, o); continue; }
    int i = byoid[o];
    if (seenb.count(i)) c.fail("bus-duplicated", "%s: bus %d appears twice on one process (local %d and %d)", when, o, seenb[i], k);
    seenb[i] = k;
    if (!B.count(i)) c.fail("bus-extra", "%s: process holds bus %d which touches nothing it owns", when, o);
    if (net.getActiveBus(k) != (m.bown[i] == me)) c.fail("bus-active", "%s: bus %d active=%d but its owner is %d", when, o, (int)net.getActiveBus(k), m.bown[i]);
    if (gb && net.getGlobalBusIndex(k) != (*gb)[i]) c.fail("bus-global", "%s: bus %d global index %d, expected %d", when, o, net.getGlobalBusIndex(k), (*gb)[i]);
    if (tags) {
      double x = -1; int n = -1, a; std::string s;
      if (!net.getBusData(k)->getValue("BUS_X", &x) || x != bval(o) + salt || !net.getBusData(k)->getValue("BUS_N", &n) || n != o * 3 + salt ||
          !net.getBusData(k)->getValue("BUS_S", &s) || s != btag(o)) c.fail("bus-data", "%s: attached data of bus %d changed (%g %d %s)", when, o, x, n, s.c_str());
      for (int j = 0; j < 4; j++) {
        bool have = net.getBusData(k)->getValue("BUS_A", &a, j);
        if (have != (j < o % 3) || (have && a != o + j)) c.fail("bus-data", "%s: indexed data of bus %d changed", when, o);
      }
    }
    if (comps >= 1 && (net.getBus(k)->tag != o || net.getBus(k)->pay != std::vector<double>(o % 4, o * 0.5))) c.fail("bus-component", "%s: component attributes of bus %d changed", when, o);
  }
  for (std::set<int>::iterator i = B.begin(); i != B.end(); ++i)
    if (!seenb.count(*i)) c.fail("bus-missing", "%s: bus %d (owner %d) is not on process %d", when, m.oid[*i], m.bown[*i], me);
  std::vector<std::multiset<int> > wantbr(nb), wantnb(nb);
  for (int k = 0; k < nr; k++) {
    int a, b; net.getOriginalBranchEndpoints(k, &a, &b);
    std::pair<int,int> key(a, b);
    if (!bybr.count(key)) { c.fail("branch-invented", "%s: branch %d-%d was never added", when, a, b); continue; }
    int i = bybr[key];
    if (seenr.count(i)) c.fail("branch-duplicated", "%s: branch %d-%d appears twice on one process", when, a, b);
    seenr[i] = k;
    if (!R.count(i)) c.fail("branch-extra", "%s: process holds branch %d-%d which touches nothing it owns", when, a, b);
    if (net.getActiveBranch(k) != (m.brown[i] == me)) c.fail("branch-active", "%s: branch %d-%d active=%d but its owner is %d", when, a, b, (int)net.getActiveBranch(k), m.brown[i]);
    if (gr && net.getGlobalBranchIndex(k) != (*gr)[i]) c.fail("branch-global", "%s: branch %d-%d global index %d, expected %d", when, a, b, net.getGlobalBranchIndex(k), (*gr)[i]);
    int l1 = -9, l2 = -9; net.getBranchEndpoints(k, &l1, &l2);
    int e1 = seenb.count(m.br[i].first) ? seenb[m.br[i].first] : -1, e2 = seenb.count(m.br[i].second) ? seenb[m.br[i].second] : -1;
    if (l1 != e1 || l2 != e2) c.fail("branch-ends", "%s: branch %d-%d has local ends %d,%d, expected %d,%d", when, a, b, l1, l2, e1, e2);
    if (e1 >= 0) { wantbr[e1].insert(k); wantnb[e1].insert(e2); }
    if (e2 >= 0) { wantbr[e2].insert(k); wantnb[e2].insert(e1); }
    if (tags) {
      double x = -1; bool f; std::string s;
      if (!net.getBranchData(k)->getValue("BR_X", &x) || x != a - 0.5 * b + salt || !net.getBranchData(k)->getValue("BR_F", &f) || f != ((a + b) % 2 == 0))
        c.fail("branch-data", "%s: attached data of branch %d-%d changed", when, a, b);
      for (int j = 0; j < 5; j++) {
        bool have = net.getBranchData(k)->getValue("BR_A", &s, j);
        if (have != (j < 1 + (a + b) % 3) || (have && s != str("%d.%d", a, j))) c.fail("branch-data", "%s: indexed data of branch %d-%d changed", when, a, b);
      }
    }
    if (comps >= 1) {
      if (net.getBranch(k)->tag != ((a * 31 + b) & 0x7fffffff) || net.getBranch(k)->pay != str("%d>%d", a, b)) c.fail("branch-component", "%s: component attributes of branch %d-%d changed", when, a, b);
    }
    if (comps >= 2) {
      typedef typename N::BranchPtr BP;
      Bus0 *p1 = dynamic_cast<Bus0 *>(net.getBranch(k)->getBus1().get()), *p2 = dynamic_cast<Bus0 *>(net.getBranch(k)->getBus2().get());
      if (e1 >= 0 && (!p1 || (void *)p1 != (void *)net.getBus(e1).get())) c.fail("branch-bus1", "%s: component of branch %d-%d is not attached to its first bus", when, a, b);
      if (e2 >= 0 && (!p2 || (void *)p2 != (void *)net.getBus(e2).get())) c.fail("branch-bus2", "%s: component of branch %d-%d is not attached to its second bus", when, a, b);
    }
  }
  for (std::set<int>::iterator i = R.begin(); i != R.end(); ++i)
    if (!seenr.count(*i)) c.fail("branch-missing", "%s: branch %d-%d (owner %d) is not on process %d", when, m.oid[m.br[*i].first], m.oid[m.br[*i].second], m.brown[*i], me);
  for (int k = 0; k < nb; k++) {
    std::vector<int> v = net.getConnectedBranches(k);
    if (std::multiset<int>(v.begin(), v.end()) != wantbr[k]) c.fail("bus-branches", "%s: branch list of bus %d has %d entries, expected %d", when, net.getOriginalBusIndex(k), (int)v.size(), (int)wantbr[k].size());
    else {
      v = net.getConnectedBuses(k);
      if (std::multiset<int>(v.begin(), v.end()) != wantnb[k]) c.fail("bus-neighbours", "%s: neighbour list of bus %d is wrong", when, net.getOriginalBusIndex(k));
    }
    if (comps >= 2) {
      std::vector<boost::shared_ptr<gridpack::component::BaseComponent> > w;
      net.getBus(k)->getNeighborBranches(w);
      std::multiset<void *> got, exp;
      for (size_t j = 0; j < w.size(); j++) got.insert(dynamic_cast<void *>(w[j].get()));
      for (std::multiset<int>::iterator j = wantbr[k].begin(); j != wantbr[k].end(); ++j) exp.insert(dynamic_cast<void *>(net.getBranch(*j).get()));
      if (got != exp) c.fail("component-branches", "%s: component of bus %d sees %d branches, expected %d", when, net.getOriginalBusIndex(k), (int)got.size(), (int)exp.size());
      w.clear(); got.clear(); exp.clear();
      net.getBus(k)->getNeighborBuses(w);
      for (size_t j = 0; j < w.size(); j++) got.insert(dynamic_cast<void *>(w[j].get()));
      for (std::multiset<int>::iterator j = wantnb[k].begin(); j != wantnb[k].end(); ++j) exp.insert(*j >= 0 ? dynamic_cast<void *>(net.getBus(*j).get()) : 0);
      if (got != exp) c.fail("component-buses", "%s: component of bus %d sees %d buses, expected %d", when, net.getOriginalBusIndex(k), (int)got.size(), (int)exp.size());
    }
  }
  if (lookups) {
    for (int i = 0; i < m.nb; i++) {
      std::vector<int> v = net.getLocalBusIndices(m.oid[i]);
      if (v.size() != (seenb.count(i) ? 1u : 0u) || (v.size() == 1 && v[0] != seenb[i])) c.fail("lookup-bus", "%s: lookup of bus %d gives %d results", when, m.oid[i], (int)v.size());
    }
    for (size_t k = 0; k < m.br.size(); k++) {
      std::vector<int> v = net.getLocalBranchIndices(m.oid[m.br[k].first], m.oid[m.br[k].second]);
      if (v.size() != (seenr.count(k) ? 1u : 0u) || (v.size() == 1 && v[0] != seenr[k])) c.fail("lookup-branch", "%s: lookup of branch %d-%d gives %d results", when, m.oid[m.br[k].first], m.oid[m.br[k].second], (int)v.size());
    }
  }
  if (net.totalBuses() != m.nb) c.fail("total-buses", "%s: totalBuses %d, expected %d", when, net.totalBuses(), m.nb);
  if (net.totalBranches() != (int)m.br.size()) c.fail("total-branches", "%s: totalBranches %d, expected %d", when, net.totalBranches(), (int)m.br.size());
}

// learn who owns what from the network itself and check that it is a partition
template <class N> bool learn_owners(N &net, NetModel &m, const Comm &comm, Ctx &c, const char *when) {
  int P = comm.size(), me = comm.rank();
  std::map<int,int> byoid; std::map<std::pair<int,int>,int> bybr;
  for (int i = 0; i < m.nb; i++) byoid[m.oid[i]] = i;
  for (size_t k = 0; k < m.br.size(); k++) bybr[std::make_pair(m.oid[m.br[k].first], m.oid[m.br[k].second])] = (int)k;
  int n = m.nb + (int)m.br.size();
  std::vector<int> mine(2 * n + 1, 0), all(2 * n + 1, 0);
  for (int k = 0; k < net.numBuses(); k++) if (net.getActiveBus(k)) {
    int o = net.getOriginalBusIndex(k);
    if (byoid.count(o)) { mine[byoid[o]]++; mine[n + byoid[o]] += me; } else mine[2 * n]++; }
  for (int k = 0; k < net.numBranches(); k++) if (net.getActiveBranch(k)) {
    int a, b; net.getOriginalBranchEndpoints(k, &a, &b); std::pair<int,int> key(a, b);
    if (bybr.count(key)) { mine[m.nb + bybr[key]]++; mine[n + m.nb + bybr[key]] += me; } else mine[2 * n]++; }
  MPI_Allreduce(&mine[0], &all[0], 2 * n + 1, MPI_INT, MPI_SUM, (MPI_Comm)comm);
  m.bown.assign(m.nb, 0); m.brown.assign(m.br.size(), 0);
  bool ok = all[2 * n] == 0;
  if (!ok) c.fail("invented", "%s: processes own buses or branches that were never added", when);
  for (int i = 0; i < m.nb; i++) {
    m.bown[i] = all[n + i] % (P > 0 ? P : 1);
    if (all[i] == 1) m.bown[i] = all[n + i];
    else { ok = false; c.fail("bus-owners", "%s: bus %d has %d owners", when, m.oid[i], all[i]); }
  }
  for (size_t k = 0; k < m.br.size(); k++) {
    if (all[m.nb + k] == 1) m.brown[k] = all[n + m.nb + k];
    else { ok = false; c.fail("branch-owners", "%s: branch %d-%d has %d owners", when, m.oid[m.br[k].first], m.oid[m.br[k].second], all[m.nb + k]); }
  }
  if (ok) for (size_t k = 0; k < m.br.size(); k++)
    if (m.brown[k] != m.bown[m.br[k].first] && m.brown[k] != m.bown[m.br[k].second])
      c.fail("branch-owner-end", "%s: branch %d-%d is owned by a process owning neither end", when, m.oid[m.br[k].first], m.oid[m.br[k].second]);
  return ok;
}

static Comm pick_comm(Source &s, Ctx &c) {
  Comm world;
  if (c.size >= 2 && s.chance(1, 5)) { c.label("sub-communicator"); return c.size == 2 ? world.divide(1) : world.divide(c.size / 2); }
  return world;
}

// initial placement of buses and branches (before partition): returns rank per item
static void gen_placement(Source &s, const NetModel &m, int P, std::vector<int> &pb, std::vector<int> &pr) {
  pb.assign(m.nb, 0); pr.assign(m.br.size(), 0);
  int mode = s.range(0, 3);
  for (int i = 0; i < m.nb; i++) pb[i] = mode == 0 ? 0 : mode == 1 ? i * P / m.nb : mode == 2 ? (s.range(0, P - 1)) : (s.chance(1, 3) ? s.range(0, P - 1) : P - 1);
  for (size_t k = 0; k < m.br.size(); k++) pr[k] = mode == 0 ? 0 : mode == 1 ? (int)(k * P / m.br.size()) : mode == 2 ? s.range(0, P - 1) : P - 1;
}
// contiguous global numbering by process, as parsers do
static void number(const std::vector<int> &pb, int P, std::vector<int> &g) {
  g.assign(pb.size(), 0); int c = 0;
  for (int p = 0; p < P; p++) for (size_t i = 0; i < pb.size(); i++) if (pb[i] == p) g[i] = c++;
}
template <class N> void load(N &net, const NetModel &m, int me, const std::vector<int> &pb, const std::vector<int> &pr, const std::vector<int> &gb, const std::vector<int> &gr) {
  for (int i = 0; i < m.nb; i++) if (pb[i] == me) {
    net.addBus(m.oid[i]); int k = net.numBuses() - 1; net.setGlobalBusIndex(k, gb[i]); tag_bus(net, k, m.oid[i], 0); }
  for (size_t r = 0; r < m.br.size(); r++) if (pr[r] == me) {
    int a = m.br[r].first, b = m.br[r].second;
    net.addBranch(m.oid[a], m.oid[b]); int k = net.numBranches() - 1; net.setGlobalBranchIndex(k, gr[r]); tag_branch(net, k, m.oid[a], m.oid[b], 0); }
}

static void N01(Source &s, Ctx &c) {
  Comm comm = pick_comm(s, c);
  int P = comm.size();
  NetModel m = gen_graph(s, P, std::max(2, P), 24);
  std::vector<int> pb, pr, gb, gr;
  gen_placement(s, m, P, pb, pr);
  number(pb, P, gb); number(pr, P, gr);
  Net0 net(comm);
  load(net, m, comm.rank(), pb, pr, gb, gr);
  int nd = s.range(0, P - 1), ndv = s.range(0, 1000);
  if (comm.rank() == nd) net.getNetworkData()->addValue("CASE_V", ndv);
  net.partition();
  if (learn_owners(net, m, comm, c, "partition")) {
    check_local(net, m, comm, c, "partition", true, true, 2, &gb, &gr);
    std::set<int> own(m.bown.begin(), m.bown.end());
    int cut = 0; for (size_t k = 0; k < m.br.size(); k++) cut += m.bown[m.br[k].first] != m.bown[m.br[k].second];
    c.nontrivial = P == 1 ? m.br.size() > 1 : (own.size() > 1 && cut > 0);
    if (cut > 0) c.label("cut-branches"); if (own.size() > 1) c.label("several-owners");
    c.label(str("procs=%d", P));
    c.sample = m.show();
    for (int i = 0; i < m.nb; i++) {
      std::map<int,int> per; for (size_t k = 0; k < m.br.size(); k++) {
        int o = m.br[k].first == i ? m.br[k].second : m.br[k].second == i ? m.br[k].first : -1;
        if (o >= 0 && m.bown[o] != m.bown[i]) per[m.bown[o]]++; }
      for (std::map<int,int>::iterator it = per.begin(); it != per.end(); ++it) if (it->second > 1) c.label("several-branches-into-one-remote-process");
    }
  }
  net.broadcastNetworkData(nd);
  int v = -1;
  if (!net.getNetworkData()->getValue("CASE_V", &v) || v != ndv) c.fail("network-data", "network data not received after broadcast");
}

static unsigned char body(int kind, int id, int step, int j) { return (unsigned char)(hsh(kind * 1000003 + id, step, j / 8) >> (8 * (j % 8))); }

static void N02(Source &s, Ctx &c) {
  Comm comm = pick_comm(s, c);
  int P = comm.size(), me = comm.rank();
  NetModel m = gen_graph(s, P, std::max(2, P), 20);
  std::vector<int> gb, gr, lb, lr;
  Net0 net(comm);
  bool placed = s.chance(2, 3);
  if (placed) {
    gen_owners(s, m, s.chance(1, 4)); contiguous(m, gb, gr);
    place(net, m, me, gb, gr, lb, lr, s.flag());
  } else {
    std::vector<int> pb, pr; gen_placement(s, m, P, pb, pr); number(pb, P, gb); number(pr, P, gr);
    load(net, m, me, pb, pr, gb, gr);
    net.partition();
    if (!learn_owners(net, m, comm, c, "partition")) return;
    c.label("partitioned");
    lb.assign(m.nb, -1); lr.assign(m.br.size(), -1);
    for (int i = 0; i < m.nb; i++) { std::vector<int> v = net.getLocalBusIndices(m.oid[i]); if (!v.empty()) lb[i] = v[0]; }
    for (size_t k = 0; k < m.br.size(); k++) { std::vector<int> v = net.getLocalBranchIndices(m.oid[m.br[k].first], m.oid[m.br[k].second]); if (!v.empty()) lr[k] = v[0]; }
  }
  int ghosts = 0;
  for (int p = 0; p < P; p++) { std::set<int> B, R; m.local(p, B, R); for (std::set<int>::iterator i = B.begin(); i != B.end(); ++i) ghosts += m.bown[*i] != p; }
  std::vector<std::vector<char> > ext[2];
  int size[2] = {0, 0}; bool ready[2] = {false, false};
  // last value each copy must hold: step per item, owners; ghosts stay at the last update
  int stepno = 0, updates = 0; std::string hist;
  std::vector<int> own[2], seen[2];   // step of content (owner) / content at last update (ghost); -1 unknown
  own[0].assign(m.nb, -1); own[1].assign(m.br.size(), -1);
  int nops = s.range(3, 12);
  for (int op = 0; op < nops; op++) {
    int kind = s.range(0, 1);              // 0 buses, 1 branches
    int n = kind ? (int)m.br.size() : m.nb;
    std::vector<int> &loc = kind ? lr : lb; const std::vector<int> &ow = kind ? m.brown : m.bown;
    int what = !ready[kind] ? 0 : s.range(0, 4);
    if (what == 0) {
      // (re)allocate buffers
      bool pointers = s.flag();
      size[kind] = s.pick({8, 1, 4, 16, 24, 3, 40, 200});
      int sz = size[kind], nl = kind ? net.numBranches() : net.numBuses();
      if (pointers) {
        ext[kind].assign(nl, std::vector<char>(sz, 0));
        if (kind) { net.allocXCBranchPointers(sz); for (int i = 0; i < nl; i++) net.setXCBranchBuffer(i, &ext[1][i][0]); }
        else { net.allocXCBusPointers(sz); for (int i = 0; i < nl; i++) net.setXCBusBuffer(i, &ext[0][i][0]); }
      } else if (kind) net.allocXCBranch(sz); else net.allocXCBus(sz);
      for (int i = 0; i < n; i++) own[kind][i] = -1;
      // fill everything
      ++stepno;
      for (int i = 0; i < n; i++) {
        own[kind][i] = stepno;
        if (loc[i] < 0) continue;
        unsigned char *b = (unsigned char *)(kind ? net.getXCBranchBuffer(loc[i]) : net.getXCBusBuffer(loc[i]));
        for (int j = 0; j < sz; j++) b[j] = ow[i] == me ? body(kind, i, stepno, j) : 0xEE;
      }
      if (kind) net.initBranchUpdate(); else net.initBusUpdate();
      ready[kind] = true;
      hist += str("alloc%s(%d%s);", kind ? "Br" : "Bus", sz, pointers ? ",ext" : "");
      continue;
    }
    int sz = size[kind];
    if (what <= 2) {
      // owners rewrite a random subset; ghosts are scribbled on
      ++stepno;
      int den = s.range(1, 3); bool scribble = s.flag();
      for (int i = 0; i < n; i++) {
        bool w = s.chance(1, den);
        if (w) own[kind][i] = stepno;
        if (loc[i] < 0) continue;
        unsigned char *b = (unsigned char *)(kind ? net.getXCBranchBuffer(loc[i]) : net.getXCBusBuffer(loc[i]));
        if (ow[i] == me) { if (w) for (int j = 0; j < sz; j++) b[j] = body(kind, i, stepno, j); }
        else if (scribble) for (int j = 0; j < sz; j++) b[j] = 0x55;
      }
      hist += str("write%s;", kind ? "Br" : "Bus");
    } else if (what == 4 && s.chance(1, 3)) {
      if (kind) net.initBranchUpdate(); else net.initBusUpdate();
      hist += str("init%s;", kind ? "Br" : "Bus");
    }
    if (kind) net.updateBranches(); else net.updateBuses();
    updates++; c.sub++;
    hist += str("update%s;", kind ? "Br" : "Bus");
    // both kinds are checked: an update must not disturb the other one's owned data
    for (int i = 0; i < n; i++) {
      if (loc[i] < 0) continue;
      unsigned char *b = (unsigned char *)(kind ? net.getXCBranchBuffer(loc[i]) : net.getXCBusBuffer(loc[i]));
      for (int j = 0; j < sz; j++) if (b[j] != body(kind, i, own[kind][i], j)) {
        c.fail(ow[i] == me ? "owned-changed" : "ghost-stale", "after %s: %s %d on process %d (owner %d), byte %d of %d is %02x, owner wrote %02x",
               hist.c_str(), kind ? "branch" : "bus", i, me, ow[i], j, sz, b[j], body(kind, i, own[kind][i], j)); break; }
    }
    if (ready[1 - kind]) {
      int k2 = 1 - kind, n2 = k2 ? (int)m.br.size() : m.nb; std::vector<int> &l2 = k2 ? lr : lb; const std::vector<int> &o2 = k2 ? m.brown : m.bown;
      for (int i = 0; i < n2; i++) if (l2[i] >= 0 && o2[i] == me) {
        unsigned char *b = (unsigned char *)(k2 ? net.getXCBranchBuffer(l2[i]) : net.getXCBusBuffer(l2[i]));
        for (int j = 0; j < size[k2]; j++) if (b[j] != body(k2, i, own[k2][i], j)) { c.fail("other-kind-changed", "after %s: owned %s data changed by the other update", hist.c_str(), k2 ? "branch" : "bus"); break; } }
    }
  }
  c.nontrivial = updates >= 1 && (P == 1 || ghosts > 0);
  if (ghosts > 0) c.label("ghosts"); c.label(str("procs=%d", P));
  c.sample = m.show() + " " + hist;
}

struct Hist : std::string { bool t; int r;
  Hist(const char *s, Ctx &c) : std::string(s), t(getenv("PBT_TRACE") != 0), r(c.rank) {}
  Hist &operator+=(const char *s) { std::string::operator+=(s); if (t) fprintf(stderr, "[%d] %s\n", r, s); return *this; } };
static void N03(Source &s, Ctx &c) {
  Comm comm = pick_comm(s, c);
  int P = comm.size(), me = comm.rank();
  NetModel m = gen_graph(s, P, std::max(2, P), 16);
  std::vector<int> pb, pr, gb, gr;
  gen_placement(s, m, P, pb, pr); number(pb, P, gb); number(pr, P, gr);
  Net0 net(comm);
  load(net, m, me, pb, pr, gb, gr);
  net.partition();
  if (!learn_owners(net, m, comm, c, "first partition")) return;
  check_local(net, m, comm, c, "first partition", true, true, 2, &gb, &gr);
  Hist hist("partition;", c); int n = s.range(2, 6), mutations = 0;
  bool ghosts = true; int salt = 0;
  boost::shared_ptr<Net1> other;
  for (int k = 0; k < n; k++) {
    int op = s.range(0, 5);
    if (op == 0) {
      // ghost removal, then checks, then partition again
      net.clean(); hist += "clean;"; mutations++;
      check_local(net, m, comm, c, hist.c_str(), false, true, 1, &gb, &gr, salt);
      if (s.flag()) { net.clean(); hist += "clean;"; check_local(net, m, comm, c, hist.c_str(), false, true, 1, &gb, &gr, salt); }
      if (s.flag()) {
        net.resetGlobalIndices(true); hist += "reset;";
        // new numbering: consecutive by process in local order
        std::vector<int> nb2(m.nb, 0), nr2(m.br.size(), 0), sb(m.nb, 0), sr(m.br.size(), 0);
        for (int i = 0; i < net.numBuses(); i++) for (int j = 0; j < m.nb; j++) if (m.oid[j] == net.getOriginalBusIndex(i)) nb2[j] = net.getGlobalBusIndex(i);
        for (int i = 0; i < net.numBranches(); i++) { int a, b; net.getOriginalBranchEndpoints(i, &a, &b);
          for (size_t j = 0; j < m.br.size(); j++) if (m.oid[m.br[j].first] == a && m.oid[m.br[j].second] == b) nr2[j] = net.getGlobalBranchIndex(i); }
        MPI_Allreduce(&nb2[0], &sb[0], m.nb, MPI_INT, MPI_SUM, (MPI_Comm)comm);
        MPI_Allreduce(&nr2[0], &sr[0], (int)m.br.size(), MPI_INT, MPI_SUM, (MPI_Comm)comm);
        std::vector<int> t(sb); std::sort(t.begin(), t.end()); for (int i = 0; i < m.nb; i++) if (t[i] != i) c.fail("reset-bus-numbering", "%s: global bus indices are not a permutation", hist.c_str());
        t = sr; std::sort(t.begin(), t.end()); for (size_t i = 0; i < t.size(); i++) if (t[i] != (int)i) c.fail("reset-branch-numbering", "%s: global branch indices are not a permutation", hist.c_str());
        for (int i = 0; i < m.nb; i++) for (int j = 0; j < m.nb; j++) if (m.bown[i] < m.bown[j] && sb[i] > sb[j]) c.fail("reset-order", "%s: global indices are not grouped by process", hist.c_str());
        gb = sb; gr = sr;
        int bad = c.failed, anybad; MPI_Allreduce(&bad, &anybad, 1, MPI_INT, MPI_MAX, (MPI_Comm)comm); if (anybad) return;
      }
      net.partition(); hist += "partition;";
      if (!learn_owners(net, m, comm, c, hist.c_str())) return;
      check_local(net, m, comm, c, hist.c_str(), true, true, 2, &gb, &gr, salt);
    } else if (op == 1) {
      // copy to a network of other component types, which may already hold something
      if (!other || s.flag()) other.reset(new Net1(comm));
      int ref = -1;
      for (int i = 0; i < net.numBuses(); i++) if (net.getOriginalBusIndex(i) == m.oid[0]) ref = i;
      if (ref >= 0) net.setReferenceBus(ref);
      net.getNetworkData()->setValue("K", k); net.getNetworkData()->addValue("K", k);
      net.clone<Bus1, Br1>(other); hist += "clone;"; mutations++;
      check_local(*other, m, comm, c, (hist + " copy").c_str(), true, true, 0, &gb, &gr, salt);
      int v = -1; if (!other->getNetworkData()->getValue("K", &v) || v != k) c.fail("clone-network-data", "%s: network data not copied", hist.c_str());
      if (other->getReferenceBus() != net.getReferenceBus()) c.fail("clone-reference", "%s: reference bus %d, copy has %d", hist.c_str(), net.getReferenceBus(), other->getReferenceBus());
      // edits on either side stay there
      for (int i = 0; i < other->numBuses(); i++) other->getBusData(i)->setValue("BUS_N", -77);
      for (int i = 0; i < other->numBranches(); i++) other->getBranchData(i)->setValue("BR_X", -77.0);
      check_local(net, m, comm, c, (hist + " after editing the copy").c_str(), true, true, 2, &gb, &gr, salt);
    } else if (op == 2) {
      // edit data on the owners and ghosts alike
      int ns = s.range(1, 50);
      for (int i = 0; i < net.numBuses(); i++) { int o = net.getOriginalBusIndex(i); net.getBusData(i)->setValue("BUS_N", o * 3 + ns); net.getBusData(i)->setValue("BUS_X", bval(o) + ns); }
      for (int i = 0; i < net.numBranches(); i++) { int a, b; net.getOriginalBranchEndpoints(i, &a, &b); net.getBranchData(i)->setValue("BR_X", a - 0.5 * b + ns); }
      salt = ns; hist += "edit;";
      check_local(net, m, comm, c, hist.c_str(), true, true, 2, &gb, &gr, salt);
    } else if (op == 3) {
      // start over
      net.clear(); hist += "clear;"; mutations++;
      if (net.numBuses() != 0 || net.numBranches() != 0 || net.totalBuses() != 0 || net.totalBranches() != 0) c.fail("clear", "%s: network not empty", hist.c_str());
      for (int i = 0; i < m.nb; i++) if (!net.getLocalBusIndices(m.oid[i]).empty()) c.fail("clear-lookup", "%s: lookup of bus %d still finds it in the empty network", hist.c_str(), m.oid[i]);
      gen_placement(s, m, P, pb, pr); number(pb, P, gb); number(pr, P, gr); salt = 0;
      load(net, m, me, pb, pr, gb, gr);
      net.partition(); hist += "load;partition;";
      if (!learn_owners(net, m, comm, c, hist.c_str())) return;
      check_local(net, m, comm, c, hist.c_str(), true, true, 2, &gb, &gr, salt);
    } else if (op == 4) {
      net.allocXCBus(8); net.allocXCBranch(8);
      for (int i = 0; i < net.numBuses(); i++) { int v[2] = {net.getActiveBus(i) ? net.getOriginalBusIndex(i) : -1, 7}; memcpy(net.getXCBusBuffer(i), v, 8); }
      for (int i = 0; i < net.numBranches(); i++) { int a, b; net.getOriginalBranchEndpoints(i, &a, &b); int v[2] = {a, b}; if (!net.getActiveBranch(i)) v[0] = v[1] = -1; memcpy(net.getXCBranchBuffer(i), v, 8); }
      net.initBusUpdate(); net.initBranchUpdate();
      net.updateBuses(); net.updateBranches();
      for (int i = 0; i < net.numBuses(); i++) { int v[2]; memcpy(v, net.getXCBusBuffer(i), 8); if (v[0] != net.getOriginalBusIndex(i)) c.fail("update-after-edit", "%s: update gave bus %d the value of bus %d", hist.c_str(), net.getOriginalBusIndex(i), v[0]); }
      for (int i = 0; i < net.numBranches(); i++) { int a, b, v[2]; net.getOriginalBranchEndpoints(i, &a, &b); memcpy(v, net.getXCBranchBuffer(i), 8); if (v[0] != a || v[1] != b) c.fail("update-after-edit", "%s: update gave branch %d-%d the value of %d-%d", hist.c_str(), a, b, v[0], v[1]); }
      if (s.flag()) { net.freeXCBus(); net.freeXCBranch(); hist += "update,free;"; } else hist += "update;";
    } else {
      // ghosts get indices from their owners
      net.resetGlobalIndices(false); hist += "reset(false);";
      check_local(net, m, comm, c, hist.c_str(), true, true, 2, &gb, &gr, salt);
    }
    c.sub++;
  }
  c.nontrivial = mutations > 0;
  c.label(str("procs=%d", P));
  std::istringstream is(hist); std::string w; while (std::getline(is, w, ';')) if (!w.empty()) c.label(w);
  c.sample = m.show() + " " + hist;
}

int main(int argc, char **argv) {
  pbt::Registry r;
  r["N01"] = N01; r["N02"] = N02; r["N03"] = N03;
  return pbt_main(argc, argv, r);
}
