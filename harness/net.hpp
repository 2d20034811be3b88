// Random bus/branch graphs, placements and expected local views.
#ifndef PBT_NET_HPP
#define PBT_NET_HPP
#include "pbt.hpp"
#include <algorithm>

struct NetModel {
  int nb;                                   // buses 0..nb-1 (this is also the global index)
  std::vector<int> oid;                     // original bus number
  std::vector<std::pair<int,int> > br;      // branches as ordered pairs of buses; position is the global index
  std::vector<int> bown, brown;             // owners (placed networks)
  int nproc;
  std::string show() const {
    std::string s = pbt::str("%d procs, buses[", nproc);
    for (int i = 0; i < nb; i++) s += pbt::str("%s%d@%d", i ? " " : "", oid[i], bown.empty() ? 0 : bown[i]);
    s += "] branches[";
    for (size_t i = 0; i < br.size(); i++) s += pbt::str("%s%d-%d@%d", i ? " " : "", oid[br[i].first], oid[br[i].second], brown.empty() ? 0 : brown[i]);
    return s + "]";
  }
  // buses and branches present on process p
  void local(int p, std::set<int> &b, std::set<int> &r) const {
    b.clear(); r.clear();
    for (int i = 0; i < nb; i++) if (bown[i] == p) b.insert(i);
    for (size_t k = 0; k < br.size(); k++)
      if (bown[br[k].first] == p || bown[br[k].second] == p) { r.insert((int)k); b.insert(br[k].first); b.insert(br[k].second); }
  }
};

// graph shapes: 0 path, 1 star, 2 ring, 3 random tree, 4 random tree + chords, 5 dense, 6 several hubs
inline NetModel gen_graph(pbt::Source &s, int nproc, int minb, int maxb) {
  NetModel m; m.nproc = nproc;
  m.nb = s.range(minb, maxb);
  int shape = s.range(0, 6), n = m.nb;
  std::set<std::pair<int,int> > seen;
  std::vector<std::pair<int,int> > e;
  struct Add { std::set<std::pair<int,int> > &seen; std::vector<std::pair<int,int> > &e;
    void operator()(int a, int b) { if (a == b) return; std::pair<int,int> k(std::min(a,b), std::max(a,b)); if (seen.insert(k).second) e.push_back(std::make_pair(a,b)); } } add = {seen, e};
  for (int i = 1; i < n; i++) {
    int j = 0;
    switch (shape) {
      case 0: case 2: j = i - 1; break;
      case 1: j = 0; break;
      case 6: j = s.range(0, std::min(i - 1, 2)); break;
      default: j = s.range(0, i - 1);
    }
    add(j, i);
  }
  if (shape == 2) add(n - 1, 0);
  int extra = shape == 4 || shape == 6 ? s.range(0, n) : shape == 5 ? n * (n - 1) / 2 > 60 ? 60 : n * (n - 1) / 2 : s.range(0, 2);
  for (int k = 0; k < extra; k++) { int a = s.range(0, n - 1), b = s.range(0, n - 1); add(a, b); }
  // random bus order, orientation and branch order
  std::vector<int> p = s.flag() ? s.perm(n) : std::vector<int>();
  for (size_t k = 0; k < e.size(); k++) {
    std::pair<int,int> x = e[k];
    if (!p.empty()) { x.first = p[x.first]; x.second = p[x.second]; }
    if (s.chance(1, 2)) std::swap(x.first, x.second);
    m.br.push_back(x);
  }
  if (s.flag()) {
    std::vector<int> q = s.perm((int)m.br.size());
    std::vector<std::pair<int,int> > t(m.br);
    for (size_t k = 0; k < q.size(); k++) m.br[k] = t[q[k]];
  }
  int numbering = s.range(0, 2);
  if (numbering == 0) for (int i = 0; i < n; i++) m.oid.push_back(i + 1);
  else {
    std::set<int> used;
    for (int i = 0; i < n; i++) {
      int v = numbering == 1 ? s.range(1, 3 * n) : s.range(1, 999997);
      while (!used.insert(v).second) v = v % 999997 + 1;
      m.oid.push_back(v);
    }
  }
  return m;
}

// assign owners; every process gets at least one bus when there are enough buses (unless holes).
// A branch belongs to the owner of its lower-numbered end, as the partitioner does it.
inline void gen_owners(pbt::Source &s, NetModel &m, bool allow_empty = false) {
  int n = m.nb, p = m.nproc, mode = s.range(0, 2);
  m.bown.assign(n, 0);
  for (int i = 0; i < n; i++)
    m.bown[i] = mode == 0 ? i * p / n : mode == 1 ? s.range(0, p - 1) : (s.chance(1, 4) ? s.range(0, p - 1) : (i ? m.bown[i - 1] : 0));
  if (!allow_empty && n >= p) {
    for (int k = 0; k < p; k++) {
      if (std::find(m.bown.begin(), m.bown.end(), k) != m.bown.end()) continue;
      for (int i = 0; i < n; i++) if (std::count(m.bown.begin(), m.bown.end(), m.bown[i]) > 1) { m.bown[i] = k; break; }
    }
  }
  m.brown.clear();
  for (size_t k = 0; k < m.br.size(); k++) m.brown.push_back(m.bown[std::min(m.br[k].first, m.br[k].second)]);
}

// Renumber so that each process owns a contiguous range of global indices, as setGlobal/resetGlobalIndices does.
// gb[i], gr[k]: global indices of bus i and branch k
inline void contiguous(const NetModel &m, std::vector<int> &gb, std::vector<int> &gr) {
  gb.assign(m.nb, 0); gr.assign(m.br.size(), 0);
  int c = 0, d = 0;
  for (int p = 0; p < m.nproc; p++) {
    for (int i = 0; i < m.nb; i++) if (m.bown[i] == p) gb[i] = c++;
    for (size_t k = 0; k < m.br.size(); k++) if (m.brown[k] == p) gr[k] = d++;
  }
}

// Build the distributed network (owned part plus ghosts) directly.  Local order is shuffled
// by lorder when given.  After this the local index of bus i on this process is lb[i] (or -1).
template <class Net>
void place(Net &net, const NetModel &m, int me, const std::vector<int> &gb, const std::vector<int> &gr,
           std::vector<int> &lb, std::vector<int> &lr, bool ghosts_last = true) {
  std::set<int> B, R; m.local(me, B, R);
  lb.assign(m.nb, -1); lr.assign(m.br.size(), -1);
  for (int pass = 0; pass < 2; pass++)
    for (int i = 0; i < m.nb; i++) {
      if (!B.count(i) || (ghosts_last ? (m.bown[i] == me) != (pass == 0) : pass == 1)) continue;
      int k = net.numBuses();
      net.addBus(m.oid[i]); lb[i] = k;
      net.setGlobalBusIndex(k, gb[i]);
      net.setActiveBus(k, m.bown[i] == me);
    }
  for (int pass = 0; pass < 2; pass++)
    for (size_t i = 0; i < m.br.size(); i++) {
      if (!R.count(i) || (ghosts_last ? (m.brown[i] == me) != (pass == 0) : pass == 1)) continue;
      int k = net.numBranches(), a = m.br[i].first, b = m.br[i].second;
      net.addBranch(m.oid[a], m.oid[b]); lr[i] = k;
      net.setGlobalBranchIndex(k, gr[i]);
      net.setGlobalBusIndex1(k, gb[a]); net.setGlobalBusIndex2(k, gb[b]);
      net.setLocalBusIndex1(k, lb[a]); net.setLocalBusIndex2(k, lb[b]);
      net.setActiveBranch(k, m.brown[i] == me);
      net.addBranchNeighbor(lb[a], k); net.addBranchNeighbor(lb[b], k);
    }
  net.setMap();
}

inline uint64_t hsh(uint64_t a, uint64_t b, uint64_t c) {
  uint64_t x = a * 0x9e3779b97f4a7c15ULL + b * 0xd1342543de82ef95ULL + c * 0x2545F4914F6CDD1DULL;
  return pbt::Source::mix(x);
}
#endif
