// Y01: the admittance matrix.
#include "net.hpp"
#include "main.hpp"
#include "comm.hpp"
#include "pfcase.hpp"
#include "gridpack/network/base_network.hpp"
#include "gridpack/factory/base_factory.hpp"
#include "gridpack/math/math.hpp"
#include "gridpack/mapper/full_map.hpp"
#include "gridpack/parser/PTI33_parser.hpp"
#include "gridpack/applications/components/y_matrix/ymatrix_components.hpp"
using namespace pbt; using pbt::Source; using pbt::Ctx; using namespace pfc;
typedef gridpack::ymatrix::YMBus YB; typedef gridpack::ymatrix::YMBranch YR;
typedef gridpack::network::BaseNetwork<YB, YR> Net;
struct Fac : gridpack::factory::BaseFactory<Net> {
  boost::shared_ptr<Net> n; Fac(boost::shared_ptr<Net> x) : gridpack::factory::BaseFactory<Net>(x), n(x) {}
  void ybus() { for (int k = 0; k < n->numBranches(); k++) n->getBranch(k)->setYBus(); for (int k = 0; k < n->numBuses(); k++) n->getBus(k)->setYBus(); }
};
static bool near(Z a, Z b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }
// compare the matrix and the components with the matrix of the model
static void compare(Ctx &c, const Comm &comm, Net &net, gridpack::math::Matrix *M, const Case &k, const char *when) {
  ZM y = pfc::ybus(k); int n = k.nb();
  for (int q = 0; q < net.numBuses() && !c.failed; q++) {
    int o = net.getOriginalBusIndex(q), i = k.at.find(o)->second; if (k.bus[i].type == 4) continue;
    Z v = net.getBus(q)->getYBus(); c.sub++;
    if (!net.getActiveBus(q)) continue;                       // ghost copies do not see all of their branches
    if (!near(v, y[i][i])) c.fail("diagonal", "%s: the admittance of bus %d is (%.9g,%.9g) instead of (%.9g,%.9g)", when, o, v.real(), v.imag(), y[i][i].real(), y[i][i].imag());
  }
  for (int q = 0; q < net.numBranches() && !c.failed; q++) {
    int a, b; net.getOriginalBranchEndpoints(q, &a, &b); int i = k.at.find(a)->second, j = k.at.find(b)->second; if (k.bus[i].type == 4 || k.bus[j].type == 4) continue;
    Z f = net.getBranch(q)->getForwardYBus(), r = net.getBranch(q)->getReverseYBus(); c.sub++;
    if (!near(f, y[i][j])) c.fail("forward", "%s: the admittance from %d to %d is (%.9g,%.9g) instead of (%.9g,%.9g)", when, a, b, f.real(), f.imag(), y[i][j].real(), y[i][j].imag());
    else if (!near(r, y[j][i])) c.fail("reverse", "%s: the admittance from %d to %d is (%.9g,%.9g) instead of (%.9g,%.9g)", when, b, a, r.real(), r.imag(), y[j][i].real(), y[j][i].imag());
  }
  if (!all_ok(c, comm)) return;
  // rows of the matrix: buses in the order of their global indices, without isolated ones
  std::vector<int> pos(n, -1), all(n, -1);
  for (int q = 0; q < net.numBuses(); q++) if (net.getActiveBus(q)) { int gi; net.getBus(q)->getMatVecIndex(&gi); pos[k.at.find(net.getOriginalBusIndex(q))->second] = gi; }
  MPI_Allreduce(&pos[0], &all[0], n, MPI_INT, MPI_MAX, raw(comm));
  std::vector<std::pair<int, int> > ord; for (int i = 0; i < n; i++) if (k.bus[i].type != 4) ord.push_back(std::make_pair(all[i], i)); std::sort(ord.begin(), ord.end());
  int m = (int)ord.size();
  if (M->rows() != m || M->cols() != m) { c.fail("matrix size", "%s: the matrix is %d x %d instead of %d x %d", when, (int)M->rows(), (int)M->cols(), m, m); return; }
  int lo, hi; M->localRowRange(lo, hi);
  for (int r = lo; r < hi && !c.failed; r++) for (int q = 0; q < m; q++) {
    Z v; M->getElement(r, q, v); Z w = y[ord[r].second][ord[q].second]; c.sub++;
    if (!near(v, w)) { c.fail("matrix", "%s: the entry of buses %d and %d is (%.9g,%.9g) instead of (%.9g,%.9g)", when, k.bus[ord[r].second].num, k.bus[ord[q].second].num, v.real(), v.imag(), w.real(), w.imag()); break; }
  }
}
static void y01(Source &s, Ctx &c) {
  Comm comm = pick_sub(s, c, 1, 6);
  Opt o; o.maxb = 4 + 3 * c.size; Case k = gen_case(s, c.size, o);
  std::vector<std::string> lines = raw33(k, &s);
  if (getenv("PBT_SHOW") && c.rank == 0) for (size_t q = 0; q < lines.size(); q++) fprintf(stderr, "%s\n", lines[q].c_str());
  int npar = 0, nrev = 0, noff = 0, nxf = 0, niso = 0; std::map<std::pair<int, int>, std::pair<int, int> > pr;
  for (size_t q = 0; q < k.el.size(); q++) { const Elem &e = k.el[q]; std::pair<int, int> p(std::min(e.f, e.t), std::max(e.f, e.t)); if (pr.count(p)) { npar++; if (pr[p] != std::make_pair(e.f, e.t)) nrev++; } else pr[p] = std::make_pair(e.f, e.t); noff += !e.stat; nxf += e.xf; }
  for (int q = 0; q < k.nb(); q++) niso += k.bus[q].type == 4;
  c.sample = strf("%d buses %d elements (%d parallel %d reversed %d transformers %d off) %d shunts %d switched %d isolated", k.nb(), (int)k.el.size(), npar, nrev, nxf, noff, (int)k.shunt.size(), (int)k.sw.size(), niso);
  c.nontrivial = k.el.size() >= 2 && (npar || nxf || k.shunt.size());
  if (npar) c.label("parallel"); if (nrev) c.label("reversed"); if (nxf) c.label("transformers"); if (niso) c.label("isolated bus"); if (noff) c.label("out of service");
  boost::shared_ptr<Net> net(new Net(comm));
  gridpack::parser::PTI33_parser<Net> parser(net);
  parser.parse(lines, true);
  net->partition();
  Fac f(net); f.load(); if (s.chance(1, 5)) { c.label("loaded twice"); f.load(); } f.setComponents(); f.setExchange(); f.ybus(); f.setMode(gridpack::ymatrix::YBus);
  { gridpack::mapper::FullMatrixMap<Net> map(net); boost::shared_ptr<gridpack::math::Matrix> M = map.mapToMatrix(); compare(c, comm, *net, M.get(), k, "as read"); }
  // switching of elements
  int steps = s.range(0, 4); std::vector<int> st; for (size_t q = 0; q < k.el.size(); q++) st.push_back(k.el[q].stat);
  for (int q = 0; q <= steps && all_ok(c, comm); q++) {
    bool back = q == steps; std::vector<int> ch;
    if (back) { for (size_t e = 0; e < k.el.size(); e++) if (k.el[e].stat != st[e]) ch.push_back((int)e); if (!ch.size()) break; c.label("switched back"); }
    else { ch.push_back(s.range(0, (int)k.el.size() - 1)); if (s.chance(1, 3)) ch.push_back(s.range(0, (int)k.el.size() - 1)); }
    for (size_t x = 0; x < ch.size(); x++) {
      Elem &e = k.el[ch[x]]; e.stat = !e.stat; if (back) e.stat = st[ch[x]];
      for (int b = 0; b < net->numBranches(); b++) {
        int i, j; net->getOriginalBranchEndpoints(b, &i, &j); i = k.at[i]; j = k.at[j];
        if ((i == e.f && j == e.t) || (i == e.t && j == e.f)) { if (!net->getBranch(b)->setLineStatus(e.ckt, e.stat)) c.fail("tag", "no element '%s' on branch %d-%d", e.ckt.c_str(), k.bus[i].num, k.bus[j].num); else if (net->getBranch(b)->getLineStatus(e.ckt) != (e.stat != 0)) c.fail("status", "element '%s' on branch %d-%d has the wrong status", e.ckt.c_str(), k.bus[i].num, k.bus[j].num); }
      }
    }
    f.ybus();
    gridpack::mapper::FullMatrixMap<Net> map(net); boost::shared_ptr<gridpack::math::Matrix> M = map.mapToMatrix(); compare(c, comm, *net, M.get(), k, back ? "after switching everything back" : "after switching elements");
  }
  if (!all_ok(c, comm)) return;
  // contributions of single elements
  for (int b = 0; b < net->numBranches() && !c.failed; b++) {
    int i, j; net->getOriginalBranchEndpoints(b, &i, &j); i = k.at[i]; j = k.at[j];
    for (size_t q = 0; q < k.el.size(); q++) {
      Elem e = k.el[q]; if (!((i == e.f && j == e.t) || (i == e.t && j == e.f))) continue;
      e.g1 = e.b1 = e.g2 = e.b2 = 0; Y2 y = y2(e); if (i == e.t) { std::swap(y.ff, y.tt); std::swap(y.ft, y.tf); }
      Z a, d, g, h; net->getBranch(b)->getLineElements(e.ckt, &a, &d); net->getBranch(b)->getRvrsLineElements(e.ckt, &g, &h); c.sub++;
      if (!near(a, y.ff) || !near(d, y.ft)) c.fail("element", "element '%s' of branch %d-%d contributes (%.9g,%.9g) and (%.9g,%.9g) instead of (%.9g,%.9g) and (%.9g,%.9g)", e.ckt.c_str(), k.bus[i].num, k.bus[j].num, a.real(), a.imag(), d.real(), d.imag(), y.ff.real(), y.ff.imag(), y.ft.real(), y.ft.imag());
      else if (!near(g, y.tt) || !near(h, y.tf)) c.fail("element:reverse", "element '%s' of branch %d-%d contributes (%.9g,%.9g) and (%.9g,%.9g) at its second bus instead of (%.9g,%.9g) and (%.9g,%.9g)", e.ckt.c_str(), k.bus[i].num, k.bus[j].num, g.real(), g.imag(), h.real(), h.imag(), y.tt.real(), y.tt.imag(), y.tf.real(), y.tf.imag());
    }
  }
}
int main(int argc, char **argv) {
  Registry r;
  r["Y01"] = y01;
  return pbt_main(argc, argv, r);
}
