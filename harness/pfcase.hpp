// Power flow cases: generation, the raw file (version 33), admittance matrix and power balance computed independently.
#ifndef PBT_PFCASE_HPP
#define PBT_PFCASE_HPP
#include "pbt.hpp"
#include "net.hpp"
#include <complex>
#include <set>
namespace pfc {
using pbt::Source; using pbt::str;
typedef std::complex<double> Z;
struct Load { int bus; std::string id; int stat; double pl, ql, ip, iq, yp, yq; };
struct Shunt { int bus; std::string id; int stat; double g, b; };
struct SwShunt { int bus, stat; double b; };
struct Gen { int bus; std::string id; double pg, qg, qt, qb, vs; int stat; double pt, pb, mbase, zr, zx; };
struct Elem { int f, t; std::string ckt; double r, x, b, ra, rb, rc, g1, b1, g2, b2; int stat; bool xf; double tap, shift; };
struct Bus { int num, type, area, zone; double kv, vm, va; };
struct Case {
  double sbase; std::vector<Bus> bus; std::vector<Load> load; std::vector<Shunt> shunt; std::vector<SwShunt> sw; std::vector<Gen> gen; std::vector<Elem> el;
  std::map<int, int> at;                          // bus number -> position
  int nb() const { return (int)bus.size(); }
  int slack() const { for (int k = 0; k < nb(); k++) if (bus[k].type == 3) return k; return -1; }
};
// what the generator is to put into a case
struct Opt {
  int minb, maxb; bool isolated, line_shunts, xforms, shift, parallel, reversed, shunts, outages, pv; double stress; bool mixed_gen;
  Opt() : minb(2), maxb(10), isolated(true), line_shunts(true), xforms(true), shift(true), parallel(true), reversed(true), shunts(true), outages(true), pv(true), stress(1.0), mixed_gen(true) {}
};
inline std::string tag(Source &s, std::set<std::string> &used) {
  static const char *T = "123456789ABCDEFGHXYZ"; int k = s.range(0, 19), q = s.chance(1, 3) ? s.range(0, 19) : -1; std::string r;
  do { r = std::string(1, T[k]); r += q < 0 ? ' ' : T[q]; k = (k + 1) % 20; } while (!used.insert(r).second);
  return r;
}
inline Case gen_case(Source &s, int nproc, const Opt &o) {
  Case c; c.sbase = s.chance(2, 3) ? 100.0 : s.dec(20, 400);
  NetModel m = gen_graph(s, nproc, std::max(o.minb, nproc), o.maxb);
  int n = m.nb;
  for (int k = 0; k < n; k++) {
    Bus b; b.num = m.oid[k]; b.type = 1; b.area = s.range(1, 3); b.zone = s.range(1, 3); b.kv = s.pick({69, 115, 230}); b.vm = s.flag() ? 1.0 : s.dec(0.97, 1.04); b.va = s.flag() ? 0.0 : s.dec(-5, 5);
    c.at[b.num] = k; c.bus.push_back(b);
  }
  c.bus[s.range(0, n - 1)].type = 3;
  if (o.pv) for (int k = 0; k < n; k++) if (c.bus[k].type == 1 && s.chance(1, 4)) c.bus[k].type = 2;
  // isolated buses: leaves of the graph which are switched off
  std::set<int> iso;
  if (o.isolated && n > 3 && s.chance(1, 4)) {
    std::vector<int> deg(n, 0); for (size_t k = 0; k < m.br.size(); k++) { deg[m.br[k].first]++; deg[m.br[k].second]++; }
    for (int k = 0; k < n && (int)iso.size() < n / 3; k++) if (deg[k] == 1 && c.bus[k].type == 1 && s.flag()) { iso.insert(k); c.bus[k].type = 4; }
  }
  double scale = o.stress * 1.5 / n * c.sbase;
  // branch elements; the first element of every bus pair stays in service when the pair is a tree edge
  std::vector<int> root(n); for (int k = 0; k < n; k++) root[k] = k;
  struct F { static int find(std::vector<int> &r, int x) { while (r[x] != x) x = r[x] = r[r[x]]; return x; } };
  for (size_t k = 0; k < m.br.size(); k++) {
    int a = m.br[k].first, b = m.br[k].second; bool off = iso.count(a) || iso.count(b), tree = false;
    if (!off) { int ra = F::find(root, a), rb = F::find(root, b); if (ra != rb) { root[ra] = rb; tree = true; } }
    int ne = o.parallel && s.chance(1, 3) ? s.range(2, 3) : 1; std::set<std::string> used;
    for (int q = 0; q < ne; q++) {
      Elem e; e.f = a; e.t = b; if (q && o.reversed && s.flag()) std::swap(e.f, e.t);
      e.ckt = tag(s, used); e.x = s.dec(0.02, 0.25); if (s.chance(1, 12)) e.x = -0.3 * e.x - 0.05; e.r = s.chance(1, 4) ? 0 : e.x * s.dec(0.05, 0.5); if (e.r < 0) e.r = -e.r;
      if (e.x < 0 && ne == 1) e.x = -e.x;                    // series capacitors only parallel to something else
      e.b = s.chance(1, 3) ? 0 : s.dec(0, 0.08); e.g1 = e.b1 = e.g2 = e.b2 = 0; e.ra = s.chance(1, 3) ? 0 : s.dec(1, 200); e.rb = s.chance(1, 3) ? 0 : s.dec(1, 250); e.rc = 0;
      e.stat = 1; e.xf = false; e.tap = 0; e.shift = 0;
      if (o.xforms && s.chance(1, 3)) { e.xf = true; e.tap = s.chance(1, 3) ? 1.0 : s.dec(0.9, 1.1); if (o.shift && s.chance(1, 2)) e.shift = s.dec(-20, 20); }
      if (o.line_shunts && !e.xf && s.chance(1, 5)) { e.g1 = s.dec(0, 0.02); e.b1 = s.dec(-0.05, 0.05); e.g2 = s.dec(0, 0.02); e.b2 = s.dec(-0.05, 0.05); }
      if ((off && !s.chance(1, 3)) || (!off && o.outages && !(tree && !q) && s.chance(1, 6))) e.stat = 0;
      c.el.push_back(e);
    }
  }
  // a negative reactance must not dominate the first element of its pair
  for (int k = 0; k < n; k++) {
    std::set<std::string> used; int nl = s.chance(1, 3) ? 0 : s.chance(1, 4) ? s.range(2, 3) : 1;
    for (int q = 0; q < nl; q++) {
      Load l; l.bus = k; l.id = tag(s, used); l.stat = !o.outages || !s.chance(1, 6); l.pl = s.dec(0, 2) * scale / nl; l.ql = s.dec(-0.2, 0.8) * scale / nl; l.ip = l.iq = l.yp = l.yq = 0;
      if (s.chance(1, 8)) { l.ip = s.dec(0, 0.3) * scale; l.yp = s.dec(0, 0.3) * scale; l.yq = s.dec(-0.2, 0) * scale; }
      c.load.push_back(l);
    }
    if (o.shunts && s.chance(1, 4)) {
      std::set<std::string> us; int ns = s.chance(1, 3) ? 2 : 1;
      for (int q = 0; q < ns; q++) { Shunt h; h.bus = k; h.id = tag(s, us); h.stat = !o.outages || !s.chance(1, 5); h.g = s.flag() ? 0 : s.dec(0, 0.05) * c.sbase; h.b = s.dec(-0.1, 0.2) * c.sbase; c.shunt.push_back(h); }
    }
    if (o.shunts && s.chance(1, 8)) { SwShunt h; h.bus = k; h.stat = !o.outages || !s.chance(1, 5); h.b = s.dec(-0.1, 0.2) * c.sbase; c.sw.push_back(h); }
  }
  double total = 0; int ng = 0;
  for (size_t k = 0; k < c.load.size(); k++) if (c.load[k].stat && !iso.count(c.load[k].bus)) total += c.load[k].pl;
  for (int k = 0; k < n; k++) if (c.bus[k].type == 2 || c.bus[k].type == 3) ng++;
  for (int k = 0; k < n; k++) {
    int t = c.bus[k].type; bool has = t == 2 || t == 3 || (o.mixed_gen && s.chance(1, 12)); if (!has) continue;
    std::set<std::string> used; int q = s.chance(1, 3) ? s.range(2, 3) : 1, on = 0; double vs = s.dec(0.98, 1.05);
    for (int j = 0; j < q; j++) {
      Gen g; g.bus = k; g.id = tag(s, used); g.stat = !o.outages || !s.chance(1, 6); if (t == 3 && j == q - 1 && !on) g.stat = 1; on += g.stat;
      g.pg = total / ng / q * s.dec(0.5, 1.3); g.qg = t == 1 ? s.dec(-0.2, 0.4) * scale : 0; g.qt = s.dec(0.3, 3) * c.sbase; g.qb = -s.dec(0.3, 3) * c.sbase; g.vs = vs;
      g.pt = g.pg + s.dec(0.1, 2) * c.sbase; g.pb = s.chance(1, 3) ? 0 : g.pg * s.dec(0, 0.9); g.mbase = c.sbase; g.zr = 0; g.zx = 0.2; c.gen.push_back(g);
    }
  }
  return c;
}
inline std::string num(double v) { std::string t = str("%.15g", v); if (atof(t.c_str()) != v) t = str("%.17g", v); return t; }
// lines of a version 33 file; order: positions of records, permuted by the source when wanted
template <class T> static void shuffle(Source *s, std::vector<T> &v) { if (!s || v.size() < 2 || !s->flag()) return; std::vector<int> p = s->perm((int)v.size()); std::vector<T> w(v); for (size_t k = 0; k < p.size(); k++) v[k] = w[p[k]]; }
inline std::vector<std::string> raw33(const Case &c0, Source *s) {
  Case c = c0; std::vector<std::string> l;
  std::vector<int> bo(c.nb()); for (int k = 0; k < c.nb(); k++) bo[k] = k; shuffle(s, bo); shuffle(s, c.load); shuffle(s, c.shunt); shuffle(s, c.gen); shuffle(s, c.sw);
  std::vector<Elem> ln, xf; for (size_t k = 0; k < c.el.size(); k++) (c.el[k].xf ? xf : ln).push_back(c.el[k]);
  shuffle(s, ln); shuffle(s, xf);
  l.push_back("0, " + num(c.sbase) + ", 33, 0, 1, 60.00"); l.push_back("generated case"); l.push_back("second line");
#define N(k) c.bus[k].num
  for (size_t q = 0; q < bo.size(); q++) { const Bus &b = c.bus[bo[q]]; l.push_back(str("%d,'BUS%d',%s,%d,%d,%d,1,%s,%s,1.1,0.9,1.1,0.9", b.num, b.num % 10000, num(b.kv).c_str(), b.type, b.area, b.zone, num(b.vm).c_str(), num(b.va).c_str())); }
  l.push_back("0 /END OF BUS DATA");
  for (size_t k = 0; k < c.load.size(); k++) { Load &x = c.load[k]; l.push_back(str("%d,'%s',%d,%d,%d,%s,%s,%s,%s,%s,%s,1,1,0", N(x.bus), x.id.c_str(), x.stat, c.bus[x.bus].area, c.bus[x.bus].zone, num(x.pl).c_str(), num(x.ql).c_str(), num(x.ip).c_str(), num(x.iq).c_str(), num(x.yp).c_str(), num(x.yq).c_str())); }
  l.push_back("0 /END OF LOAD DATA");
  for (size_t k = 0; k < c.shunt.size(); k++) { Shunt &x = c.shunt[k]; l.push_back(str("%d,'%s',%d,%s,%s", N(x.bus), x.id.c_str(), x.stat, num(x.g).c_str(), num(x.b).c_str())); }
  l.push_back("0 /END OF FIXED SHUNT DATA");
  for (size_t k = 0; k < c.gen.size(); k++) { Gen &x = c.gen[k]; l.push_back(str("%d,'%s',%s,%s,%s,%s,%s,0,%s,%s,%s,0,0,1,%d,100,%s,%s,1,1.0", N(x.bus), x.id.c_str(), num(x.pg).c_str(), num(x.qg).c_str(), num(x.qt).c_str(), num(x.qb).c_str(), num(x.vs).c_str(), num(x.mbase).c_str(), num(x.zr).c_str(), num(x.zx).c_str(), x.stat, num(x.pt).c_str(), num(x.pb).c_str())); }
  l.push_back("0 /END OF GENERATOR DATA");
  for (size_t k = 0; k < ln.size(); k++) { Elem &x = ln[k]; l.push_back(str("%d,%d,'%s',%s,%s,%s,%s,%s,%s,%s,%s,%s,%s,%d,1,0.0,1,1.0", N(x.f), N(x.t), x.ckt.c_str(), num(x.r).c_str(), num(x.x).c_str(), num(x.b).c_str(), num(x.ra).c_str(), num(x.rb).c_str(), num(x.rc).c_str(), num(x.g1).c_str(), num(x.b1).c_str(), num(x.g2).c_str(), num(x.b2).c_str(), x.stat)); }
  l.push_back("0 /END OF BRANCH DATA");
  for (size_t k = 0; k < xf.size(); k++) { Elem &x = xf[k];
    l.push_back(str("%d,%d,0,'%s',1,1,1,0,%s,2,'T%d',%d,1,1.0", N(x.f), N(x.t), x.ckt.c_str(), num(x.b).c_str(), (int)k, x.stat));
    l.push_back(num(x.r) + "," + num(x.x) + "," + num(c.sbase));
    l.push_back(num(x.tap) + ",0.0," + num(x.shift) + "," + num(x.ra) + "," + num(x.rb) + "," + num(x.rc) + ",0,0,1.1,0.9,1.1,0.9,33,0,0.0,0.0,0.0");
    l.push_back("1.0,0.0"); }
  l.push_back("0 /END OF TRANSFORMER DATA");
  static const char *E[] = {"AREA", "TWO-TERMINAL DC", "VSC DC LINE", "IMPEDANCE CORRECTION", "MULTI-TERMINAL DC", "MULTI-SECTION LINE", "ZONE", "INTER-AREA TRANSFER", "OWNER", "FACTS DEVICE"};
  for (int k = 0; k < 10; k++) l.push_back(std::string("0 /END OF ") + E[k] + " DATA");
  for (size_t k = 0; k < c.sw.size(); k++) { SwShunt &x = c.sw[k]; l.push_back(str("%d,0,0,%d,1.1,0.9,0,100.0,'            ',%s,1,%s", N(x.bus), x.stat, num(x.b).c_str(), num(x.b).c_str())); }
  l.push_back("0 /END OF SWITCHED SHUNT DATA"); l.push_back("0 /END OF GNE DATA"); l.push_back("Q");
#undef N
  return l;
}
// y-parameters of one element (the parsers store the magnetising susceptance of transformers as their charging), seen from its own "from" and "to" bus
struct Y2 { Z ff, ft, tf, tt; };
inline Y2 y2(const Elem &e) {
  Y2 r; Z y = 1.0 / Z(e.r, e.x), b2(0, e.b / 2), a = 1.0; double t = 1;
  if (e.xf) { t = e.tap; a = std::polar(e.tap, e.shift * M_PI / 180); }
  r.ff = (y + b2) / (t * t) + Z(e.g1, e.b1); r.tt = y + b2 + Z(e.g2, e.b2); r.ft = -y / std::conj(a); r.tf = -y / a;
  return r;
}
typedef std::vector<std::vector<Z> > ZM;
inline ZM ybus(const Case &c) {
  int n = c.nb(); ZM y(n, std::vector<Z>(n));
  for (size_t k = 0; k < c.el.size(); k++) { const Elem &e = c.el[k]; if (!e.stat || c.bus[e.f].type == 4 || c.bus[e.t].type == 4) continue; Y2 v = y2(e); y[e.f][e.f] += v.ff; y[e.f][e.t] += v.ft; y[e.t][e.f] += v.tf; y[e.t][e.t] += v.tt; }
  for (size_t k = 0; k < c.shunt.size(); k++) if (c.shunt[k].stat) y[c.shunt[k].bus][c.shunt[k].bus] += Z(c.shunt[k].g, c.shunt[k].b) / c.sbase;
  for (size_t k = 0; k < c.sw.size(); k++) if (c.sw[k].stat) y[c.sw[k].bus][c.sw[k].bus] += Z(0, c.sw[k].b) / c.sbase;
  return y;
}
}
#endif
