// P01 raw cases, P02 dynamic records, P03 export and re-import
#include "main.hpp"
#include "comm.hpp"
#include "rawfile.hpp"
#include "gridpack/network/base_network.hpp"
#include "gridpack/component/base_component.hpp"
#include "gridpack/parser/PTI23_parser.hpp"
#include "gridpack/parser/PTI33_parser.hpp"
#include "gridpack/parser/PTI34_parser.hpp"
#include "gridpack/parser/PTI35_parser.hpp"
#include "gridpack/export/PSSE33Export.hpp"
#include "gridpack/export/PSSE34Export.hpp"
#include "gridpack/export/PSSE23Export.hpp"
#include "dyrtab.hpp"
#include <boost/shared_ptr.hpp>
using namespace pbt;
using namespace rawf;

class PBus : public gridpack::component::BaseBusComponent {
public: PBus() {}
private: friend class boost::serialization::access;
  template <class A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::base_object<gridpack::component::BaseBusComponent>(*this); }
};
class PBranch : public gridpack::component::BaseBranchComponent {
public: PBranch() {}
private: friend class boost::serialization::access;
  template <class A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::base_object<gridpack::component::BaseBranchComponent>(*this); }
};
BOOST_CLASS_EXPORT(PBus)
BOOST_CLASS_EXPORT(PBranch)
typedef gridpack::network::BaseNetwork<PBus, PBranch> Net;
typedef gridpack::component::DataCollection DC;

// ------------------------------------------------------------------ generation
struct RawGen : Gen {
  std::vector<int> num_; std::vector<double> kv; std::vector<std::string> nm; std::vector<BP> ends;
  std::map<int, int> nl, nsh, ng; std::map<BP, int> ne; std::map<BP, std::set<std::string> > ids;
  double sbase; int nb, maxbus, ndummy; bool names_ok, plain_mag;
  RawGen(Source &s_, Doc &d_, int v) : Gen(s_, d_, v), sbase(100), nb(0), maxbus(0), ndummy(0), names_ok(false), plain_mag(false) {}

  std::string bus_ref(int b, bool neg = false, bool name_ok = true) {
    if (name_ok && names_ok && ver != 23 && nm[b].size() > 0 && nm[b].find('\'') == std::string::npos && s.chance(1, 6)) {
      std::string p = nm[b];
      switch (s.range(0, 2)) {
        case 0: return "'" + p + "'";
        case 1: p.resize(12, ' '); return "'" + p + "'";
        default: p.resize(12, ' '); return "'" + p + "   " + str("%.2f", kv[b]) + "'";
      }
    }
    return str("%s%d", neg && s.chance(1, 5) ? "-" : "", num_[b]);
  }
  std::string ghost_ref() { int v; do v = s.range(1, 2000000); while (std::find(num_.begin(), num_.end(), v) != num_.end() || v > 1000000 ? false : false); 
    while (std::find(num_.begin(), num_.end(), v) != num_.end() || (v > maxbus && v <= maxbus + 20)) v = v % 1900000 + 21; return str("%d", v); }
  std::string new_name(std::set<std::string> &used, int k) {
    static const char A[] = "ABCDEFGHKLMNaeiou0123456789-_.#/()&";
    std::string r;
    int n = s.pick({1, 2, 4, 8, 12});
    for (int q = 0; q < n; q++) r += q == 0 ? A[s.range(0, 11)] : (q < n - 1 && s.chance(1, 8) && r[q - 1] != ' ') ? ' ' : A[s.range(0, ver == 23 ? 28 : 34)];
    for (int q = k; !used.insert(r).second; q++) r = str("N%d", q);
    return r;
  }
  void header() {
    int id = s.range(0, 1);
    std::string sb; do { sb = s.flag() ? "100.0" : s.flag() ? "100.00" : str("%d.%d", s.range(1, 400), s.range(1, 9)); } while (atof(sb.c_str()) <= 0);
    sbase = atof(sb.c_str());
    if (ver != 23) comment();
    bool lead = s.chance(1, 3), bl = s.chance(1, 4);
    Toks t = {str("%d", id), sb, str("%d", ver), "0", "1", "60.00"};
    std::string l; for (size_t k = 0; k < t.size(); k++) l += (k ? (bl ? " " : s.flag() ? "," : ",   ") : lead ? " " : "") + t[k];
    d.lines.push_back(l + (s.flag() ? "     / PSS(R)E-33 MON, JAN 01 2001" : ""));
    static const char *T[] = {"some title, with 'text", "", "0 / looks like the end", "// or a comment", "2, 'BUS', 3"};
    for (int k = 0; k < 2; k++) d.lines.push_back(T[s.range(0, 4)]);
    d.net.push_back(ed(CASE_SBASE, NONE, sbase)); d.net.push_back(ei(CASE_ID, NONE, id));
  }
  void case_fields(std::vector<E> &e) { e.push_back(ed(CASE_SBASE, NONE, sbase)); e.push_back(ei(CASE_ID, NONE, d.net[1].i)); }
  // network shape: connected, with loads, shunts, generators, lines and transformers on it
  void shape(int np) {
    nb = s.range(std::max(2, np), s.chance(1, 4) ? 24 : 9);
    int style = s.range(0, 2); std::set<int> used;
    for (int k = 0; k < nb; k++) {
      int v = style == 0 ? k + 1 : style == 1 ? s.range(1, 3 * nb) : s.range(1, 999900);
      while (!used.insert(v).second) v = v % 999900 + 1;
      num_.push_back(v); maxbus = std::max(maxbus, v);
    }
    for (int k = 1; k < nb; k++) ends.push_back(BP(s.range(0, k - 1), k));
    int extra = s.range(0, nb);
    for (int k = 0; k < extra; k++) { int a = s.range(0, nb - 1), b = s.range(0, nb - 1); if (a != b) ends.push_back(BP(a, b)); }
    for (size_t k = 0; k < ends.size(); k++) if (s.flag()) std::swap(ends[k].first, ends[k].second);
    std::vector<int> p = s.perm((int)ends.size()); std::vector<BP> t(ends);
    for (size_t k = 0; k < p.size(); k++) ends[k] = t[p[k]];
  }
  void buses() {
    std::set<std::string> used; names_ok = s.flag();
    for (int b = 0; b < nb; b++) {
      std::string n = new_name(used, b); bool blank = !names_ok && s.chance(1, 10);
      if (blank) n = "";
      std::string shown = n; bool bare = n.size() && n.find(' ') == std::string::npos && n.find('/') == std::string::npos && s.chance(1, 6);
      if (!bare) { if (n.empty() || s.chance(2, 3)) shown.resize(12, ' '); shown = "'" + shown + "'"; }
      std::string k = str("%.3f", s.pick({69, 115, 138, 230, 345, 500}) * (s.chance(1, 4) ? 0.1 : 1.0));
      nm.push_back(n); kv.push_back(atof(k.c_str()));
      std::vector<E> e; Toks t; std::map<int, std::string> pre; pre[0] = str("%d", num_[b]); pre[1] = shown; pre[2] = k;
      pre[3] = str("%d", b == 0 ? 3 : s.range(1, 2));
      rec(bus_tab(), s.pick({9, 9, 11, 11, 13}), t, e, NONE, pre);
      e.push_back(es(BUS_NAME, NONE, n)); e.push_back(ei(BUS_NUMBER, NONE, num_[b])); case_fields(e);
      put(t); d.buses.push_back(num_[b]); d.bus[num_[b]] = e;
    }
  }
  template <class T> void devices(const T &tab, int lo, int hi, std::map<int, int> &cnt, const char *numkey, const char *buskey, int &total, bool neg) {
    int n = s.range(0, nb + 2); std::map<int, std::set<std::string> > used;
    for (int k = 0; k < n; k++) {
      Toks t; std::map<int, std::string> pre; std::vector<E> e;
      bool ghost = s.chance(1, 12); int b = s.chance(1, 3) ? 0 : s.range(0, nb - 1);
      pre[0] = ghost ? ghost_ref() : bus_ref(b); pre[1] = tag_text(ident(used[b]));
      int idx = cnt[b];
      rec(tab, s.chance(1, 3) ? s.range(lo, hi) : hi, t, e, idx, pre);
      put(t);
      if (ghost) continue;
      std::vector<E> &x = d.bus[num_[b]];
      x.insert(x.end(), e.begin(), e.end()); x.push_back(ei(buskey, idx, num_[b]));
      cnt[b]++; total++; if (idx) d.npar++;
    }
    for (int b = 0; b < nb; b++) {
      std::vector<E> &x = d.bus[num_[b]];
      if (cnt[b]) x.push_back(ei(numkey, NONE, cnt[b])); else x.push_back(no(numkey, NONE, 'i'));
      for (size_t k = 0; k < tab.size(); k++) if (tab[k].t != 'O') { E e = no(tab[k].key, cnt[b], tab[k].t == 'I' || tab[k].t == 'i' ? 'i' : tab[k].t == 'g' ? 's' : tab[k].t == 'z' ? 'z' : 'd'); x.push_back(e); }
    }
  }
  // position of a new element on the branch between a and b; rev: written against the branch direction
  int element(int a, int b, bool &rev, BP &key) {
    BP p(num_[a], num_[b]), q(num_[b], num_[a]); rev = false;
    if (ne.count(p)) key = p; else if (ne.count(q)) { key = q; rev = true; }
    else { key = p; ne[p] = 0; d.branches.push_back(p); std::vector<E> &x = d.br[p]; case_fields(x); x.push_back(ei(BRANCH_FROMBUS, NONE, p.first)); x.push_back(ei(BRANCH_TOBUS, NONE, p.second)); }
    if (rev) d.nrev++;
    if (ne[key]) d.npar++;
    return ne[key]++;
  }
  void line_rec(int a, int b) {
    bool rev; BP key; int idx = element(a, b, rev, key);
    Toks t; std::map<int, std::string> pre; std::vector<E> e;
    pre[0] = bus_ref(a); pre[1] = bus_ref(b, true); pre[2] = tag_text(ident(ids[key]));
    std::string name;
    int full = ver >= 34 ? 34 : 24;
    if (ver >= 34) { bool nn = s.chance(2, 3); if (nn) { std::set<std::string> u; name = new_name(u, idx); pre[6] = "'" + name + "'"; } else pre[6] = ""; }
    int n = s.chance(1, 3) ? s.range(ver >= 34 ? 24 : 14, full) : s.chance(1, 10) ? s.range(3, full) : full;
    rec(line_tab(ver), n, t, e, idx, pre); put(t);
    if (ver >= 34) { if (name.size() && n > 6) e.push_back(es(BRANCH_NAME, idx, name)); else e.push_back(no(BRANCH_NAME, idx, 's')); }
    e.push_back(ed(BRANCH_TAP, idx, 0)); e.push_back(ed(BRANCH_SHIFT, idx, 0)); e.push_back(eb(BRANCH_SWITCHED, idx, rev));
    std::vector<E> &x = d.br[key]; x.insert(x.end(), e.begin(), e.end()); d.nline++;
  }
  static double num(const std::string &t) { return atof(t.c_str()); }
  Toks winding(int lo, int hi, const std::string &w, const std::string &nomv, std::vector<E> *e, int idx, double *ang, std::vector<double> *rates) {
    Toks t; std::map<int, std::string> pre; pre[0] = w; pre[1] = nomv;
    std::vector<E> tmp; rec(xf3_tab(ver), s.range(lo, hi), t, tmp, idx, pre);
    if (e) e->insert(e->end(), tmp.begin(), tmp.end());
    if (ang) *ang = atof(t[2].c_str());
    if (rates) { rates->clear(); for (int k = 0; k < (ver == 33 ? 3 : 12); k++) rates->push_back(atof(t[3 + k].c_str())); }
    return t;
  }
  std::string sb_text() { return s.chance(1, 3) ? str("%.2f", sbase) : s.chance(1, 5) ? "0.0" : str("%d.%d", s.range(1, 900), s.range(0, 9)); }
  void wind_text(int cw, int b, std::string &w, std::string &nomv, double &pu) {
    if (cw == 2) { double base = kv[b]; w = str("%.4f", base * s.range(900, 1100) / 1000.0);
      nomv = s.flag() ? "0.0" : str("%.3f", base); pu = atof(w.c_str()) / (nomv == "0.0" ? base : atof(nomv.c_str())); }
    else { w = str("%.5f", s.range(80000, 120000) / 1e5); nomv = s.chance(1, 3) ? "0.0" : str("%.3f", kv[b]); pu = atof(w.c_str()); }
  }
  void xf2_rec(int a, int b) {
    bool rev; BP key; int idx = element(a, b, rev, key);
    Toks t; std::map<int, std::string> pre; std::vector<E> e;
    int cw = s.range(1, 2), cz = s.range(1, 2);
    pre[0] = bus_ref(a); pre[1] = bus_ref(b); pre[2] = s.chance(1, 5) ? "" : "0"; pre[3] = tag_text(ident(ids[key])); pre[4] = str("%d", cw); pre[5] = str("%d", cz); pre[6] = "1"; pre[10] = s.flag() ? "'XF  1       '" : "'            '";
    rec(xf1_tab(), s.flag() ? s.range(12, 20) : 21, t, e, idx, pre); put(t);
    Toks u(3); u[0] = pos(); u[1] = pos(); u[2] = sb_text();
    put(u);
    std::string w1, n1, w2, n2; double p1, p2; wind_text(cw, a, w1, n1, p1); wind_text(cw, b, w2, n2, p2);
    Toks w = winding(ver == 33 ? 16 : ver == 34 ? 19 : 20, ver == 33 ? 17 : ver == 34 ? 25 : 27, w1, n1, &e, idx, 0, 0); put(w);
    Toks x(2); x[0] = w2; x[1] = n2; put(x);
    double sb = num(u[2]), f = p2 * p2; if (cz == 2 && sb != 0.0) f *= sbase / sb;
    e.push_back(ed(TRANSFORMER_R1_2, idx, num(u[0]))); e.push_back(ed(TRANSFORMER_X1_2, idx, num(u[1]))); e.push_back(ed(TRANSFORMER_SBASE1_2, idx, sb));
    e.push_back(ed(BRANCH_R, idx, num(u[0]) * f)); e.push_back(ed(BRANCH_X, idx, num(u[1]) * f));
    e.push_back(ed(TRANSFORMER_WINDV1, idx, p1)); e.push_back(ed(TRANSFORMER_WINDV2, idx, p2)); e.push_back(ed(BRANCH_TAP, idx, p1 / p2));
    e.push_back(eb(BRANCH_SWITCHED, idx, rev));
    std::vector<E> &y = d.br[key]; y.insert(y.end(), e.begin(), e.end()); d.nxf2++;
  }
  void xf3_rec(int a, int b, int c3) {
    Toks t; std::map<int, std::string> pre; std::vector<E> e;
    int stat = s.range(0, 4), cz = s.range(1, 2), cw = s.range(1, 2); std::set<std::string> u0; std::string id = ident(u0);
    pre[0] = bus_ref(a); pre[1] = bus_ref(b); pre[2] = bus_ref(c3); pre[3] = tag_text(id); pre[4] = str("%d", cw); pre[5] = str("%d", cz); pre[6] = "1"; pre[10] = "'T3'"; pre[11] = str("%d", stat); if (plain_mag) pre[7] = pre[8] = "0.0";
    rec(xf1_tab(), s.flag() ? s.range(12, 20) : 21, t, e, 0, pre); put(t);
    Toks u(11); double r[3], x[3]; 
    for (int k = 0; k < 3; k++) { u[3 * k] = pos(); u[3 * k + 1] = pos(); u[3 * k + 2] = sb_text(); double sb = num(u[3 * k + 2]), f = cz == 2 && sb != 0.0 ? sbase / sb : 1.0; r[k] = num(u[3 * k]) * f; x[k] = num(u[3 * k + 1]) * f; }
    u[9] = "1.0"; u[10] = "0.0"; put(u);
    int bb[3] = {a, b, c3}; double wv[3], ang[3]; std::vector<double> rt[3];
    for (int k = 0; k < 3; k++) { std::string w, n; wind_text(cw, bb[k], w, n, wv[k]); Toks q = winding(ver == 33 ? 16 : 20, ver == 33 ? 17 : 24, w, n, 0, 0, &ang[k], &rt[k]); put(q); }
    d.nxf3++;
    if (stat == 0) return;
    ndummy++; int n = maxbus + ndummy;
    std::vector<E> &B = d.bus[n]; d.buses.push_back(n);
    B.push_back(ei(BUS_NUMBER, NONE, n)); B.push_back(es(BUS_NAME, NONE, str("DUMMY_BUS-%d-%d-%d", num_[a], num_[b], num_[c3]))); B.push_back(ei(BUS_TYPE, NONE, 1)); B.push_back(ed(BUS_BASEKV, NONE, 0));
    B.push_back(ed(BUS_VOLTAGE_MAG, NONE, 1)); B.push_back(ed(BUS_VOLTAGE_ANG, NONE, 0)); B.push_back(no(LOAD_NUMBER, NONE, 'i')); B.push_back(no(GENERATOR_NUMBER, NONE, 'i')); case_fields(B);
    const std::vector<E> &A = d.bus[num_[a]];
    for (size_t k = 0; k < A.size(); k++) if ((A[k].key == BUS_AREA || A[k].key == BUS_OWNER) && !A[k].absent) B.push_back(A[k]);
    static const char *R[] = {BRANCH_RATE1, BRANCH_RATE2, BRANCH_RATE3, BRANCH_RATE4, BRANCH_RATE5, BRANCH_RATE6, BRANCH_RATE7, BRANCH_RATE8, BRANCH_RATE9, BRANCH_RATE10, BRANCH_RATE11, BRANCH_RATE12};
    double rr[3] = {0.5 * (r[0] + r[2] - r[1]), 0.5 * (r[0] + r[1] - r[2]), 0.5 * (r[1] + r[2] - r[0])}, xx[3] = {0.5 * (x[0] + x[2] - x[1]), 0.5 * (x[0] + x[1] - x[2]), 0.5 * (x[1] + x[2] - x[0])};
    bool on[3] = {stat != 4, stat != 2, stat != 3};
    for (int k = 0; k < 3; k++) {
      BP p(num_[bb[k]], n); d.branches.push_back(p); ne[p] = 1; std::vector<E> &y = d.br[p]; case_fields(y);
      y.push_back(ei(BRANCH_FROMBUS, NONE, p.first)); y.push_back(ei(BRANCH_TOBUS, NONE, p.second)); y.push_back(es(BRANCH_CKT, 0, pad2(id)));
      y.push_back(ed(BRANCH_R, 0, rr[k])); y.push_back(ed(BRANCH_X, 0, xx[k])); y.push_back(ed(BRANCH_B, 0, 0)); y.push_back(ed(BRANCH_TAP, 0, wv[k])); y.push_back(ed(BRANCH_SHIFT, 0, ang[k]));
      y.push_back(eb(BRANCH_SWITCHED, 0, false)); y.push_back(ei(BRANCH_STATUS, 0, on[k] ? 1 : 0));
      y.push_back(ed(BRANCH_SHUNT_ADMTTNC_G1, 0, k ? 0 : num(t[7]))); y.push_back(ed(BRANCH_SHUNT_ADMTTNC_B1, 0, k ? 0 : num(t[8]))); y.push_back(ed(BRANCH_SHUNT_ADMTTNC_G2, 0, 0)); y.push_back(ed(BRANCH_SHUNT_ADMTTNC_B2, 0, 0));
      y.push_back(ed(BRANCH_RATING_A, 0, rt[k][0])); y.push_back(ed(BRANCH_RATING_B, 0, rt[k][1])); y.push_back(ed(BRANCH_RATING_C, 0, rt[k][2]));
      if (ver >= 34) for (int q = 0; q < 12; q++) y.push_back(ed(R[q], 0, rt[k][q]));
    }
  }
  void finish_branches() {
    for (std::map<BP, int>::iterator i = ne.begin(); i != ne.end(); ++i) {
      std::vector<E> &x = d.br[i->first]; x.push_back(ei(BRANCH_NUM_ELEMENTS, NONE, i->second));
      x.push_back(no(BRANCH_R, i->second, 'd')); x.push_back(no(BRANCH_CKT, i->second, 's')); x.push_back(no(BRANCH_STATUS, i->second, 'i')); x.push_back(no(TRANSFORMER_WINDV1, i->second, 'd'));
    }
  }
  void areas() {
    int n = s.range(0, 3);
    for (int k = 0; k < n; k++) {
      Toks t(5); t[0] = str("%d", k + 1); t[1] = str("%d", num_[s.range(0, nb - 1)]); t[2] = num_text(); t[3] = num_text(); std::string nmx = str("AREA %d/%c", k, 'A' + s.range(0, 5)); t[4] = "'" + nmx + (s.flag() ? "      '" : "'");
      put(t); d.narea++;
      d.net.push_back(ei(AREAINTG_NUMBER, k, k + 1)); d.net.push_back(ei(AREAINTG_ISW, k, atoi(t[1].c_str()))); d.net.push_back(ed(AREAINTG_PDES, k, atof(t[2].c_str()))); d.net.push_back(ed(AREAINTG_PTOL, k, atof(t[3].c_str())));
      E e = es(AREAINTG_NAME, k, nmx); e.t = 'q'; d.net.push_back(e);
    }
    d.net.push_back(ei(AREA_TOTAL, NONE, n)); d.net.push_back(no(AREAINTG_NUMBER, n, 'i'));
  }
  std::string num_text() { return Gen::num(); }
  void other(const char *what, std::initializer_list<const char *> l) {
    std::vector<const char *> v(l);
    if (v.size() && s.chance(1, 3)) { int n = s.range(1, 2); for (int k = 0; k < n; k++) for (size_t q = 0; q < v.size(); q++) { if (q == 0) comment(); d.lines.push_back(v[q]); } }
    end(what);
  }
  // tables of turns ratios (or angles) and scaling factors: pairs up to version 33, triples over several lines later
  void tables() {
    int n = s.chance(1, 2) ? 0 : s.range(1, 3);
    for (int k = 0; k < n; k++) {
      int id = 10 * k + s.range(1, 9), m = s.range(ver == 33 ? 0 : 1, 11); std::pair<std::vector<double>, std::vector<double> > &v = d.tabs[id];
      Toks t(1, str("%d", id));
      for (int q = 0; q < m; q++) {
        t.push_back(t.empty() ? pos() : num_text()); v.first.push_back(atof(t.back().c_str())); t.push_back(pos()); v.second.push_back(atof(t.back().c_str()));
        if (ver >= 34) { t.push_back(num_text()); if (q + 1 < m && s.chance(1, 3)) { put(t); t.clear(); } }
      }
      put(t);
      if (ver >= 34) d.lines.push_back(s.flag() ? "0.0, 0.0, 0.0" : "   0.0, 0.0, 0.0");
      d.ntab++;
    }
    end("IMPEDANCE CORRECTION");
  }
  void multi_sections() {
    for (size_t k = 0; k < ends.size(); k++) {
      if (!s.chance(1, 10)) continue;
      BP p(num_[ends[k].first], num_[ends[k].second]), q(p.second, p.first); BP key = ne.count(p) ? p : q;
      bool unknown = s.chance(1, 4); if (!unknown && (!ne.count(key) || ids[key].count("&"))) continue;
      if (!unknown) ids[key].insert("&");
      int nd = s.range(1, 9), met = s.range(1, 2); Toks t; t.push_back(unknown ? ghost_ref() : str("%d", p.first)); t.push_back(unknown ? ghost_ref() : str("%d", p.second)); t.push_back("'&1'"); t.push_back(str("%d", met));
      std::vector<int> dum; for (int j = 0; j < nd; j++) { dum.push_back(s.range(1, 99)); t.push_back(str("%d", dum[j])); }
      put(t);
      if (unknown) continue;
      std::vector<E> &x = d.br[key]; x.push_back(es(MULTI_SEC_LINE_ID, NONE, "&1")); x.push_back(ei(MULTI_SEC_LINE_MET, NONE, met));
      static const char *D[] = {MULTI_SEC_LINE_DUM1, MULTI_SEC_LINE_DUM2, MULTI_SEC_LINE_DUM3, MULTI_SEC_LINE_DUM4, MULTI_SEC_LINE_DUM5, MULTI_SEC_LINE_DUM6, MULTI_SEC_LINE_DUM7, MULTI_SEC_LINE_DUM8, MULTI_SEC_LINE_DUM9};
      for (int j = 0; j < 9; j++) x.push_back(j < nd ? ei(D[j], NONE, dum[j]) : no(D[j], NONE, 'i'));
    }
    end("MULTI-SECTION LINE");
  }
  void switched() {
    for (int b = 0; b < nb; b++) {
      if (!s.chance(1, 4)) continue;
      Toks t; std::map<int, std::string> pre; std::vector<E> e; Tab tab = sw_tab(ver);
      bool ghost = s.chance(1, 8);
      pre[0] = ghost ? ghost_ref() : bus_ref(b); int rm = ver == 35 ? 10 : 8; pre[rm] = s.flag() ? "'RM T1       '" : "'            '"; if (ver == 35) pre[1] = "'1 '";
      int lo = ver == 35 ? 15 : 12, hi = ver == 35 ? 36 : ver == 34 ? 27 : 26;
      int n = s.flag() ? hi : lo + (ver == 35 ? 3 : 2) * s.range(0, 7);
      rec(tab, n, t, e, NONE, pre); put(t);
      if (ghost) continue;
      for (size_t k = 0; k < e.size(); k++) if (e[k].key == SHUNT_RMIDNT) e[k].t = 'q';
      std::vector<E> &x = d.bus[num_[b]]; x.insert(x.end(), e.begin(), e.end()); x.push_back(ei(SWSHUNT_BUSNUMBER, NONE, num_[b])); d.nsw++;
    }
    end("SWITCHED SHUNT");
  }
  // version 23: loads and shunts are columns of the bus, transformers are branches with adjustments in a section of their own
  void build23(int np) {
    header(); shape(np);
    std::set<std::string> used;
    for (int b = 0; b < nb; b++) {
      std::string n = new_name(used, b); nm.push_back(n); kv.push_back(s.pick({69, 115, 230}));
      Tab tab = {{BUS_TYPE, 'i', 1}, {BUS_AREA, 'i', 6}, {BUS_OWNER, 'i', 6}, {BUS_VOLTAGE_MAG, 'd', 7}, {BUS_VOLTAGE_ANG, 'd', 8}, {BUS_BASEKV, 'd', 10}, {BUS_ZONE, 'i', 11}};
      Toks t; std::vector<E> e; std::map<int, std::string> pre; pre[0] = str("%d", num_[b]); pre[1] = str("%d", b == 0 ? 3 : s.range(1, 2));
      std::string q = "'" + n; if (s.flag()) q.resize(std::max(q.size(), (size_t)13), ' '); pre[9] = q + "'";
      bool load = s.flag(), shunt = s.chance(1, 3), half = s.chance(1, 4);
      for (int k = 2; k < 6; k++) pre[k] = (k < 4 ? load : shunt) && !(half && k % 2) ? num_text() : s.flag() ? "0.0" : "0";
      rec(tab, 12, t, e, NONE, pre); put(t);
      double v[4]; for (int k = 0; k < 4; k++) v[k] = atof(t[2 + k].c_str());
      load = v[0] != 0 || v[1] != 0; shunt = v[2] != 0 || v[3] != 0;
      static const char *L[] = {LOAD_PL, LOAD_QL, LOAD_IP, LOAD_IQ, LOAD_YP, LOAD_YQ}, *S[] = {BUS_SHUNT_GL, BUS_SHUNT_BL};
      for (int k = 0; k < 6; k++) e.push_back(load ? ed(L[k], 0, k < 2 ? v[k] : 0) : no(L[k], 0, 'd'));
      if (load) { e.push_back(es(LOAD_ID, 0, "1 ")); e.push_back(ei(LOAD_STATUS, 0, 1)); e.push_back(ei(LOAD_NUMBER, NONE, 1)); d.nload++; } else e.push_back(no(LOAD_NUMBER, NONE, 'i'));
      for (int k = 0; k < 2; k++) { e.push_back(shunt ? ed(S[k], 0, v[2 + k]) : no(S[k], 0, 'd')); e.push_back(shunt ? ed(S[k], NONE, v[2 + k]) : no(S[k], NONE, 'd')); }
      if (shunt) { e.push_back(es(SHUNT_ID, 0, "1 ")); e.push_back(ei(SHUNT_NUMBER, NONE, 1)); d.nshunt++; } else e.push_back(no(SHUNT_NUMBER, NONE, 'i'));
      E w = es(BUS_NAME, NONE, n); w.t = 'q'; e.push_back(w); e.push_back(ei(BUS_NUMBER, NONE, num_[b])); case_fields(e);
      d.buses.push_back(num_[b]); d.bus[num_[b]] = e;
    }
    end("BUS");
    Tab gt = gen_tab(33), g; for (size_t k = 0; k < gt.size(); k++) if (gt[k].c < 18) g.push_back(gt[k]);
    static const char *X[] = {GENERATOR_REACTANCE, GENERATOR_RESISTANCE, GENERATOR_TRANSIENT_REACTANCE, GENERATOR_SUBTRANSIENT_REACTANCE, GENERATOR_INERTIA_CONSTANT_H, GENERATOR_DAMPING_COEFFICIENT_0};
    g.push_back((F){GENERATOR_RT, 'd', 11}); g.push_back((F){GENERATOR_XT, 'd', 12});
    for (int k = 0; k < 6; k++) g.push_back((F){X[k], 'd', 18 + k});
    devices(g, s.flag() ? 2 : 18, s.flag() ? 18 : 24, ng, GENERATOR_NUMBER, GENERATOR_BUSNUMBER, d.ngen, false); end("GENERATOR");
    Tab bt = {{BRANCH_CKT, 'g', 2}, {BRANCH_R, 'd', 3}, {BRANCH_X, 'd', 4}, {BRANCH_B, 'd', 5}, {BRANCH_RATING_A, 'd', 6}, {BRANCH_RATING_B, 'd', 7}, {BRANCH_RATING_C, 'd', 8}, {BRANCH_TAP, 'd', 9}, {BRANCH_SHIFT, 'd', 10},
      {BRANCH_SHUNT_ADMTTNC_G1, 'd', 11}, {BRANCH_SHUNT_ADMTTNC_B1, 'd', 12}, {BRANCH_SHUNT_ADMTTNC_G2, 'd', 13}, {BRANCH_SHUNT_ADMTTNC_B2, 'd', 14}, {BRANCH_STATUS, 'I', 15}};
    Tab xt = {{TRANSFORMER_CONTROL, 'i', 3}, {TRANSFORMER_RMA, 'd', 4}, {TRANSFORMER_RMI, 'd', 5}, {TRANSFORMER_VMA, 'd', 6}, {TRANSFORMER_VMI, 'd', 7}, {TRANSFORMER_STEP, 'd', 8}, {TRANSFORMER_TABLE, 'd', 9}};
    struct A { BP key; int idx; std::string id; }; std::vector<A> el;
    for (size_t k = 0; k < ends.size(); k++) {
      bool rev; BP key; int idx = element(ends[k].first, ends[k].second, rev, key);
      Toks t; std::map<int, std::string> pre; std::vector<E> e; std::string id = ident(ids[key]);
      pre[0] = str("%s%d", s.chance(1, 8) ? "-" : "", num_[ends[k].first]); pre[1] = bus_ref(ends[k].second, true); pre[2] = tag_text(id);
      rec(bt, s.flag() ? 16 : 18, t, e, idx, pre); put(t); e.push_back(eb(BRANCH_SWITCHED, idx, rev));
      std::vector<E> &x = d.br[key]; x.insert(x.end(), e.begin(), e.end()); d.nline++;
      A a; a.key = key; a.idx = idx; a.id = id; el.push_back(a);
    }
    end("BRANCH");
    for (size_t k = 0; k < el.size(); k++) {
      std::vector<E> &x = d.br[el[k].key];
      if (!s.chance(1, 3)) { x.push_back(no(TRANSFORMER_RMA, el[k].idx, 'd')); continue; }
      Toks t; std::map<int, std::string> pre; std::vector<E> e; bool ghost = s.chance(1, 8);
      bool back = s.chance(1, 4); pre[0] = str("%d", back ? el[k].key.second : el[k].key.first); pre[1] = str("%d", back ? el[k].key.first : el[k].key.second); pre[2] = tag_text(ghost ? ident(ids[el[k].key]) : el[k].id);
      if (plain_mag) pre[9] = str("%d", s.range(0, 5)); rec(xt, 10, t, e, el[k].idx, pre); put(t);
      if (ghost) { x.push_back(no(TRANSFORMER_RMA, el[k].idx, 'd')); continue; }
      x.insert(x.end(), e.begin(), e.end()); d.nxf2++;
    }
    end("TRANSFORMER ADJUSTMENT"); finish_branches();
    areas(); end("AREA");
    other("TWO-TERMINAL DC", {"1, 1, 8.2, 100.0", "1, 2, 20.0", "2, 2, 20.0"});
    for (int b = 0; b < nb; b++) {
      if (!s.chance(1, 4)) continue;
      Tab tab = {{SHUNT_MODSW, 'i', 1}, {SHUNT_VSWHI, 'd', 2}, {SHUNT_VSWLO, 'd', 3}, {SHUNT_SWREM, 'i', 4}, {SHUNT_BINIT, 'd', 5}};
      static const char *N[] = {SHUNT_N1, SHUNT_N2, SHUNT_N3, SHUNT_N4, SHUNT_N5, SHUNT_N6, SHUNT_N7, SHUNT_N8}, *B[] = {SHUNT_B1, SHUNT_B2, SHUNT_B3, SHUNT_B4, SHUNT_B5, SHUNT_B6, SHUNT_B7, SHUNT_B8};
      for (int k = 0; k < 8; k++) { tab.push_back((F){N[k], 'i', 6 + 2 * k}); tab.push_back((F){B[k], 'd', 7 + 2 * k}); }
      Toks t; std::map<int, std::string> pre; std::vector<E> e; bool ghost = s.chance(1, 8); pre[0] = ghost ? ghost_ref() : str("%d", num_[b]);
      rec(tab, s.flag() ? 22 : 8 + 2 * s.range(0, 7), t, e, NONE, pre); put(t); if (ghost) continue;
      std::vector<E> &x = d.bus[num_[b]]; x.insert(x.end(), e.begin(), e.end()); x.push_back(ei(SWSHUNT_BUSNUMBER, NONE, num_[b])); d.nsw++;
    }
    end("SWITCHED SHUNT");
  }
  void build(int np) {
    header(); shape(np);
    if (ver >= 34) other("SYSTEM-WIDE", {"GENERAL, THRSHZ=0.000100, PQBRAK=0.70000", "RATING, 1, \"RATE1 \", \"RATING SET 1\""});
    buses(); end("BUS");
    devices(load_tab(), 1, s.flag() ? 11 : 14, nl, LOAD_NUMBER, LOAD_BUSNUMBER, d.nload, true); end("LOAD");
    devices(shunt_tab(), 1, 5, nsh, SHUNT_NUMBER, SHUNT_BUSNUMBER, d.nshunt, false); end("FIXED SHUNT");
    Tab gt = gen_tab(ver); for (size_t k = 0; k < gt.size(); k++) if (gt[k].t == 'O') gt[k].t = 'i';
    gen_owner_safe(gt); end("GENERATOR");
    std::vector<int> kind(ends.size());
    int mix = s.range(0, 2);
    for (size_t k = 0; k < ends.size(); k++) kind[k] = mix == 0 ? 0 : s.chance(mix, 4) ? 1 : 0;
    for (size_t k = 0; k < ends.size(); k++) if (!kind[k]) line_rec(ends[k].first, ends[k].second);
    end("BRANCH");
    if (ver >= 34) other("SYSTEM SWITCHING DEVICE", {"1, 2, '1 ', 0.0001, 0.0, 0.0, 0.0"});
    for (size_t k = 0; k < ends.size(); k++) {
      if (nb >= 3 && s.chance(1, 12)) { int a = s.range(0, nb - 1), b = s.range(0, nb - 2), c3 = s.range(0, nb - 3); if (b >= a) b++; int lo = std::min(a, b), hi = std::max(a, b); if (c3 >= lo) c3++; if (c3 >= hi) c3++; xf3_rec(a, b, c3); }
      if (kind[k]) xf2_rec(ends[k].first, ends[k].second);
    }
    end("TRANSFORMER"); finish_branches();
    areas(); end("AREA");
    other("TWO-TERMINAL DC", {"'DC1', 1, 8.2, 100.0, 500.0, 100.0, 0.0, 0.0, 'I', 0.0, 20, 1.0", "1, 2, 20.0, 18.0, 0.0, 10.0, 200.0", "2, 2, 20.0, 18.0, 0.0, 10.0, 200.0"});
    other("VSC DC LINE", {"'VDCLINE1', 1, 0.71, 1, 1.0", "1, 2, 1, -209.0, 0.95", "2, 1, 1, 100.0, 0.99"});
    tables();
    other("MULTI-TERMINAL DC", {});
    multi_sections();
    other("ZONE", {"1, 'ZONE /1'"}); other("INTER-AREA TRANSFER", {"1, 2, 'A', 10.0"}); other("OWNER", {"1, 'OWNER'"}); other("FACTS DEVICE", {"'F1', 1, 2, 1, 0.0, 0.0, 1.0"});
    switched();
    if (s.flag()) { d.lines.push_back("0 / END OF GNE DATA"); d.lines.push_back("Q"); }
  }
  // generator records end anywhere, but a pair (owner, fraction) is written with non-blank values
  void gen_owner_safe(const Tab &gt) {
    int n = s.range(0, nb + 2), w = ver == 35 ? 20 : 18, hi = ver == 35 ? 30 : ver == 34 ? 29 : 28; std::map<int, std::set<std::string> > used;
    for (int k = 0; k < n; k++) {
      Toks t; std::map<int, std::string> pre; std::vector<E> e;
      bool ghost = s.chance(1, 12); int b = s.chance(1, 3) ? 0 : s.range(0, nb - 1);
      pre[0] = ghost ? ghost_ref() : bus_ref(b); pre[1] = tag_text(ident(used[b]));
      for (int q = 0; q < 4; q++) pre[w + 2 * q] = str("%d", s.range(0, 9));
      int idx = ng[b];
      rec(gt, s.chance(1, 3) ? s.range(2, hi) : hi, t, e, idx, pre); put(t);
      if (ghost) continue;
      std::vector<E> &x = d.bus[num_[b]];
      x.insert(x.end(), e.begin(), e.end()); x.push_back(ei(GENERATOR_BUSNUMBER, idx, num_[b])); ng[b]++; d.ngen++; if (idx) d.npar++;
    }
    for (int b = 0; b < nb; b++) {
      std::vector<E> &x = d.bus[num_[b]];
      if (ng[b]) x.push_back(ei(GENERATOR_NUMBER, NONE, ng[b])); else x.push_back(no(GENERATOR_NUMBER, NONE, 'i'));
      x.push_back(no(GENERATOR_PG, ng[b], 'd')); x.push_back(no(GENERATOR_ID, ng[b], 's')); x.push_back(no(GENERATOR_STAT, ng[b], 'i'));
    }
  }
};

// ------------------------------------------------------------------ comparison
static std::string plain(std::string x) {
  std::string y; for (size_t q = 0; q < x.size(); q++) if (x[q] != '\'') y += x[q];
  size_t a = y.find_first_not_of(' '), b = y.find_last_not_of(' '); return a == std::string::npos ? "" : y.substr(a, b - a + 1);
}
static void check(Ctx &c, DC &dc, const std::vector<E> &es_, const char *what) {
  for (size_t k = 0; k < es_.size() && !c.failed; k++) {
    const E &e = es_[k]; bool ok = false; std::string got; bool same = true; const char *key = e.key.c_str();
    char buf[64]; snprintf(buf, sizeof buf, e.idx == NONE ? "" : "[%d]", e.idx);
    if (e.t == 'i') { int v = -777; ok = e.idx == NONE ? dc.getValue(key, &v) : dc.getValue(key, &v, e.idx); got = str("%d", v); same = v == e.i; if (!same) got += str(" instead of %d", e.i); }
    else if (e.t == 'd') { double v = -777; ok = e.idx == NONE ? dc.getValue(key, &v) : dc.getValue(key, &v, e.idx); same = close(v, e.d, 1e-12) && (v != 0) == (e.d != 0); got = str("%.10g instead of %.10g", v, e.d); }
    else if (e.t == 'z') { gridpack::ComplexType v(-777, -777); ok = e.idx == NONE ? dc.getValue(key, &v) : dc.getValue(key, &v, e.idx); same = v.real() == e.d && v.imag() == e.d2; got = str("(%g,%g) instead of (%g,%g)", v.real(), v.imag(), e.d, e.d2); }
    else if (e.t == 'b') { bool v = false; ok = e.idx == NONE ? dc.getValue(key, &v) : dc.getValue(key, &v, e.idx); same = v == (e.i != 0); got = str("%d instead of %d", (int)v, e.i); }
    else { std::string v = "?"; ok = e.idx == NONE ? dc.getValue(key, &v) : dc.getValue(key, &v, e.idx); same = e.t == 'q' ? plain(v) == plain(e.s) : v == e.s; got = "'" + v + "' instead of '" + e.s + "'"; }
    c.sub++;
    if (e.absent) { if (ok) c.fail(("unexpected:" + e.key).c_str(), "%s: %s%s is set (to %s) although the file does not give it", what, key, buf, got.substr(0, got.find(" instead")).c_str()); }
    else if (!ok) c.fail(("missing:" + e.key).c_str(), "%s: %s%s is not set", what, key, buf);
    else if (!same) c.fail(("value:" + e.key).c_str(), "%s: %s%s is %s", what, key, buf, got.c_str());
  }
}
static void check_net(Ctx &c, const Comm &comm, Net &net, Doc &d, bool owners = false) {
  std::map<int, int> nbus; std::map<BP, int> nbr; std::set<int> index; int total[2] = {0, 0}, all[2];
  for (int k = 0; k < net.numBuses() && !c.failed; k++) {
    int o = net.getOriginalBusIndex(k);
    std::map<int, std::vector<E> >::iterator i = d.bus.find(o);
    if (i == d.bus.end()) { c.fail("bus:unknown", "bus %d is not in the file", o); break; }
    if (nbus[o]++) c.fail("bus:twice", "bus %d is there twice on one process", o);
    if (net.getActiveBus(k)) total[0]++; else if (owners) continue;
    check(c, *net.getBusData(k), i->second, str("bus %d", o).c_str());
  }
  for (int k = 0; k < net.numBranches() && !c.failed; k++) {
    int a, b; net.getOriginalBranchEndpoints(k, &a, &b);
    BP p(a, b); std::map<BP, std::vector<E> >::iterator i = d.br.find(p);
    if (i == d.br.end()) { c.fail("branch:unknown", "branch %d-%d is not in the file", a, b); break; }
    if (nbr[p]++) c.fail("branch:twice", "branch %d-%d is there twice on one process", a, b);
    if (net.getActiveBranch(k)) total[1]++; else if (owners) continue;
    int ix = -1; if (!net.getBranchData(k)->getValue(BRANCH_INDEX, &ix)) c.fail("branch:index", "branch %d-%d has no BRANCH_INDEX", a, b);
    else if (!index.insert(ix).second) c.fail("branch:index", "two branches have BRANCH_INDEX %d", ix);
    check(c, *net.getBranchData(k), i->second, str("branch %d-%d", a, b).c_str());
  }
  if (!c.failed) check(c, *net.getNetworkData(), d.net, "network data");
  bool good = all_ok(c, comm);
  MPI_Allreduce(total, all, 2, MPI_INT, MPI_SUM, ::raw(comm));
  if (!good) return;
  if (all[0] != (int)d.buses.size()) c.fail("bus:count", "%d buses instead of %d", all[0], (int)d.buses.size());
  else if (all[1] != (int)d.branches.size()) c.fail("branch:count", "%d branches instead of %d", all[1], (int)d.branches.size());
}
static void write_file(const std::string &f, const std::vector<std::string> &l) {
  FILE *o = fopen(f.c_str(), "w"); if (!o) return;
  for (size_t k = 0; k < l.size(); k++) fprintf(o, "%s\n", l[k].c_str());
  fclose(o);
}
template <class P> static void check_tables(Ctx &c, const Comm &comm, P &parser, Doc &d) {
  if (comm.rank()) return;
  for (int id = 0; id < 40 && !c.failed; id++) {
    std::vector<double> t(1, -5), f(2, -5); parser.getImpedenceTable(id, t, f); c.sub++;
    const std::pair<std::vector<double>, std::vector<double> > &v = d.tabs.count(id) ? d.tabs[id] : std::pair<std::vector<double>, std::vector<double> >();
    if (t != v.first || f != v.second) c.fail("imped table", "impedance correction table %d has %d entries, the first (%g, %g), instead of %d entries, the first (%g, %g)", id, (int)t.size(), t.size() ? t[0] : 0, f.size() ? f[0] : 0, (int)v.first.size(), v.first.size() ? v.first[0] : 0, v.second.size() ? v.second[0] : 0);
  }
}
template <class P> static void run_parse(Ctx &c, const Comm &comm, boost::shared_ptr<Net> net, Doc &d, bool vec) {
  P parser(net);
  if (vec) { parser.parse(d.lines, true); check_tables(c, comm, parser, d); return; }
  std::string f = group_file(c, comm, "case") + ".raw";
  if (comm.rank() == 0) write_file(f, d.lines);
  comm.barrier(); parser.parse(f); comm.barrier(); check_tables(c, comm, parser, d);
}
template <> void run_parse<gridpack::parser::PTI23_parser<Net> >(Ctx &c, const Comm &comm, boost::shared_ptr<Net> net, Doc &d, bool) {
  gridpack::parser::PTI23_parser<Net> parser(net);
  std::string f = group_file(c, comm, "case") + ".raw";
  if (comm.rank() == 0) write_file(f, d.lines);
  comm.barrier(); parser.parse(f); comm.barrier();
}
static void read_case(Ctx &c, const Comm &comm, boost::shared_ptr<Net> net, Doc &d, int ver, bool vec) {
  switch (ver) {
    case 33: run_parse<gridpack::parser::PTI33_parser<Net> >(c, comm, net, d, vec); break;
    case 34: run_parse<gridpack::parser::PTI34_parser<Net> >(c, comm, net, d, vec); break;
    case 35: run_parse<gridpack::parser::PTI35_parser<Net> >(c, comm, net, d, vec); break;
    default: run_parse<gridpack::parser::PTI23_parser<Net> >(c, comm, net, d, false);
  }
}

static void p01(Source &s, Ctx &c) {
  Comm comm = pick_sub(s, c, 1, 6);
  Doc d; int ver = s.pick({33, 33, 34, 35, 23}); RawGen g(s, d, ver);
  g.noise = s.chance(3, 4);
  if (ver == 23) g.build23(c.size); else g.build(c.size);
  bool vec = s.flag(), part = s.flag();
  c.sample = strf("v%d %d buses %d loads %d shunts %d gens %d lines %d xf %d xf3 %d sw %s%s", ver, g.nb, d.nload, d.nshunt, d.ngen, d.nline, d.nxf2, d.nxf3, d.nsw, vec ? "vector" : "file", part ? " partitioned" : "");
  c.label(strf("v%d", ver)); if (d.nrev) c.label("reversed duplicate"); if (d.nxf3) c.label("3-winding"); if (d.nxf2) c.label("2-winding"); if (part) c.label("partitioned");
  c.nontrivial = d.npar > 0 && d.nload + d.nshunt + d.ngen > 2;
  if (getenv("PBT_SHOW") && c.rank == 0) for (size_t k = 0; k < d.lines.size(); k++) fprintf(stderr, "%s\n", d.lines[k].c_str());
  boost::shared_ptr<Net> net(new Net(comm));
  read_case(c, comm, net, d, ver, vec);
  check_net(c, comm, *net, d);
  if (!all_ok(c, comm) || !part) return;
  net->partition();
  check_net(c, comm, *net, d);
}

// ------------------------------------------------------------------ P02: dynamic models and unit commitment
struct DynGen {
  Source &s; Gen &g; Doc &d; bool lists, single, uc;       // lists: relays in file order, single: one record per attribute
  std::vector<std::string> lines;
  std::map<int, std::vector<std::string> > gens, loads; std::set<std::string> keys; std::map<std::string, char> types;
  std::map<int, int> relays; std::map<BP, int> brelays; std::set<std::string> seen; int nrec, nlost, nfield, nrep;
  std::vector<int> real; std::vector<BP> lines_;                    // buses and branches given in the file (no star points)
  DynGen(Source &s_, Gen &g_, Doc &d_, int nb) : s(s_), g(g_), d(d_), lists(true), single(false), uc(false), nrec(0), nlost(0), nfield(0), nrep(0) {
    real.assign(d.buses.begin(), d.buses.begin() + nb); std::set<int> rs(real.begin(), real.end());
    for (size_t k = 0; k < d.branches.size(); k++) if (rs.count(d.branches[k].first) && rs.count(d.branches[k].second)) lines_.push_back(d.branches[k]);
    for (std::map<int, std::vector<E> >::iterator i = d.bus.begin(); i != d.bus.end(); ++i)
      for (size_t k = 0; k < i->second.size(); k++) {
        E &e = i->second[k]; if (e.idx == NONE || e.absent) continue;
        std::vector<std::string> *v = e.key == GENERATOR_ID ? &gens[i->first] : e.key == LOAD_ID ? &loads[i->first] : 0;
        if (v) { if ((int)v->size() <= e.idx) v->resize(e.idx + 1); (*v)[e.idx] = e.s; }
      }
  }
  static void put(std::vector<E> &v, const E &e) {
    for (size_t k = 0; k < v.size(); k++) if (v[k].key == e.key && v[k].idx == e.idx && (v[k].t == e.t || (v[k].t == 'q' && e.t == 's'))) { char t = v[k].t; v[k] = e; v[k].t = t; return; }
    v.push_back(e);
  }
  static void drop(std::vector<E> &v, const char *key, int idx, char t) {
    for (size_t k = 0; k < v.size(); k++) if (v[k].key == key && v[k].idx == idx && (v[k].t == t || v[k].t == 'q')) { v.erase(v.begin() + k); return; }
  }
  std::string id(const std::string &t) { return g.tag_text(t.size() == 2 && t[1] == ' ' ? t.substr(0, 1) : t); }
  std::string some_id() { std::set<std::string> u; return g.ident(u); }
  int lost_bus() { int v; do v = s.range(1, 999997); while (d.bus.count(v)); return v; }
  int some_bus(const std::map<int, std::vector<std::string> > &m) {
    if (!m.size()) return real[s.range(0, (int)real.size() - 1)];
    std::map<int, std::vector<std::string> >::const_iterator i = m.begin(); std::advance(i, s.range(0, (int)m.size() - 1)); return i->first;
  }
  // one record of a model; the attributes it sets are added to the expectations
  void record(const dyr::Model &m) {
    Toks t(m.n); std::string nm = m.usr ? m.usr : m.name;
    bool low = s.chance(1, 6); if (low) for (size_t q = 0; q < nm.size(); q++) nm[q] = tolower(nm[q]);
    for (int k = 0; k < m.n; k++) t[k] = g.num();
    t[1] = s.flag() ? "'" + nm + "'" : nm;
    if (m.usr) t[3] = s.flag() ? str("'%s'", m.name) : m.name;
    std::map<int, std::string> tags;
    for (int k = 0; m.f[k].key && k < 160; k++) { if (m.f[k].t == 'i') t[m.f[k].c] = g.integer(); if (m.f[k].t == 'g' && m.f[k].c > 2) { std::string x = some_id(); for (size_t q = 0; q < x.size(); q++) x[q] = toupper(x[q]); t[m.f[k].c] = g.tag_text(x); tags[m.f[k].c] = Gen::pad2(x); } }
    std::vector<E> *dst = 0; int idx = -1; std::string where; int bus = 0;
    if (m.on == 'g' || m.on == 'l') {
      std::map<int, std::vector<std::string> > &dev = m.on == 'g' ? gens : loads;
      bool lost = s.chance(1, 8); bus = lost ? lost_bus() : some_bus(dev); t[0] = str("%d", bus);
      std::string x = some_id(), p = Gen::pad2(x);
      if (!lost && dev.count(bus) && !s.chance(1, 8)) { idx = s.range(0, (int)dev[bus].size() - 1); if (dev[bus][idx] == "") idx = -1; else p = dev[bus][idx]; }
      if (idx < 0) { if (!lost && dev.count(bus)) for (size_t q = 0; q < dev[bus].size(); q++) if (dev[bus][q] == p) idx = q; }
      t[2] = id(p); tags[2] = p; if (idx >= 0) dst = &d.bus[bus];
      where = str("%d/%d/", bus, idx);
    } else if (m.on == 'b') {
      int col = !strcmp(m.name, "FRQTPAT") ? 3 : 0; bool lost = s.chance(1, 8);
      bus = lost ? lost_bus() : real[s.range(0, (int)real.size() - 1)]; 
      if (!lost && !lists && relays.count(bus)) return;
      t[col] = str("%d", bus); if (!lost) { dst = &d.bus[bus]; idx = relays[bus]++; }
      for (int k = 0; m.f[k].key; k++) if (m.f[k].t == 'g') { std::string x = some_id(); t[m.f[k].c] = g.tag_text(x); tags[m.f[k].c] = Gen::pad2(x); }
    } else {
      bool lost = s.chance(1, 8) || !lines_.size(); BP p;
      if (lost) p = BP(lost_bus(), d.buses[0]); else p = lines_[s.range(0, (int)lines_.size() - 1)];
      if (!lost && !lists && brelays.count(p)) return;
      t[0] = str("%d", p.first); t[2] = str("%d", p.second); if (!lost) { dst = &d.br[p]; idx = brelays[p]++; }
    }
    if (single && dst && m.on != 'b' && m.on != 'r')
      for (int k = 0; m.f[k].key; k++) if (m.f[k].t != 'b' && seen.count(where + m.f[k].key)) return;
    int n = m.n; if (s.chance(1, 8)) n = s.range(m.on == 'g' ? 3 : 4, m.n);
    write(Toks(t.begin(), t.begin() + n)); nrec++; if (!dst) { nlost++; return; }
    for (int k = 0; m.f[k].key; k++) {
      const dyr::F &f = m.f[k]; char ty = f.t == 'i' || f.t == 'd' ? f.t : f.t == 'b' ? 'b' : 's';
      if (!seen.insert(where + f.key).second) nrep++;
      keys.insert(f.key); types[f.key] = ty;
      if (f.c >= n) { drop(*dst, f.key, idx, ty); if (m.on != 'r') dropped.insert(str("%d/%s:%d", bus, f.key, idx)); continue; }         // missing at the end of the record
      nfield++;
      switch (f.t) {
        case 'i': put(*dst, ei(f.key, idx, atoi(t[f.c].c_str()))); break;
        case 'd': put(*dst, ed(f.key, idx, atof(t[f.c].c_str()))); break;
        case 'b': put(*dst, eb(f.key, idx, true)); break;
        case 'm': put(*dst, es(f.key, idx, m.name)); break;
        default: put(*dst, es(f.key, idx, tags[f.c])); 
          if (!strcmp(f.key, GENERATOR_REPCA_BRCH_CKT)) for (size_t q = 0; q < dst->size(); q++) if ((*dst)[q].key == f.key) (*dst)[q].t = 'q';
      }
    }
    if (m.on == 'b' || m.on == 'r') put(*dst, ei(RELAY_NUMBER, NONE, idx + 1));
  }
  void write(const Toks &t) {
    std::string l = s.chance(1, 4) ? "   " : ""; bool cr = s.chance(1, 8);
    for (size_t k = 0; k < t.size(); k++) {
      l += t[k]; if (k + 1 == t.size()) break;
      std::string sep;
      switch (s.range(0, 5)) { case 0: sep = ","; break; case 1: sep = ", "; break; case 2: sep = " , "; break; case 3: sep = "\t"; break; case 4: sep = "   "; break; default: sep = " "; }
      if (s.chance(1, 10)) {                                            // split the record here
        bool before = sep.find(',') != std::string::npos && s.flag();
        if (before) { end(l, cr); l = sep; } else { if (s.flag()) l += sep; else if (sep.find(',') != std::string::npos) l += ","; end(l, cr); l = s.flag() ? "     " : ""; }
        if (s.chance(1, 8)) end("", cr);
      } else l += sep;
    }
    switch (s.range(0, 4)) { case 0: l += "/"; break; case 1: l += " / comment 'x', 1.0 2"; break; case 2: end(l, cr); l = "/"; break; default: l += " /"; }
    end(l, cr);
    switch (s.range(0, 11)) { case 0: end("", cr); break; case 1: end("   ", cr); break; case 2: end("// a comment line / with 1 'GENCLS' 1", cr); break; case 3: end("/ another comment", cr); break; default: break; }
  }
  void end(const std::string &l, bool cr) { lines.push_back(cr ? l + "\r" : l); }
  void unknown() {
    int b = some_bus(gens); std::string x = gens.size() && gens[b].size() && gens[b][0].size() ? id(gens[b][0]) : "1";
    Toks t; t.push_back(str("%d", b)); static const char *U[] = {"'XYZ9'", "GENTPJ1", "'IEEEG1'", "GEN"}; t.push_back(U[s.range(0, 3)]); t.push_back(x); int n = s.range(0, 12); for (int k = 0; k < n; k++) t.push_back(g.num()); write(t); nrec++; nlost++;
  }
  void build(int size, bool external) {
    int n = s.range(1, 6 + 2 * size);
    // sometimes the usual full set of models of a machine, otherwise any model
    for (int k = 0; k < n; k++) {
      if (s.chance(1, 12)) { unknown(); continue; }
      int q = s.range(0, dyr::NMODELS - 1);
      if (dyr::MODELS[q].on != 'g' && s.chance(1, 3)) q = s.range(0, dyr::NMODELS - 1);
      if (external && !strcmp(dyr::MODELS[q].name, "CMLDBLU1")) continue;   // adds buses to the network
      record(dyr::MODELS[q]);
    }
    if (!lines.size()) lines.push_back("");
  }
  void build_uc(int size) {
    uc = true; lines.push_back("  name, type, init");
    int n = s.range(1, 6 + 2 * size);
    for (int k = 0; k < n; k++) {
      Toks t(19); t[0] = str("G%d", k); t[1] = g.integer(); for (int q = 2; q < 17; q++) t[q] = g.num();
      bool lost = s.chance(1, 8); int b = lost ? lost_bus() : some_bus(gens), idx = -1; std::string x = some_id(), p = Gen::pad2(x);
      if (!lost && gens.count(b) && !s.chance(1, 8)) { idx = s.range(0, (int)gens[b].size() - 1); if (gens[b][idx] == "") idx = -1; else p = gens[b][idx]; }
      if (idx < 0 && !lost && gens.count(b)) for (size_t q = 0; q < gens[b].size(); q++) if (gens[b][q] == p) idx = q;
      std::string w = str("%d/%d", b, idx); if (idx >= 0 && single && !seen.insert(w).second) continue;
      t[17] = str("%d", b); t[18] = id(p);
      std::string l = t[0]; for (int q = 1; q < 19; q++) l += (s.flag() ? "," : s.flag() ? " " : ", ") + t[q];
      lines.push_back(l); nrec++; if (idx < 0) { nlost++; continue; }
      for (size_t q = 0; q < sizeof(dyr::UC) / sizeof(dyr::UC[0]); q++) {
        const dyr::F &f = dyr::UC[q]; keys.insert(f.key); types[f.key] = f.t; nfield++;
        put(d.bus[b], f.t == 'i' ? ei(f.key, idx, atoi(t[f.c].c_str())) : ed(f.key, idx, atof(t[f.c].c_str())));
      }
    }
    if (s.chance(1, 4)) lines.push_back("");
  }
  // attributes named in the file which a machine, load, bus or branch does not have
  void absent() {
    std::vector<std::string> ks(keys.begin(), keys.end());
    for (size_t q = 0; q < ks.size() && q < 30; q++) { size_t r = q + s.range(0, (int)(ks.size() - q) - 1); std::swap(ks[q], ks[r]); }
    if (ks.size() > 30) ks.resize(30);
    for (std::map<int, std::vector<E> >::iterator i = d.bus.begin(); i != d.bus.end(); ++i) {
      std::set<std::string> have; for (size_t k = 0; k < i->second.size(); k++) have.insert(str("%s:%d", i->second[k].key.c_str(), i->second[k].idx));
      int n = 1; if (gens.count(i->first)) n = std::max(n, (int)gens[i->first].size()); if (loads.count(i->first)) n = std::max(n, (int)loads[i->first].size());
      for (int x = 0; x <= n; x++) for (size_t q = 0; q < ks.size(); q++) {
        std::string h = str("%s:%d", ks[q].c_str(), x); if (have.count(h) || dropped.count(str("%d/", i->first) + h)) continue;
        i->second.push_back(no(ks[q].c_str(), x, types[ks[q]]));
      }
    }
  }
  std::set<std::string> dropped;
};
template <class P> static void dyn_vec(boost::shared_ptr<P> p, std::vector<std::string> &l) { p->parse(l, false); }
template <> void dyn_vec(boost::shared_ptr<gridpack::parser::PTI23_parser<Net> >, std::vector<std::string> &) {}
// mode 0: file, 1: lines, before partitioning; 2: external file before, 3: external file after partitioning
template <class P> static void run_dyn(Source &s, Ctx &c, const Comm &comm, boost::shared_ptr<Net> net, Doc &d, DynGen &dg, int mode) {
  boost::shared_ptr<P> parser(new P(net));
  std::string f = group_file(c, comm, "case"), raw = f + ".raw", dynf = f + (dg.uc ? s.flag() ? ".uc" : ".UC" : s.flag() ? ".dyr" : s.flag() ? ".DYR" : ".x.dyr");
  if (comm.rank() == 0) { write_file(raw, d.lines); write_file(dynf, dg.lines); }
  comm.barrier(); parser->parse(raw);
  if (mode == 0) parser->parse(dynf); else if (mode == 1) dyn_vec(parser, dg.lines);
  else if (mode == 2) parser->externalParse(dynf);
  if (mode == 3 || s.chance(2, 3)) net->partition();
  if (mode == 3) parser->externalParse(dynf);
  comm.barrier();
}
static void p02(Source &s, Ctx &c) {
  Comm comm = pick_sub(s, c, 1, 6);
  Doc d; int ver = s.pick({33, 33, 34, 35, 23}); RawGen g(s, d, ver);
  g.noise = false;
  if (ver == 23) g.build23(c.size); else g.build(c.size);
  int mode = s.range(0, 3); if (ver == 23 && mode == 1) mode = 0;
  DynGen dg(s, g, d, g.nb); dg.lists = mode < 2 || comm.size() == 1; dg.single = mode >= 2 && comm.size() > 1;
  bool uc = mode >= 2 && s.chance(1, 4);
  if (uc) dg.build_uc(c.size); else dg.build(c.size, mode >= 2);
  dg.absent();
  static const char *MN[] = {"file", "lines", "external", "external, distributed"};
  c.sample = strf("v%d %d buses %d gens %d loads; %s%s: %d records (%d for nothing in the network), %d fields", ver, (int)d.buses.size(), d.ngen, d.nload, MN[mode], uc ? " unit commitment" : "", dg.nrec, dg.nlost, dg.nfield);
  c.label(MN[mode]); if (uc) c.label("unit commitment"); if (dg.nlost) c.label("records for nothing"); if (dg.nrep) c.label("repeated fields");
  c.nontrivial = dg.nrec - dg.nlost > 0 && dg.nfield > 3;
  if (getenv("PBT_SHOW") && c.rank == 0) { for (size_t k = 0; k < d.lines.size(); k++) fprintf(stderr, "%s\n", d.lines[k].c_str()); for (size_t k = 0; k < dg.lines.size(); k++) fprintf(stderr, "%s\n", dg.lines[k].c_str()); }
  boost::shared_ptr<Net> net(new Net(comm));
  switch (ver) {
    case 33: run_dyn<gridpack::parser::PTI33_parser<Net> >(s, c, comm, net, d, dg, mode); break;
    case 34: run_dyn<gridpack::parser::PTI34_parser<Net> >(s, c, comm, net, d, dg, mode); break;
    case 35: run_dyn<gridpack::parser::PTI35_parser<Net> >(s, c, comm, net, d, dg, mode); break;
    default: run_dyn<gridpack::parser::PTI23_parser<Net> >(s, c, comm, net, d, dg, mode);
  }
  check_net(c, comm, *net, d, mode >= 2);
}

// ------------------------------------------------------------------ P03: export and import again
struct Fld { const char *key; char t; double dflt; };
typedef std::map<std::string, std::map<std::string, std::string> > Dump;
static std::string item(DC &dc, const char *key, char t, int idx, bool &ok) {
  switch (t) {
    case 'j': { int v = 0; double x = 0; ok = dc.getValue(key, &v, idx); if (ok) return str("%d", v); ok = dc.getValue(key, &x, idx); return str("%.17g", x); }   // only noted
    case 'i': { int v = 0; ok = idx == NONE ? dc.getValue(key, &v) : dc.getValue(key, &v, idx); return str("%d", v); }
    case 'd': { double v = 0; ok = idx == NONE ? dc.getValue(key, &v) : dc.getValue(key, &v, idx); return str("%.17g", v); }
    case 'x': case 'y': { gridpack::ComplexType v(0, 0); ok = idx == NONE ? dc.getValue(key, &v) : dc.getValue(key, &v, idx); return str("%.17g", t == 'x' ? v.real() : v.imag()); }
    default: { std::string v; ok = idx == NONE ? dc.getValue(key, &v) : dc.getValue(key, &v, idx); return plain(v); }
  }
}
static const Fld P3BUS[] = {{BUS_NUMBER, 'i', 0}, {BUS_NAME, 's', 0}, {BUS_BASEKV, 'd', 0}, {BUS_TYPE, 'i', 1}, {BUS_AREA, 'i', 1}, {BUS_ZONE, 'i', 1}, {BUS_OWNER, 'i', 1}, {BUS_VOLTAGE_MAG, 'd', 1}, {BUS_VOLTAGE_ANG, 'd', 0}, {BUS_VOLTAGE_MAX, 'd', 1.1}, {BUS_VOLTAGE_MIN, 'd', 0.9}, {CASE_SBASE, 'd', 0}, {CASE_ID, 'i', 0}, {0, 0, 0}};
static const Fld P3LOAD[] = {{LOAD_BUSNUMBER, 'i', 0}, {LOAD_ID, 's', 0}, {LOAD_STATUS, 'i', 1}, {LOAD_AREA, 'i', 1}, {LOAD_ZONE, 'i', 1}, {LOAD_PL, 'd', 0}, {LOAD_QL, 'd', 0}, {LOAD_IP, 'd', 0}, {LOAD_IQ, 'd', 0}, {LOAD_YP, 'd', 0}, {LOAD_YQ, 'd', 0}, {0, 0, 0}};
static const Fld P3SHUNT[] = {{SHUNT_BUSNUMBER, 'i', 0}, {SHUNT_ID, 's', 0}, {SHUNT_STATUS, 'i', 1}, {BUS_SHUNT_GL, 'd', 0}, {BUS_SHUNT_BL, 'd', 0}, {0, 0, 0}};
static const Fld P3GEN[] = {{GENERATOR_BUSNUMBER, 'i', 0}, {GENERATOR_ID, 's', 0}, {GENERATOR_PG, 'd', 0}, {GENERATOR_QG, 'd', 0}, {GENERATOR_QMAX, 'd', 9999}, {GENERATOR_QMIN, 'd', -9999}, {GENERATOR_VS, 'd', 1}, {GENERATOR_IREG, 'i', 0}, {GENERATOR_MBASE, 'd', 100}, {GENERATOR_ZSOURCE, 'x', 0}, {GENERATOR_ZSOURCE, 'y', 1}, {GENERATOR_XTRAN, 'x', 0}, {GENERATOR_XTRAN, 'y', 0},
  {GENERATOR_GTAP, 'd', 1}, {GENERATOR_STAT, 'i', 1}, {GENERATOR_RMPCT, 'd', 100}, {GENERATOR_PMAX, 'd', 9999}, {GENERATOR_PMIN, 'd', -9999}, {GENERATOR_OWNER1, 'i', 0}, {GENERATOR_OFRAC1, 'd', 1}, {GENERATOR_OWNER2, 'i', 0}, {GENERATOR_OFRAC2, 'd', 0}, {GENERATOR_OWNER3, 'i', 0}, {GENERATOR_OFRAC3, 'd', 0}, {GENERATOR_OWNER4, 'i', 0}, {GENERATOR_OFRAC4, 'd', 0},
  {GENERATOR_WMOD, 'i', 0}, {GENERATOR_WPF, 'd', 1}, {GENERATOR_NREG, 'i', 0}, {0, 0, 0}};
static const Fld P3SW[] = {{SHUNT_MODSW, 'i', 1}, {SHUNT_ADJM, 'i', 0}, {SHUNT_SWCH_STAT, 'i', 1}, {SHUNT_VSWHI, 'd', 1}, {SHUNT_VSWLO, 'd', 1}, {SHUNT_SWREM, 'i', 0}, {SHUNT_SWREG, 'i', 0}, {SHUNT_RMPCT, 'd', 100}, {SHUNT_RMIDNT, 's', 0}, {SHUNT_BINIT, 'd', 0}, {SHUNT_N1, 'i', 0}, {SHUNT_B1, 'd', 0}, {SHUNT_N2, 'i', 0}, {SHUNT_B2, 'd', 0}, {SHUNT_N3, 'i', 0}, {SHUNT_B3, 'd', 0}, {SHUNT_N4, 'i', 0}, {SHUNT_B4, 'd', 0},
  {SHUNT_N5, 'i', 0}, {SHUNT_B5, 'd', 0}, {SHUNT_N6, 'i', 0}, {SHUNT_B6, 'd', 0}, {SHUNT_N7, 'i', 0}, {SHUNT_B7, 'd', 0}, {SHUNT_N8, 'i', 0}, {SHUNT_B8, 'd', 0}, {SHUNT_NREG, 'i', 0}, {0, 0, 0}};
static const Fld P3BR[] = {{BRANCH_CKT, 's', 0}, {BRANCH_R, 'd', 0}, {BRANCH_X, 'd', 0}, {BRANCH_B, 'd', 0}, {BRANCH_TAP, 'd', 0}, {BRANCH_SHIFT, 'd', 0}, {BRANCH_STATUS, 'i', 1}, {BRANCH_SHUNT_ADMTTNC_G1, 'd', 0}, {BRANCH_SHUNT_ADMTTNC_B1, 'd', 0}, {BRANCH_SHUNT_ADMTTNC_G2, 'd', 0}, {BRANCH_SHUNT_ADMTTNC_B2, 'd', 0}, {BRANCH_METER, 'i', 1}, {BRANCH_LENGTH, 'd', 0}, {BRANCH_NAME, 's', 0},
  {BRANCH_RATING_A, 'd', 0}, {BRANCH_RATING_B, 'd', 0}, {BRANCH_RATING_C, 'd', 0}, {BRANCH_RATE1, 'd', 0}, {BRANCH_RATE2, 'd', 0}, {BRANCH_RATE3, 'd', 0}, {BRANCH_RATE4, 'd', 0}, {BRANCH_RATE5, 'd', 0}, {BRANCH_RATE6, 'd', 0}, {BRANCH_RATE7, 'd', 0}, {BRANCH_RATE8, 'd', 0}, {BRANCH_RATE9, 'd', 0}, {BRANCH_RATE10, 'd', 0}, {BRANCH_RATE11, 'd', 0}, {BRANCH_RATE12, 'd', 0},
  {BRANCH_O1, 'i', 1}, {BRANCH_F1, 'd', 0}, {BRANCH_O2, 'i', 0}, {BRANCH_F2, 'd', 0}, {BRANCH_O3, 'i', 0}, {BRANCH_F3, 'd', 0}, {BRANCH_O4, 'i', 0}, {BRANCH_F4, 'd', 0},
  {TRANSFORMER_MAG1, 'd', 0}, {TRANSFORMER_MAG2, 'd', 0}, {TRANSFORMER_NMETR, 'i', 2}, {TRANSFORMER_CZ, 'j', 1}, {TRANSFORMER_SBASE1_2, 'j', 0}, {TRANSFORMER_WINDV1, 'd', 1}, {TRANSFORMER_WINDV2, 'd', 1}, {TRANSFORMER_ANG1, 'd', 0}, {TRANSFORMER_CODE1, 'i', 0}, {TRANSFORMER_RMA, 'd', 1.1}, {TRANSFORMER_RMI, 'd', 0.9}, {TRANSFORMER_VMA, 'd', 1.1}, {TRANSFORMER_VMI, 'd', 0.9},
  {TRANSFORMER_NTP, 'i', 33}, {TRANSFORMER_TAB, 'i', 0}, {TRANSFORMER_CR, 'd', 0}, {TRANSFORMER_CX, 'd', 0}, {TRANSFORMER_CNXA, 'd', 0}, {TRANSFORMER_CONTROL, 'i', 0}, {TRANSFORMER_STEP, 'd', 0}, {TRANSFORMER_TABLE, 'd', 0}, {0, 0, 0}};
static const Fld P3AREA[] = {{AREAINTG_NUMBER, 'i', 0}, {AREAINTG_ISW, 'i', 0}, {AREAINTG_PDES, 'd', 0}, {AREAINTG_PTOL, 'd', 10}, {AREAINTG_NAME, 's', 0}, {0, 0, 0}};
static void dump_fields(std::string &out, const std::string &who, DC &dc, const Fld *f, int idx) {
  out += who + "\t\t\n";
  for (; f->key; f++) { bool ok = false; std::string v = item(dc, f->key, f->t, idx, ok); if (ok) out += who + "\t" + f->key + (f->t == 'x' ? ".re" : f->t == 'y' ? ".im" : "") + str(" %c%.17g", f->t, f->dflt) + "\t" + v + "\n"; }
}
// every bus, load, shunt, generator, switched shunt and branch element with its values, gathered on process 0
static Dump dump(const Comm &comm, Net &net) {
  std::string out;
  for (int k = 0; k < net.numBuses(); k++) {
    if (!net.getActiveBus(k)) continue;
    DC &dc = *net.getBusData(k); std::string b = str("bus %d", net.getOriginalBusIndex(k)); int n, v;
    dump_fields(out, b, dc, P3BUS, NONE);
    n = 0; dc.getValue(LOAD_NUMBER, &n); for (int q = 0; q < n; q++) dump_fields(out, b + str(" load %d", q), dc, P3LOAD, q);
    n = 0; dc.getValue(SHUNT_NUMBER, &n); for (int q = 0; q < n; q++) dump_fields(out, b + str(" shunt %d", q), dc, P3SHUNT, q);
    n = 0; dc.getValue(GENERATOR_NUMBER, &n); for (int q = 0; q < n; q++) dump_fields(out, b + str(" generator %d", q), dc, P3GEN, q);
    if (dc.getValue(SWSHUNT_BUSNUMBER, &v)) dump_fields(out, b + " switched shunt", dc, P3SW, NONE);
  }
  for (int k = 0; k < net.numBranches(); k++) {
    if (!net.getActiveBranch(k)) continue;
    DC &dc = *net.getBranchData(k); int a, b, n = 0; net.getOriginalBranchEndpoints(k, &a, &b); dc.getValue(BRANCH_NUM_ELEMENTS, &n);
    for (int q = 0; q < n; q++) {
      bool sw = false; dc.getValue(BRANCH_SWITCHED, &sw, q); std::string id; dc.getValue(BRANCH_CKT, &id, q);
      std::string who = str("element %s from %d to %d", plain(id).c_str(), sw ? b : a, sw ? a : b);
      dump_fields(out, who, dc, P3BR, q);
    }
  }
  if (comm.rank() == 0) { DC &dc = *net.getNetworkData(); int n = 0; dc.getValue(AREA_TOTAL, &n); for (int q = 0; q < n; q++) dump_fields(out, str("area %d", q), dc, P3AREA, q); }
  MPI_Comm mc = ::raw(comm); int len = (int)out.size(); std::vector<int> lens(comm.size()), off(comm.size());
  MPI_Gather(&len, 1, MPI_INT, &lens[0], 1, MPI_INT, 0, mc);
  int tot = 0; if (comm.rank() == 0) for (int k = 0; k < comm.size(); k++) { off[k] = tot; tot += lens[k]; }
  std::string all(std::max(tot, 1), ' '); MPI_Gatherv(const_cast<char *>(out.data()), len, MPI_CHAR, &all[0], &lens[0], &off[0], MPI_CHAR, 0, mc);
  Dump d; size_t p = 0;
  while (p < (size_t)tot) { size_t e = all.find('\n', p); std::string l = all.substr(p, e - p); p = e + 1; size_t a = l.find('\t'), b = l.find('\t', a + 1); std::map<std::string, std::string> &m = d[l.substr(0, a)]; if (b > a + 1) m[l.substr(a + 1, b - a - 1)] = l.substr(b + 1); }
  return d;
}
template <template <class> class X> static void do_export(boost::shared_ptr<Net> net, const std::string &f) { X<Net> x(net); x.writeFile(f); }
static void p03(Source &s, Ctx &c) {
  Comm comm = pick_sub(s, c, 1, 6);
  Doc d; int ver = s.pick({33, 33, 34, 23}); RawGen g(s, d, ver);
  g.noise = false; g.plain_mag = true;
  if (ver == 23) g.build23(c.size); else g.build(c.size);
  bool part = s.flag(); int to = ver != 23 && s.chance(1, 4) ? 67 - ver : ver;       // version written
  if (to != ver) c.label("other version");
  c.sample = strf("v%d written as v%d: %d buses %d loads %d shunts %d gens %d lines %d xf %d xf3 %d sw%s", ver, to, g.nb, d.nload, d.nshunt, d.ngen, d.nline, d.nxf2, d.nxf3, d.nsw, part ? " partitioned" : "");
  c.label(strf("v%d", ver)); if (d.nrev) c.label("reversed duplicate"); if (d.nxf3) c.label("3-winding"); if (d.nxf2) c.label("2-winding"); if (part) c.label("partitioned");
  c.nontrivial = d.npar > 0 && d.nload + d.nshunt + d.ngen > 2;
  if (getenv("PBT_SHOW") && c.rank == 0) for (size_t k = 0; k < d.lines.size(); k++) fprintf(stderr, "%s\n", d.lines[k].c_str());
  boost::shared_ptr<Net> net(new Net(comm)), back(new Net(comm));
  read_case(c, comm, net, d, ver, false);
  if (part) net->partition();
  Dump before = dump(comm, *net);
  std::string f = group_file(c, comm, "out") + ".raw";
  switch (to) {
    case 33: do_export<gridpack::expnet::PSSE33Export>(net, f); break;
    case 34: do_export<gridpack::expnet::PSSE34Export>(net, f); break;
    default: do_export<gridpack::expnet::PSSE23Export>(net, f);
  }
  comm.barrier();
  if (getenv("PBT_SHOW") && comm.rank() == 0) { FILE *in = fopen(f.c_str(), "r"); char b[2000]; while (in && fgets(b, sizeof b, in)) fprintf(stderr, "> %s", b); if (in) fclose(in); }
  switch (to) {
    case 33: { gridpack::parser::PTI33_parser<Net> p(back); p.parse(f); break; }
    case 34: { gridpack::parser::PTI34_parser<Net> p(back); p.parse(f); break; }
    default: { gridpack::parser::PTI23_parser<Net> p(back); p.parse(f); }
  }
  comm.barrier();
  Dump after = dump(comm, *back);
  if (comm.rank()) return;
  for (Dump::iterator i = before.begin(); i != before.end() && !c.failed; ++i) {
    std::string kind = i->first.substr(0, i->first.find(' ')); size_t sp = i->first.find(' ', kind.size() + 1); if (kind == "bus" && sp != std::string::npos) kind = i->first.substr(sp + 1, i->first.find(' ', sp + 1) - sp - 1);
    Dump::iterator j = after.find(i->first);
    if (j == after.end() && ver == 23 && (kind == "load" || kind == "shunt")) {            // columns of the bus there, zero if smaller than what is written
      std::map<std::string, std::string> &m = i->second; bool tiny = true;
      for (std::map<std::string, std::string>::iterator k = m.begin(); k != m.end(); ++k) { size_t q = k->first.rfind(' '); if (k->first[q + 1] == 'd' && fabs(atof(k->second.c_str())) > 5.1e-7) tiny = false; }
      if (tiny) continue;
    }
    if (j == after.end()) { c.fail(("lost:" + kind).c_str(), "%s is not in the exported network", i->first.c_str()); break; }
    for (std::map<std::string, std::string>::iterator k = i->second.begin(); k != i->second.end() && !c.failed; ++k) {
      std::map<std::string, std::string>::iterator m = j->second.find(k->first); c.sub++;
      size_t q = k->first.rfind(' '); std::string key = k->first.substr(0, q); char t = k->first[q + 1]; double dflt = atof(k->first.c_str() + q + 2);
      std::string v = m == j->second.end() ? (t == 's' ? std::string() : str("%.17g", dflt)) : m->second;
      if (t == 'j') continue;
      if (to != ver) {                                                     // fields which only one of the versions has
        static const char *O[] = {TRANSFORMER_NTP, TRANSFORMER_TAB, TRANSFORMER_CR, TRANSFORMER_CX, TRANSFORMER_CNXA, SHUNT_SWREM, SHUNT_SWREG, SHUNT_NREG, GENERATOR_NREG, BRANCH_NAME, BRANCH_RATE1, BRANCH_RATE2, BRANCH_RATE3, BRANCH_RATE4, BRANCH_RATE5, BRANCH_RATE6, BRANCH_RATE7, BRANCH_RATE8, BRANCH_RATE9, BRANCH_RATE10, BRANCH_RATE11, BRANCH_RATE12};
        bool skip = false; for (size_t x = 0; x < sizeof(O) / sizeof(O[0]); x++) if (key == O[x]) skip = true; if (skip) continue;
      }
      if (kind == "element" && key.size() > 8 && key.compare(0, 8, "BRANCH_O") == 0 && !i->second.count("BRANCH_F" + key.substr(8) + " d0")) continue;   // an owner without a fraction
      bool same = t == 's' ? v == k->second : t == 'i' ? atoi(v.c_str()) == atoi(k->second.c_str()) : false;
      if (t != 's' && t != 'i') {
        double a = atof(k->second.c_str()), b = atof(v.c_str()); if (key == BRANCH_TAP) { if (a == 0) a = 1; if (b == 0) b = 1; }
        // impedances are written on the base and for the turns ratios of the transformer
        double scale = 1.5; std::map<std::string, std::string>::iterator z = i->second.find(TRANSFORMER_CZ + std::string(" j1")), b_ = i->second.find(TRANSFORMER_SBASE1_2 + std::string(" j0"));
        if (z != i->second.end() && z->second == "2" && b_ != i->second.end() && atof(b_->second.c_str()) > 0) scale *= g.sbase / atof(b_->second.c_str());
        double tol = key == BRANCH_R || key == BRANCH_X ? 5.1e-7 * scale + 4e-6 * fabs(a) : key == BRANCH_TAP ? 3e-6 * (1 + fabs(a)) : 5.1e-7 + 1e-9 * fabs(a);
        same = fabs(a - b) <= tol || (key == BRANCH_TAP && fabs(atof(k->second.c_str()) - atof(v.c_str())) <= 5.1e-7);
      }
      if (!same) c.fail((kind + ":" + key).c_str(), "%s: %s is %s instead of %s after export and import", i->first.c_str(), key.c_str(), m == j->second.end() ? "not set" : m->second.c_str(), k->second.c_str());
    }
  }
  for (Dump::iterator j = after.begin(); j != after.end() && !c.failed; ++j) if (!before.count(j->first)) c.fail("unexpected", "%s appears in the exported network", j->first.c_str());
}

int main(int argc, char **argv) {
  Registry r;
  r["P01"] = p01;
  r["P02"] = p02;
  r["P03"] = p03;
  return pbt_main(argc, argv, r);
}
