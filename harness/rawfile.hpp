// Writer of PSS/E raw cases: produces the text of a file together with what the
// format says every field means (the expected attributes of every bus and branch).
#ifndef PBT_RAWFILE_HPP
#define PBT_RAWFILE_HPP
#include "pbt.hpp"
#include "gridpack/parser/dictionary.hpp"
#include <limits.h>
#include <algorithm>

namespace rawf {
using pbt::Source; using pbt::str;
typedef std::vector<std::string> Toks;
static const int NONE = INT_MIN;
struct E { std::string key; int idx; char t; bool absent; int i; double d, d2; std::string s; };
typedef std::pair<int,int> BP;
struct Doc { std::map<int, std::pair<std::vector<double>, std::vector<double> > > tabs; int ntab = 0;
  std::vector<std::string> lines;
  std::vector<int> buses;                    // in file order, with the buses of three-winding transformers
  std::vector<BP> branches;
  std::map<int, std::vector<E> > bus; std::map<BP, std::vector<E> > br; std::vector<E> net;
  int nload, nshunt, ngen, nline, nxf2, nxf3, nsw, narea, nrev, npar;
  Doc() : nload(0), nshunt(0), ngen(0), nline(0), nxf2(0), nxf3(0), nsw(0), narea(0), nrev(0), npar(0) {}
};
// i int, I 0/1, d double, D double also stored without index for the first element, z complex (two columns),
// g two-character identifier, f owner fraction (1 if missing), h owner fraction (0 if missing), q quoted text
struct F { const char *key; char t; int c; };
typedef std::vector<F> Tab;

inline E mk(const char *k, int idx, char t) { E e; e.key = k; e.idx = idx; e.t = t; e.absent = false; e.i = 0; e.d = e.d2 = 0; return e; }
inline E ei(const char *k, int idx, int v) { E e = mk(k, idx, 'i'); e.i = v; return e; }
inline E ed(const char *k, int idx, double v) { E e = mk(k, idx, 'd'); e.d = v; return e; }
inline E es(const char *k, int idx, const std::string &v) { E e = mk(k, idx, 's'); e.s = v; return e; }
inline E eb(const char *k, int idx, bool v) { E e = mk(k, idx, 'b'); e.i = v; return e; }
inline E no(const char *k, int idx, char t) { E e = mk(k, idx, t); e.absent = true; return e; }

struct Gen {
  Source &s; Doc &d; int ver; bool noise;
  Gen(Source &s_, Doc &d_, int v) : s(s_), d(d_), ver(v), noise(true) {}
  std::string num() {
    switch (s.range(0, 7)) {
      case 0: return "0.0"; case 1: return str("%d", s.range(-3, 400));
      case 2: return str("%.4f", s.range(-99999, 99999) / 10000.0);
      case 3: return str("%.3f", s.range(-999999, 999999) / 1000.0);
      case 4: return str("%.5E", s.range(1, 99999) / 10000.0 * (s.flag() ? 1e-4 : 1e3));
      case 5: return str(".%d", s.range(1, 99)); case 6: return str("-%d.", s.range(1, 99));
      default: return str("%.6g", s.range(1, 999999) / 1e5);
    }
  }
  std::string pos() { return str("%.4f", s.range(1, 30000) / 10000.0); }
  std::string integer() { return str("%d", s.chance(1, 6) ? s.range(-20, 99999) : s.range(0, 40)); }
  std::string tag_text(const std::string &id) {
    std::string p = id.size() == 1 ? id + " " : id;
    switch (s.range(0, 4)) { case 0: return id; case 1: return "'" + id + "'"; case 2: return id.size() == 1 ? "' " + id + "'" : "'" + id + "'"; default: return "'" + p + "'"; }
  }
  static std::string pad2(const std::string &id) { return id.size() == 1 ? id + " " : id; }
  std::string ident(std::set<std::string> &used) {
    static const char A[] = "123456789ABGLTabx0";
    for (;;) {
      std::string r(1, A[s.range(0, 16)]);
      if (s.chance(1, 3)) r += A[s.range(0, 17)];
      for (int k = 0; k < 60 && used.count(r); k++) r = str("%d", k);
      if (used.insert(r).second) return r;
    }
  }
  // one line out of its fields
  std::string line(const Toks &t, bool comment_ok = true) {
    bool blanks = noise && s.chance(1, 6);
    for (size_t k = 0; k < t.size(); k++) if (t[k].empty()) blanks = false;
    std::string r;
    int lead = noise && s.chance(1, 2) ? s.range(0, 5) : 0; r.append(lead, ' ');
    bool wide = s.flag();
    for (size_t k = 0; k < t.size(); k++) {
      if (k) { if (blanks) r += wide ? "   " : " "; else { if (wide && s.flag()) r += ' '; r += ','; if (wide) r.append(s.range(0, 3), ' '); } }
      r += t[k];
    }
    if (noise && s.chance(1, 4)) r.append(s.range(1, 3), ' ');
    if (noise && comment_ok && s.chance(1, 6)) {
      static const char *C[] = {"/ note", " /* [BUS A 12.0 ] */", " / it's 'quoted', a/b", "/", " / \"x\" 1,2,3", " // old"};
      r += C[s.range(0, 5)];
    }
    return r;
  }
  void put(const Toks &t) { comment(); d.lines.push_back(line(t)); }
  void comment() {
    if (ver == 23 || !noise) return;
    while (s.chance(1, 12)) {
      static const char *C[] = {"// a comment line", "   // another, with 'quotes' and / slashes", "@! column, names", "  @!1,2,3", "//0 / not the end"};
      d.lines.push_back(C[s.range(0, 4)]);
    }
  }
  void end(const char *what) {
    comment();
    switch (noise ? s.range(0, 4) : 0) {
      case 0: d.lines.push_back(str("0 / END OF %s DATA, BEGIN NEXT DATA", what)); break;
      case 1: d.lines.push_back("0"); break;
      case 2: d.lines.push_back(" 0 /" + std::string(what)); break;
      case 3: d.lines.push_back("0  "); break;
      default: d.lines.push_back("  0"); break;
    }
  }
  // fields of one record: tok gets n columns, out what they mean
  void rec(const Tab &tab, int n, Toks &tok, std::vector<E> &out, int idx, const std::map<int, std::string> &pre, bool may_blank = true) {
    tok.assign(n, "");
    std::map<int, char> ty;
    for (size_t k = 0; k < tab.size(); k++) { ty[tab[k].c] = tab[k].t; if (tab[k].t == 'z') ty[tab[k].c + 1] = 'd'; }
    for (int c = 0; c < n; c++) {
      std::map<int, std::string>::const_iterator p = pre.find(c);
      if (p != pre.end()) { tok[c] = p->second; continue; }
      char t = ty.count(c) ? ty[c] : 'i';
      bool num_ = t == 'i' || t == 'I' || t == 'd' || t == 'D' || t == 'z';
      if (num_ && may_blank && noise && s.chance(1, 14)) tok[c] = s.flag() ? "" : " ";
      else if (t == 'I') tok[c] = str("%d", s.range(0, 1));
      else if (t == 'i') tok[c] = integer();
      else if (t == 'f' || t == 'h') tok[c] = str("%.4f", s.range(0, 10000) / 10000.0);
      else tok[c] = num();
      if (tok[c] == " ") tok[c] = "";
    }
    for (size_t k = 0; k < tab.size(); k++) {
      const F &f = tab[k]; int need = f.t == 'z' ? f.c + 1 : (f.t == 'f' || f.t == 'h') ? f.c - 1 : f.c;
      E e = mk(f.key, idx, f.t == 'I' ? 'i' : f.t == 'D' || f.t == 'f' || f.t == 'h' ? 'd' : f.t == 'g' || f.t == 'q' ? 's' : f.t);
      if (n <= need) { e.absent = true; out.push_back(e); continue; }
      std::string x = f.c < n ? tok[f.c] : "";
      switch (f.t) {
        case 'i': case 'I': e.i = atoi(x.c_str()); break;
        case 'f': e.d = f.c < n ? atof(x.c_str()) : 1.0; break;
        case 'h': case 'd': case 'D': e.d = atof(x.c_str()); break;
        case 'z': e.d = atof(x.c_str()); e.d2 = atof(tok[f.c + 1].c_str()); break;
        case 'g': case 'q': { std::string y; for (size_t q = 0; q < x.size(); q++) if (x[q] != '\'') y += x[q];
          size_t a = y.find_first_not_of(' '), b = y.find_last_not_of(' '); y = a == std::string::npos ? "" : y.substr(a, b - a + 1);
          e.s = f.t == 'g' ? pad2(y) : y; break; }
      }
      out.push_back(e);
      if (f.t == 'D' && idx == 0) { E u = e; u.idx = NONE; out.push_back(u); }
    }
  }
};

// --------------------------------------------------------------- tables
inline const Tab &bus_tab() { static const Tab t = {{BUS_BASEKV, 'd', 2}, {BUS_TYPE, 'i', 3}, {BUS_AREA, 'i', 4}, {BUS_ZONE, 'i', 5}, {BUS_OWNER, 'i', 6},
  {BUS_VOLTAGE_MAG, 'd', 7}, {BUS_VOLTAGE_ANG, 'd', 8}, {BUS_VOLTAGE_MAX, 'd', 9}, {BUS_VOLTAGE_MIN, 'd', 10}}; return t; }
inline const Tab &load_tab() { static const Tab t = {{LOAD_ID, 'g', 1}, {LOAD_STATUS, 'I', 2}, {LOAD_AREA, 'i', 3}, {LOAD_ZONE, 'i', 4}, {LOAD_PL, 'D', 5}, {LOAD_QL, 'D', 6},
  {LOAD_IP, 'd', 7}, {LOAD_IQ, 'd', 8}, {LOAD_YP, 'd', 9}, {LOAD_YQ, 'd', 10}}; return t; }
inline const Tab &shunt_tab() { static const Tab t = {{SHUNT_ID, 'g', 1}, {SHUNT_STATUS, 'I', 2}, {BUS_SHUNT_GL, 'D', 3}, {BUS_SHUNT_BL, 'D', 4}}; return t; }
inline Tab gen_tab(int v) {
  int o = v == 35 ? 1 : 0, w = v == 35 ? 2 : 0;
  Tab t = {{GENERATOR_ID, 'g', 1}, {GENERATOR_PG, 'd', 2}, {GENERATOR_QG, 'd', 3}, {GENERATOR_QMAX, 'd', 4}, {GENERATOR_QMIN, 'd', 5}, {GENERATOR_VS, 'd', 6}, {GENERATOR_IREG, 'i', 7},
    {GENERATOR_MBASE, 'd', 8 + o}, {GENERATOR_ZSOURCE, 'z', 9 + o}, {GENERATOR_XTRAN, 'z', 11 + o}, {GENERATOR_GTAP, 'd', 13 + o}, {GENERATOR_STAT, 'I', 14 + o}, {GENERATOR_RMPCT, 'd', 15 + o},
    {GENERATOR_PMAX, 'd', 16 + o}, {GENERATOR_PMIN, 'd', 17 + o}, {GENERATOR_OWNER1, 'o', 18 + w}, {GENERATOR_OFRAC1, 'f', 19 + w}, {GENERATOR_OWNER2, 'o', 20 + w}, {GENERATOR_OFRAC2, 'h', 21 + w},
    {GENERATOR_OWNER3, 'o', 22 + w}, {GENERATOR_OFRAC3, 'h', 23 + w}, {GENERATOR_OWNER4, 'o', 24 + w}, {GENERATOR_OFRAC4, 'h', 25 + w}, {GENERATOR_WMOD, 'i', 26 + w}, {GENERATOR_WPF, 'd', 27 + w}};
  if (v == 35) { t.push_back((F){GENERATOR_NREG, 'i', 8}); t.push_back((F){GENERATOR_BASLOD, 'i', 19}); }
  if (v == 34) t.push_back((F){GENERATOR_NREG, 'i', 28});
  for (size_t k = 0; k < t.size(); k++) if (t[k].t == 'o') t[k].t = 'O';
  return t;
}
inline Tab line_tab(int v) {
  int o = v >= 34 ? 10 : 0;
  Tab t = {{BRANCH_CKT, 'g', 2}, {BRANCH_R, 'd', 3}, {BRANCH_X, 'd', 4}, {BRANCH_B, 'd', 5}, {BRANCH_SHUNT_ADMTTNC_G1, 'd', 9 + o}, {BRANCH_SHUNT_ADMTTNC_B1, 'd', 10 + o},
    {BRANCH_SHUNT_ADMTTNC_G2, 'd', 11 + o}, {BRANCH_SHUNT_ADMTTNC_B2, 'd', 12 + o}, {BRANCH_STATUS, 'I', 13 + o}, {BRANCH_METER, 'i', 14 + o}, {BRANCH_LENGTH, 'd', 15 + o},
    {BRANCH_O1, 'i', 16 + o}, {BRANCH_F1, 'd', 17 + o}, {BRANCH_O2, 'i', 18 + o}, {BRANCH_F2, 'd', 19 + o}, {BRANCH_O3, 'i', 20 + o}, {BRANCH_F3, 'd', 21 + o}, {BRANCH_O4, 'i', 22 + o}, {BRANCH_F4, 'd', 23 + o}};
  static const char *R[] = {BRANCH_RATE1, BRANCH_RATE2, BRANCH_RATE3, BRANCH_RATE4, BRANCH_RATE5, BRANCH_RATE6, BRANCH_RATE7, BRANCH_RATE8, BRANCH_RATE9, BRANCH_RATE10, BRANCH_RATE11, BRANCH_RATE12};
  int r = v >= 34 ? 7 : 6;
  t.push_back((F){BRANCH_RATING_A, 'd', r}); t.push_back((F){BRANCH_RATING_B, 'd', r + 1}); t.push_back((F){BRANCH_RATING_C, 'd', r + 2});
  if (v >= 34) for (int k = 0; k < 12; k++) t.push_back((F){R[k], 'd', 7 + k});
  return t;
}
inline Tab owners4(int c) { Tab t = {{BRANCH_O1, 'i', c}, {BRANCH_F1, 'd', c + 1}, {BRANCH_O2, 'i', c + 2}, {BRANCH_F2, 'd', c + 3}, {BRANCH_O3, 'i', c + 4}, {BRANCH_F3, 'd', c + 5}, {BRANCH_O4, 'i', c + 6}, {BRANCH_F4, 'd', c + 7}}; return t; }
inline Tab xf1_tab() { Tab t = {{BRANCH_CKT, 'g', 3}, {TRANSFORMER_CW, 'i', 4}, {TRANSFORMER_CZ, 'i', 5}, {TRANSFORMER_CM, 'i', 6}, {TRANSFORMER_MAG1, 'd', 7}, {TRANSFORMER_MAG2, 'd', 8}, {BRANCH_B, 'd', 8},
  {TRANSFORMER_NMETR, 'i', 9}, {BRANCH_STATUS, 'I', 11}}; Tab o = owners4(12); t.insert(t.end(), o.begin(), o.end()); return t; }
inline Tab xf3_tab(int v) {
  static const char *R[] = {BRANCH_RATE1, BRANCH_RATE2, BRANCH_RATE3, BRANCH_RATE4, BRANCH_RATE5, BRANCH_RATE6, BRANCH_RATE7, BRANCH_RATE8, BRANCH_RATE9, BRANCH_RATE10, BRANCH_RATE11, BRANCH_RATE12};
  Tab t = {{BRANCH_SHIFT, 'd', 2}, {TRANSFORMER_ANG1, 'd', 2}};
  int o;
  t.push_back((F){BRANCH_RATING_A, 'd', 3}); t.push_back((F){BRANCH_RATING_B, 'd', 4}); t.push_back((F){BRANCH_RATING_C, 'd', 5});
  if (v == 33) o = 6;
  else { for (int k = 0; k < 12; k++) t.push_back((F){R[k], 'd', 3 + k}); o = 15; }
  t.push_back((F){TRANSFORMER_CODE1, 'i', o});
  int m = v == 35 ? o + 3 : o + 2;
  const char *M[] = {TRANSFORMER_RMA, TRANSFORMER_RMI, TRANSFORMER_VMA, TRANSFORMER_VMI};
  for (int k = 0; k < 4; k++) t.push_back((F){M[k], 'd', m + k});
  if (v != 34) { t.push_back((F){TRANSFORMER_NTP, 'i', m + 4}); t.push_back((F){TRANSFORMER_TAB, 'i', m + 5}); t.push_back((F){TRANSFORMER_CR, 'd', m + 6}); t.push_back((F){TRANSFORMER_CX, 'd', m + 7}); t.push_back((F){TRANSFORMER_CNXA, 'd', m + 8}); }
  return t;
}
inline Tab sw_tab(int v) {
  static const char *N[] = {SHUNT_N1, SHUNT_N2, SHUNT_N3, SHUNT_N4, SHUNT_N5, SHUNT_N6, SHUNT_N7, SHUNT_N8}, *B[] = {SHUNT_B1, SHUNT_B2, SHUNT_B3, SHUNT_B4, SHUNT_B5, SHUNT_B6, SHUNT_B7, SHUNT_B8},
    *S[] = {SHUNT_S1, SHUNT_S2, SHUNT_S3, SHUNT_S4, SHUNT_S5, SHUNT_S6, SHUNT_S7, SHUNT_S8};
  int o = v == 35 ? 1 : 0;
  Tab t = {{SHUNT_MODSW, 'i', 1 + o}, {SHUNT_ADJM, 'i', 2 + o}, {SHUNT_SWCH_STAT, 'I', 3 + o}, {SHUNT_VSWHI, 'd', 4 + o}, {SHUNT_VSWLO, 'd', 5 + o}, {v == 33 ? SHUNT_SWREM : SHUNT_SWREG, 'i', 6 + o}};
  int p = v == 35 ? 9 : 7;
  if (v == 35) t.push_back((F){SHUNT_NREG, 'i', 8});
  t.push_back((F){SHUNT_RMPCT, 'd', p}); t.push_back((F){SHUNT_RMIDNT, 'q', p + 1}); t.push_back((F){SHUNT_BINIT, 'd', p + 2});
  for (int k = 0; k < 8; k++) {
    if (v == 35) { t.push_back((F){S[k], 'i', 12 + 3 * k}); t.push_back((F){N[k], 'i', 13 + 3 * k}); t.push_back((F){B[k], 'd', 14 + 3 * k}); }
    else { t.push_back((F){N[k], 'i', 10 + 2 * k}); t.push_back((F){B[k], 'd', 11 + 2 * k}); }
  }
  if (v == 34) t.push_back((F){SHUNT_NREG, 'i', 26});
  return t;
}
} // namespace rawf
#endif
