// S01 text fields and line sources
#include "main.hpp"
#include "comm.hpp"
#include "gridpack/utilities/string_utils.hpp"
#include "gridpack/stream/input_stream.hpp"
#include "gridpack/network/base_network.hpp"
#include "gridpack/parser/base_pti_parser.hpp"
#include <algorithm>
using namespace pbt;
typedef std::vector<std::string> VS;
typedef gridpack::network::BaseNetwork<gridpack::component::BaseBusComponent, gridpack::component::BaseBranchComponent> Net;
class Split : public gridpack::parser::BasePTIParser<Net> {
public:
  VS operator()(const std::string &l) { return this->splitPSSELine(l); }
};
static std::string show(const VS &v) { std::string r; for (size_t i = 0; i < v.size(); i++) r += "[" + v[i] + "]"; return r; }
static const char WORD[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789.-+_&*@#()$%^/;:=";
static std::string word(Source &s, int mx) { std::string r; int n = s.range(1, mx); for (int i = 0; i < n; i++) r += WORD[s.range(0, (int)sizeof WORD - 2)]; return r; }
static std::string blanks(Source &s, int lo, bool tabs) { std::string r; int n = s.range(lo, 4); for (int i = 0; i < n; i++) r += tabs && s.chance(1, 4) ? '\t' : ' '; return r; }
static std::string quoted(Source &s, bool comma) {
  char q = s.chance(1, 3) ? '"' : '\''; std::string in; int n = s.range(0, 10);
  for (int i = 0; i < n; i++) { int k = s.range(0, 6); in += k < 2 ? ' ' : k == 2 && comma ? ',' : k == 3 ? (q == '"' ? '\'' : '"') : WORD[s.range(0, 70)]; }
  return std::string(1, q) + in + q;
}
static void S01(Source &s, Ctx &c) {
  gridpack::utility::StringUtils u; int what = s.range(0, 8);
  c.nontrivial = true;
  switch (what) {
    case 0: case 1: {   // blank separated
      VS w; int n = s.range(0, 8); std::string l = blanks(s, 0, true);
      for (int i = 0; i < n; i++) { if (i) l += blanks(s, 1, true); w.push_back(s.chance(1, 3) ? quoted(s, true) : word(s, 8)); l += w.back(); }
      l += blanks(s, 0, true);
      std::string keep = l; VS g = u.blankTokenizer(l);
      if (g != w) c.fail("blank-tokens", "'%s' gives %s", l.c_str(), show(g).c_str());
      if (l != keep) c.fail("blank-tokens-input", "the line itself was changed");
      c.label("blank separated"); c.nontrivial = n > 1; c.sample = l; break; }
    case 2: case 3: {   // comma separated fields, blank fields are zero, blanks also separate
      static Split sp; VS w; int n = s.range(1, 8); std::string l;
      for (int i = 0; i < n; i++) {
        if (i) l += ",";
        if (s.chance(1, 6)) { l += blanks(s, 0, true); w.push_back("0"); continue; }
        int k = s.chance(1, 5) ? 2 : 1; l += blanks(s, 0, true);
        for (int j = 0; j < k; j++) { if (j) l += blanks(s, 1, true); w.push_back(s.chance(1, 4) ? quoted(s, false) : word(s, 8)); l += w.back(); }
        l += blanks(s, 0, true);
      }
      VS g = sp(l);
      if (g != w) c.fail("line-fields", "'%s' gives %s, written %s", l.c_str(), show(g).c_str(), show(w).c_str());
      c.label("comma separated"); c.nontrivial = n > 1; c.sample = l; break; }
    case 4: {   // one separator character
      const char seps[] = ",;:|/ "; char sep[2] = {seps[s.range(0, 5)], 0}; VS w; int n = s.range(0, 6); std::string l;
      for (int i = s.range(0, 2); i > 0; i--) l += sep[0];
      for (int i = 0; i < n; i++) { if (i) for (int k = s.range(1, 3); k > 0; k--) l += sep[0];
        std::string t = s.chance(1, 4) ? "a b'c" : word(s, 6); std::string v; for (size_t k = 0; k < t.size(); k++) if (t[k] != sep[0]) v += t[k]; if (v.empty()) v = "z"; w.push_back(v); l += v; }
      for (int i = s.range(0, 3); i > 0; i--) l += sep[0];
      VS g = u.charTokenizer(l, sep);
      if (g != w) c.fail("char-tokens", "'%s' on '%s' gives %s", l.c_str(), sep, show(g).c_str());
      c.label("one separator"); c.sample = l; break; }
    case 5: {   // trimming and case
      std::string core; int n = s.range(0, 12); for (int i = 0; i < n; i++) core += s.chance(1, 4) ? ' ' : (char)s.range(33, 126);
      while (!core.empty() && core[0] == ' ') core.erase(0, 1); while (!core.empty() && core[core.size() - 1] == ' ') core.erase(core.size() - 1);
      std::string a, b; for (int i = s.range(0, 4); i > 0; i--) a += " \t\n\r"[s.range(0, 3)]; for (int i = s.range(0, 4); i > 0; i--) b += " \t\n\r"[s.range(0, 3)];
      std::string t = a + core + b; u.trim(t); if (t != core) c.fail("trim", "'%s' trimmed to '%s'", core.c_str(), t.c_str());
      std::string up = core, lo = core, wu = core, wl = core; u.toUpper(up); u.toLower(lo);
      for (size_t i = 0; i < core.size(); i++) { wu[i] = core[i] >= 'a' && core[i] <= 'z' ? core[i] - 32 : core[i]; wl[i] = core[i] >= 'A' && core[i] <= 'Z' ? core[i] + 32 : core[i]; }
      if (up != wu || lo != wl) c.fail("case", "'%s' became '%s' and '%s'", core.c_str(), up.c_str(), lo.c_str());
      c.label("trim and case"); c.sample = core; break; }
    case 6: {   // two-character tags
      std::string t; int n = s.range(1, 2); for (int i = 0; i < n; i++) t += WORD[s.range(0, (int)sizeof WORD - 2)];
      std::string w = n == 1 ? t + " " : t; std::string f; int q = s.range(0, 2); std::string first;
      for (int k = 0; k < 2; k++) {
        if (q == 0) { f = blanks(s, 0, false) + t; if (s.chance(1, 4)) f += "\r"; else f += blanks(s, 0, false); }
        else { char d = q == 1 ? '\'' : '"'; f = blanks(s, 0, false) + d + blanks(s, 0, false) + t + blanks(s, 0, false) + d; if (s.chance(1, 4)) f += "\r"; }
        std::string keep = f, g = u.clean2Char(f);
        if (g != w) c.fail("tag", "tag '%s' written as '%s' normalises to '%s'", t.c_str(), keep.c_str(), g.c_str());
        if (u.clean2Char(g) != w) c.fail("tag-again", "normalised tag '%s' is not stable", g.c_str());
        q = s.range(0, 2);
      }
      c.label("tags"); c.sample = f; break; }
    case 7: {   // quotes and truth values
      std::string core; int n = s.range(1, 10); for (int i = 0; i < n; i++) core += s.chance(1, 4) && i && i < n - 1 ? ' ' : WORD[s.range(0, (int)sizeof WORD - 2)];
      int q = s.range(0, 2); std::string f;
      if (q == 0) f = blanks(s, 0, false) + core + blanks(s, 0, false);
      else { char d = q == 1 ? '\'' : '"'; f = blanks(s, 0, false) + d + blanks(s, 0, true) + core + blanks(s, 0, true) + d + blanks(s, 0, false); }
      std::string g = u.trimQuotes(f); if (g != core) c.fail("quotes", "'%s' unquotes to '%s'", f.c_str(), g.c_str());
      static const char *T[] = {"true", "yes", "t", "y", "1"}, *F[] = {"false", "no", "f", "n", "0", "", "2", "truex", "ye"};
      bool w = s.flag(); std::string b = w ? T[s.range(0, 4)] : F[s.range(0, 8)];
      for (size_t i = 0; i < b.size(); i++) if (s.flag()) b[i] = toupper(b[i]);
      std::string pb = blanks(s, 0, true) + b + blanks(s, 0, true);
      if (u.getBool(pb) != w || u.getBool(pb.c_str()) != w) c.fail("truth", "'%s' read as %s", b.c_str(), w ? "false" : "true");
      c.label("quotes and truth values"); c.sample = f + " " + pb; break; }
    default: {   // line sources, one stream object used for several sources
      gridpack::stream::InputStream in; int k = s.range(1, 3);
      for (int r = 0; r < k && !c.failed; r++) {
        VS l; int n = s.range(1, 8); for (int i = 0; i < n; i++) { std::string t; int m = s.chance(1, 20) ? 5000 : s.range(0, 20); for (int j = 0; j < m; j++) t += (char)(32 + (i * 7 + j * 11 + m) % 95); l.push_back(t); }
        if (l.back().empty()) l.back() = "Q";
        bool term = s.flag();
        if (s.flag()) {
          std::string f = c.scratch + strf("/lines-%d", c.rank); FILE *fp = fopen(f.c_str(), "w"); for (int i = 0; i < n; i++) { fputs(l[i].c_str(), fp); if (i < n - 1 || term) fputc('\n', fp); } fclose(fp);
          if (!in.openFile(f)) c.fail("open", "file cannot be opened"); c.label("lines of a file");
        } else { if (!in.openStringVector(l)) c.fail("open", "lines cannot be opened"); c.label("lines in memory"); }
        if (!in.isOpen()) c.fail("open", "source is not reported as open");
        VS g; std::string x; int stop = s.chance(1, 4) ? s.range(0, n) : n + 1; while ((int)g.size() < stop && in.nextLine(x)) g.push_back(x);
        if ((int)l.size() > stop) l.resize(stop);
        if (g != l) c.fail("lines", "source %d: read %d lines, written %d%s", r, (int)g.size(), (int)l.size(), term ? "" : " (no newline at the end)");
        in.close(); if (in.isOpen()) c.fail("open", "source is still open after closing");
      }
      if (in.openFile(c.scratch + "/no-such-file") ) c.fail("open", "a missing file was opened");
      c.sample = strf("%d sources", k); }
  }
}
int main(int argc, char **argv) {
  Registry r; r["S01"] = S01;
  return pbt_main(argc, argv, r);
}
