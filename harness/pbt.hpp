// Small property-based testing runtime for MPI programs.
//
// A case is a finite sequence of choices (non-negative integers).  Generators
// draw from a Source; all ranks draw the same sequence, so every rank knows the
// whole generated case (model) and executes its own part of it.  Shrinking works
// on the choice sequence (delete chunks / zero / halve / decrement), so it is
// independent of what a property generates, and the shrunk sequence is the
// replay file.
#ifndef PBT_HPP
#define PBT_HPP
#include <mpi.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <time.h>
#include <math.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <functional>
#include <complex>

namespace pbt {

typedef std::vector<uint64_t> Choices;

struct Log {           // choices of the running case, readable after a crash
  uint64_t *p; size_t cap;
  Log() : p(0), cap(0) {}
  void open(const std::string &file) {
    cap = 1 << 16;
    int fd = ::open(file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return;
    if (ftruncate(fd, cap * 8) != 0) { close(fd); return; }
    void *m = mmap(0, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m != MAP_FAILED) p = (uint64_t *)m;
  }
  void begin(uint64_t idx) { if (p) { p[0] = idx; p[1] = 0; } }
  void add(uint64_t v) { if (p && p[1] + 2 < cap) { p[2 + p[1]] = v; p[1]++; } }
};

class Source {
public:
  Choices rec;
  const Choices *fixed;
  size_t pos;
  uint64_t s;
  Log *log;
  Source(uint64_t seed) : fixed(0), pos(0), s(seed), log(0) {}
  Source(const Choices *f) : fixed(f), pos(0), s(0), log(0) {}
  static uint64_t mix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t draw(uint64_t bound) {          // uniform in [0,bound)
    uint64_t v;
    if (fixed) v = pos < fixed->size() ? (*fixed)[pos] : 0;
    else v = mix(s) >> 1;
    pos++;
    v = bound ? v % bound : v;
    rec.push_back(v);
    if (log) log->add(v);
    return v;
  }
  int range(int lo, int hi) { return lo + (int)draw((uint64_t)((int64_t)hi - lo + 1)); }
  bool chance(int num, int den) { return draw(den) >= (uint64_t)(den - num); }
  bool flag() { return draw(2) == 1; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
  int pick(std::initializer_list<int> l) { return *(l.begin() + draw(l.size())); }
  // numbers with a short decimal form, well away from underflow
  double dec(double lo, double hi, int steps = 1000) {
    return lo + (hi - lo) * (double)draw(steps + 1) / steps;
  }
  // general double: mixture of small integers, decimals and wide magnitudes
  double real() {
    switch (draw(5)) {
      case 0: return (double)range(0, 10);
      case 1: return (double)range(-10, 10);
      case 2: return (double)range(-100000, 100000) / 1000.0;
      case 3: return ((double)draw(1ULL << 53) / (double)(1ULL << 53) - 0.5) * 4.0;
      default: {
        double m = 1.0 + (double)draw(1ULL << 40) / (double)(1ULL << 40);
        double r = ldexp(m, range(-20, 20));
        return flag() ? -r : r;
      }
    }
  }
  std::vector<int> perm(int n) {
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    for (int i = n - 1; i > 0; i--) { int j = i - (int)draw(i + 1); std::swap(p[i], p[j]); }
    return p;
  }
};

struct Ctx {
  MPI_Comm comm;
  int rank, size;
  bool failed;
  std::string key, msg;
  bool nontrivial;
  std::string sample;
  std::set<std::string> labels;
  uint64_t sub;            // additional evaluations inside the case
  std::string scratch;     // scratch directory of this run
  Ctx() : failed(false), nontrivial(false), sub(0) {}
  void fail(const std::string &k, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
    if (failed) return;
    char b[2000];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    failed = true; key = k; msg = b; if (getenv("PBT_SHOW")) fprintf(stderr, "PBT-FAIL rank %d: %s\n", rank, b);
  }
  void label(const std::string &l) { labels.insert(l); }
};

typedef std::function<void(Source &, Ctx &)> Prop;

struct Options {
  std::string prop, out, replay, scratch;
  uint64_t seed; int cases; double seconds; int timeout; int shrink; int keep;
  Options() : seed(1), cases(100), seconds(1e9), timeout(60), shrink(1), keep(3) {}
};

inline double now() {
  struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

static int g_case_for_alarm = -1;
static bool g_threw = false;
static void on_alarm(int) {
  static const char m[] = "PBT-HANG\n", x[] = "PBT-ONE-SIDED-EXCEPTION\n";
  if (g_threw) { if (write(2, x, sizeof x - 1)) {} _exit(98); }
  if (write(2, m, sizeof m - 1)) {}
  _exit(97);
}

inline std::string jesc(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

// thrown on the ranks that leave the case to the others
struct Idle {};
struct Outcome { bool failed; std::string key, msg; Choices rec; Ctx ctx; };

inline std::string bcast(const std::string &s, int root, MPI_Comm c) {
  int n = (int)s.size(); MPI_Bcast(&n, 1, MPI_INT, root, c);
  std::vector<char> b(n + 1, 0); int r; MPI_Comm_rank(c, &r);
  if (r == root) memcpy(&b[0], s.data(), n);
  MPI_Bcast(&b[0], n, MPI_CHAR, root, c);
  return std::string(&b[0], n);
}

class Runner {
public:
  Options o; Prop prop; MPI_Comm comm; int rank, size; Log log; double casecpu;
  Runner(const Options &opt, const Prop &p) : o(opt), prop(p) {
    MPI_Comm_dup(MPI_COMM_WORLD, &comm);
    MPI_Comm_rank(comm, &rank); MPI_Comm_size(comm, &size);
    if (rank == 0 && !o.out.empty()) log.open(o.out + ".log");
    signal(SIGALRM, on_alarm);
  }
  Outcome one(Source &src, uint64_t idx) {
    Outcome r; Ctx c;
    c.comm = comm; c.rank = rank; c.size = size; c.scratch = o.scratch;
    if (rank == 0) { log.begin(idx); src.log = &log; }
    alarm(o.timeout);
    bool threw = true;
    try { prop(src, c); threw = false; }
    catch (const Idle &) { threw = false; }
    catch (const std::exception &e) { c.fail("exception", "unexpected exception: %s", e.what()); }
    catch (...) { c.fail("exception", "unexpected exception"); }
    // an exception on some ranks only leaves the others in a collective call
    if (threw && size > 1) { fprintf(stderr, "PBT-EXCEPTION rank %d: %s [%s]\n", rank, c.msg.c_str(), c.sample.c_str()); g_threw = true; alarm(6); }
    // lowest failing rank reports
    int mine = c.failed ? rank : size, who;
    MPI_Allreduce(&mine, &who, 1, MPI_INT, MPI_MIN, comm);
    alarm(0); g_threw = false;
    r.failed = who < size;
    if (r.failed) {
      r.key = bcast(c.key, who, comm);
      char b[40]; snprintf(b, sizeof b, "[rank %d of %d] ", who, size);
      r.msg = bcast(b + c.msg, who, comm);
    }
    r.rec = src.rec; r.ctx = c;
    return r;
  }
  Outcome replay(const Choices &ch, uint64_t idx) { Source s(&ch); return one(s, idx); }
  bool still(const Choices &cand, const std::string &key, Outcome &keep) {
    // rank 0 proposes; everyone runs the same candidate
    Outcome r = replay(cand, 0);
    if (r.failed && r.key == key) { keep = r; return true; }
    return false;
  }
  static bool simpler(const Choices &a, const Choices &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  }
  void shrink(Outcome &best, double budget) {
    double t0 = now();
    std::string key = best.key;
    bool progress = true;
    // the pass is deterministic, so all ranks walk the same candidates; only the
    // time limit needs agreement
    struct Stop { Runner *r; double t0, b; bool operator()() {
      int s = now() - t0 > b; MPI_Bcast(&s, 1, MPI_INT, 0, r->comm); return s; } } stop = {this, t0, budget};
    while (progress) {
      progress = false;
      for (size_t k = 64; k >= 1; k /= 2) {
        for (size_t i = 0; i + k <= best.rec.size(); ) {
          if (stop()) return;
          Choices c(best.rec); c.erase(c.begin() + i, c.begin() + i + k);
          Outcome r;
          if (still(c, key, r) && simpler(r.rec, best.rec)) { best = r; progress = true; }
          else i += k > 1 ? k / 2 : 1;
        }
      }
      for (size_t i = 0; i < best.rec.size(); i++) {
        uint64_t cands[4] = {0, best.rec[i] / 2, best.rec[i] > 0 ? best.rec[i] - 1 : 0, best.rec[i] & ~(uint64_t)0xff};
        for (int k = 0; k < 4; k++) {
          if (i >= best.rec.size() || cands[k] >= best.rec[i]) continue;
          if (stop()) return;
          Choices c(best.rec); c[i] = cands[k];
          Outcome r;
          if (still(c, key, r) && simpler(r.rec, best.rec)) { best = r; progress = true; break; }
        }
      }
    }
  }
  static uint64_t hash(const Choices &c) {
    uint64_t h = 1469598103934665603ULL;
    for (size_t i = 0; i < c.size(); i++) { h ^= c[i] + 0x9e37; h *= 1099511628211ULL; }
    return h;
  }
  int run() {
    std::set<uint64_t> distinct; std::vector<std::string> samples;
    std::map<std::string, long> labels; long done = 0, sub = 0; double t0 = now();
    Outcome bad; bad.failed = false; bool have = false;
    if (!o.replay.empty()) {
      Choices ch; FILE *f = fopen(o.replay.c_str(), "r");
      if (!f) { fprintf(stderr, "cannot read replay\n"); return 2; }
      unsigned long long v; while (fscanf(f, "%llu", &v) == 1) ch.push_back(v);
      fclose(f);
      bad = replay(ch, 0); done = 1; have = bad.failed;
      if (have && o.shrink > 1) shrink(bad, o.shrink);
      if (!bad.ctx.sample.empty()) samples.push_back(bad.ctx.sample);
    } else {
      for (int i = 0; i < o.cases; i++) {
        int go = now() - t0 < o.seconds;
        MPI_Bcast(&go, 1, MPI_INT, 0, comm);
        if (!go) break;
        uint64_t sd = o.seed * 0x9e3779b97f4a7c15ULL + (uint64_t)i * 0xd1342543de82ef95ULL + 12345;
        Source::mix(sd);
        Source s(sd);
        Outcome r = one(s, i);
        done++; sub += r.ctx.sub;
        for (std::set<std::string>::iterator it = r.ctx.labels.begin(); it != r.ctx.labels.end(); ++it) labels[*it]++;
        if (r.ctx.nontrivial) {
          if (distinct.insert(hash(r.rec)).second && (int)samples.size() < o.keep && !r.ctx.sample.empty())
            samples.push_back(r.ctx.sample);
        }
        if (r.failed) { bad = r; have = true; break; }
      }
      if (have && o.shrink > 0) {
        double sec = o.shrink > 1 ? o.shrink : 40;
        shrink(bad, sec);
      }
    }
    if (rank == 0 && !o.out.empty()) {
      FILE *f = fopen((o.out + ".json.tmp").c_str(), "w");
      if (!f) return 2;
      fprintf(f, "{\"evaluations\":%ld,\"sub\":%ld,\"distinct\":%ld,\"wall\":%.3f,\"labels\":{", done, sub, (long)distinct.size(), now() - t0);
      bool first = true;
      for (std::map<std::string, long>::iterator it = labels.begin(); it != labels.end(); ++it) {
        fprintf(f, "%s\"%s\":%ld", first ? "" : ",", jesc(it->first).c_str(), it->second); first = false; }
      fprintf(f, "},\"samples\":[");
      for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
      fprintf(f, "],\"failed\":%s", have ? "true" : "false");
      if (have) {
        fprintf(f, ",\"key\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\",\"choices\":[", jesc(bad.key).c_str(), jesc(bad.msg).c_str(), jesc(bad.ctx.sample).c_str());
        for (size_t i = 0; i < bad.rec.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)bad.rec[i]);
        fprintf(f, "]");
      }
      fprintf(f, "}\n");
      fclose(f);
      rename((o.out + ".json.tmp").c_str(), (o.out + ".json").c_str());
    }
    MPI_Barrier(comm);
    return 0;
  }
};

inline Options parse(int argc, char **argv) {
  Options o;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--prop") o.prop = v;
    else if (a == "--seed") o.seed = strtoull(v.c_str(), 0, 10);
    else if (a == "--cases") o.cases = atoi(v.c_str());
    else if (a == "--seconds") o.seconds = atof(v.c_str());
    else if (a == "--timeout") o.timeout = atoi(v.c_str());
    else if (a == "--out") o.out = v;
    else if (a == "--replay") o.replay = v;
    else if (a == "--shrink") o.shrink = atoi(v.c_str());
    else if (a == "--scratch") o.scratch = v;
    else if (a == "--keep") o.keep = atoi(v.c_str());
  }
  return o;
}

typedef std::map<std::string, Prop> Registry;
inline int main_registry(const Options &o, const Registry &r) {
  Registry::const_iterator it = r.find(o.prop);
  if (it == r.end()) { fprintf(stderr, "unknown property %s\n", o.prop.c_str()); return 2; }
  Runner run(o, it->second);
  return run.run();
}

// ---- small helpers ------------------------------------------------------
inline std::string str(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string str(const char *fmt, ...) {
  char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}
inline bool close(double a, double b, double tol) {
  if (a == b) return true;
  double s = std::max(fabs(a), fabs(b));
  return fabs(a - b) <= tol * (s > 1.0 ? s : 1.0);
}
inline bool close(const std::complex<double> &a, const std::complex<double> &b, double tol) {
  double s = std::max(std::abs(a), std::abs(b));
  return std::abs(a - b) <= tol * (s > 1.0 ? s : 1.0);
}
} // namespace pbt
#endif
