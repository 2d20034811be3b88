#ifndef PBT_COMM_HPP
#define PBT_COMM_HPP
#include "pbt.hpp"
#include "gridpack/parallel/communicator.hpp"
typedef gridpack::parallel::Communicator Comm;
// mostly the world, sometimes a sub-group (all sub-groups work at the same time)
inline Comm pick_sub(pbt::Source &s, pbt::Ctx &c, int num = 1, int den = 4) {
  Comm world;
  if (c.size >= 2 && s.chance(num, den)) {
    c.label("sub-communicator");
    int how = s.range(0, 2); Comm sub = how == 0 ? world.divide(c.size == 2 ? 1 : c.size / 2) : world.split(how == 1 ? c.rank % 2 : c.rank == 0);
    // sometimes only the group of one rank works and the others are done
    if (s.chance(1, 3) || getenv("PBT_LONE")) { int r = s.range(0, c.size - 1), mine = c.rank == r, in = 0; MPI_Allreduce(&mine, &in, 1, MPI_INT, MPI_MAX, static_cast<MPI_Comm>(sub)); c.label("the other groups are idle"); if (!in) throw pbt::Idle(); }
    return sub;
  }
  return world;
}
inline std::string strf(const char *f, ...) {
  char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
inline void nap(uint64_t us) { struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; nanosleep(&t, 0); }
inline MPI_Comm raw(const Comm &comm) { return static_cast<MPI_Comm>(const_cast<Comm &>(comm)); }
// collective: nobody in the group has noticed a failure
inline bool all_ok(pbt::Ctx &c, const Comm &comm) { int f = c.failed, r = 0; MPI_Allreduce(&f, &r, 1, MPI_INT, MPI_MAX, raw(comm)); return !r; }
// a file name of its own for every group
inline std::string group_file(pbt::Ctx &c, const Comm &comm, const char *stem) {
  int lo; MPI_Allreduce(&c.rank, &lo, 1, MPI_INT, MPI_MIN, raw(comm));
  return c.scratch + "/" + stem + strf("%d", lo);
}
#endif
