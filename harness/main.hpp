// Common entry point: starts MPI/GA/PETSc through the library's own environment.
#ifndef PBT_MAIN_HPP
#define PBT_MAIN_HPP
#include "pbt.hpp"
#include "gridpack/environment/environment.hpp"
#include "gridpack/utilities/exception.hpp"
#include "gridpack/configuration/no_print.hpp"
#include <fcntl.h>
#include <sys/resource.h>
inline int pbt_main(int argc, char **argv, const pbt::Registry &reg) {
  pbt::Options o = pbt::parse(argc, argv);
#if !defined(__SANITIZE_ADDRESS__)
  struct rlimit lim = {3UL << 30, 3UL << 30}; setrlimit(RLIMIT_DATA, &lim);   // a runaway allocation ends this process, not the sandbox
#endif
  // the library prints a lot; keep what the driver needs (stderr) apart
  int rc;
  int fake = 1; char *av[2] = {argv[0], 0};
  gridpack::Environment env(fake, av, (const char *)0, 2000000L, 2000000L);
  gridpack::NoPrint::instance()->setStatus(true);
  fflush(stdout);
  rc = pbt::main_registry(o, reg);
  return rc;
}
#endif
