#!/bin/bash
# compiles demo.cpp against /repo's sources and built libraries and runs it; run with cwd /repo
D=$(cd "$(dirname "$0")" && pwd)
NP=@NP@
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
L=/usr/lib/x86_64-linux-gnu
P=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-complex
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_pml=ob1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm=isolated
export ARMCI_NONCOLLECTIVE_GROUPS=1 TMPDIR=$T HOME=/root
M=/repo/src/applications/modules/dynamic_simulation_full_y
LIBS=$(find /repo/_build -name 'libgridpack_*.a' | sort)
g++ -O0 -w -std=gnu++17 -I/repo/src -I/repo/src/math -I$M -I$M/base_classes -I$M/model_classes -isystem $L/openmpi/include -isystem $L/openmpi/include/openmpi -isystem $P/include \
  "$D/demo.cpp" -o "$T/demo" -Wl,--start-group $LIBS -Wl,--end-group \
  /usr/lib/libparmetis.so $L/libmetis.so -lga++ -lga -larmci -lscalapack-openmpi -llapack -lblas -lgfortran -lrt -ldl \
  $L/libboost_mpi.so $L/libboost_serialization.so $L/libboost_random.so $L/libboost_filesystem.so $L/libboost_system.so \
  $L/openmpi/lib/libmpi_cxx.so $L/openmpi/lib/libmpi.so -L$P/lib -lpetsc_complex -Wl,-rpath,$L/openmpi/lib:$P/lib || exit 98
cp -r "$D"/data "$T"/ 2>/dev/null
cd "$T" && timeout 120 mpiexec -n $NP ./demo > log 2>&1
R=$?
grep -a DEMO log | head -20
exit $R
