#!/bin/bash
# exit 0 if the property holds in this demonstration, 1 if it is broken
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
N=$(sed -n 's/.*RANKS: *\([0-9]*\).*/\1/p' "$HERE/demo.c" | head -1)
cp "$HERE"/*.c "$HERE"/*.h "$W" 2>/dev/null
cd "$W" || exit 2
INC="-I/repo/src -I/repo/_build/p4est/include -I/opt/vp/sc-compat"
for d in $(find /repo/_build -name 'p4est_config.h' -printf '%h\n'); do INC="$INC -I$d"; done
MPI=/usr/lib/x86_64-linux-gnu/openmpi
gcc -w -O1 -g $INC -I$MPI/include demo.c -o demo /repo/_build/p4est/libp4est.a \
  /usr/lib/x86_64-linux-gnu/libsc.so $MPI/lib/libmpi.so -lz -lm || exit 2
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_mpi_yield_when_idle=1
export OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1
export OMPI_MCA_btl_vader_single_copy_mechanism=none
timeout 200 mpirun -n ${N:-1} ./demo > out.txt 2>&1
r=$?
tail -5 out.txt
[ $r = 0 ] && exit 0
exit 1
