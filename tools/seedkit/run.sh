#!/bin/bash
# Builds demo.cpp (beside this file) against the libraries in ./_build and runs it on N processes.
here=$(cd "$(dirname "$0")" && pwd)
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1
export OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1
t=$(mktemp -d); trap 'rm -r "$t"' EXIT
R=$PWD; B=$R/_build
mpicxx -DLOCAL_ID_TYPE=int32_t -DHAS_PARMETIS -DHAS_ZOLTAN -O1 -g -std=gnu++14 -w -I"$R/pcu" -I"$R/pcu/reel" -I"$R/agi" -I"$R/support" -I"$R/interfaces" -I"$R/partition" \
  -I"$R/partition/Diffusive" -I"$R/partition/Metrics" -I"$R/partition/Multilevel" -I"$R/partition/Coloring" \
  "$here/demo.cpp" -o "$t/demo" $B/interfaces/libinterfaces.a $B/partition/libengpar.a $B/partition/Diffusive/libdiffusive.a \
  $B/partition/Multilevel/libmultilevel.a $B/partition/Metrics/libengpar_metrics.a $B/partition/Coloring/libcoloring.a \
  $B/agi/libagi.a $B/pcu/libpcu.a $B/support/libengpar_support.a \
  /usr/lib/libparmetis.so /usr/lib/x86_64-linux-gnu/libmetis.so /usr/lib/x86_64-linux-gnu/libtrilinos_zoltan.so || exit 3
cd "$t" || exit 3
timeout -k 2 ${LIMIT:-60} mpirun -np ${N:-2} ./demo; rc=$?
[ $rc = 0 ] && echo "demo: ok" || echo "demo: FAILED ($rc)"
exit $rc
