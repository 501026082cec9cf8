#!/bin/bash
# compiles demo.cc against the sources in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm_rsh_agent=false OMPI_MCA_oob_tcp_if_include=lo
export OMPI_MCA_ess_singleton_isolated=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMP_NUM_THREADS=1 DEAL_II_NUM_THREADS=1
D=$(mktemp -d)
trap 'rm -rf -- "$D"' EXIT
L=/usr/lib/x86_64-linux-gnu
python3 "$here/mk_overlay.py" "$D/ov" > /dev/null || exit 9
SRC=""
[ -f "$here/sources" ] && for s in $(cat "$here/sources"); do SRC="$SRC $R/$s"; done
cd "$D"
g++ -w -O1 -DNDEBUG -std=gnu++20 -include compat_prelude.h -isystem "$D/ov" \
  -I"$R/applications/sintering/include" -I"$R/include" -I"$R/applications/structural/include" -I"$R/tests/include" \
  -isystem $L/openmpi/include -isystem $L/openmpi/include/openmpi -isystem /usr/include/petsc \
  -isystem /usr/include/trilinos -isystem /usr/include/hdf5/openmpi -isystem /usr/include/scotch \
  -isystem /usr/include/suitesparse -isystem /usr/include/opencascade -isystem /usr/include/slepc \
  "$here/demo.cc" $SRC -fuse-ld=gold -rdynamic -o demo $(cat "$here/links.txt") || exit 8
NP=1
[ -f "$here/np" ] && NP=$(cat "$here/np")
if [ "$NP" = 1 ]; then timeout 200 ./demo; else timeout 200 mpirun --oversubscribe --bind-to none -np "$NP" ./demo; fi
