# sourced by demo.sh; run with cwd /repo after the build
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 99
trap 'rm -rf "${W:?}"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_pml=ob1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm=isolated OMPI_MCA_mpi_yield_when_idle=1
mpicc -w -g -O1 -Iinclude/mpi -Iinclude/core -Iinclude "$D/${SRC:-demo.c}" -o "$W/demo" lib/libext_mpi_collectives.a -lrt -lm || exit 98
bad=0
run() { # run NP args... (extra environment taken from the caller)
  np=$1; shift
  timeout 30 mpirun -np $np --oversubscribe "$W/demo" "$@" >"$W/out" 2>&1
  rc=$?
  echo "np=$np $* rc=$rc"; head -5 "$W/out"
  [ $rc = 0 ] || exit 1
}
