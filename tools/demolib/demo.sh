#!/bin/bash
# run with cwd = the repository; exit 0: behaves as the property says
D=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 MPLBACKEND=Agg TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= MPI4PY_MPIABI=openmpi
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=2
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_plm_rsh_agent=/bin/false OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none
export PYTHONPATH="$PWD:$D" HOME=/root
export W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export TMPDIR="$W"
cd "$W" || exit 9
run() { timeout 250 /opt/venv/bin/python "$@"; }
par() { local n=$1; shift; timeout 120 /usr/bin/mpiexec.openmpi -n "$n" /opt/venv/bin/python "$@" </dev/null; }
@CMD@
