# source for interactive runs in the checks' environment
export VERIF_DIR=/verif VERIF_REPO=${VERIF_REPO:-/repo} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1 POLARS_MAX_THREADS=1
export PYTHONPATH=/verif/vlib/site:/verif:$VERIF_REPO/src:$VERIF_REPO
