# environment of every check (mirrors the project's own test environment)
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG="${LANG:-C.UTF-8}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO/core" MPLBACKEND=agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
