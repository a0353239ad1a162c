# the interpreter and environment titus2 runs under here; nothing is written into /repo
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${VERIF_HASHSEED:-0} PYTHONNOUSERSITE=1 PYTHONUNBUFFERED=1
export PYTHONPYCACHEPREFIX=/nonexistent-pycache OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset PYTHONPATH PYTHONHOME
export VERIF_REPO=${VERIF_REPO:-/repo}
# the JIT changes which trace events PyPy delivers; without it a case is exactly repeatable
PY="${VERIF_PYTHON:-/opt/venv/bin/python} --jit off"
