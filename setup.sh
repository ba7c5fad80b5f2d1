#!/bin/bash
# nothing has to be compiled: checks run the working tree of /repo directly; this only verifies the tools are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence
FORCE_STD_XML=false PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:. /opt/venv/bin/python - <<'PY'
import lxml, pydantic, pydantic_core
from harness import engine, families, kinds, plans, ref, spec
print('pydantic', pydantic.VERSION, 'lxml', lxml.__version__, 'kinds', len(kinds.KINDS))
PY
