#!/bin/sh
# nothing to compile: make sure that the tools are there and the specifications typecheck
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
quint --version >/dev/null || exit 1
/opt/venv/bin/python -c "import jax, numpy" || exit 1
for f in spec/*.qnt; do quint typecheck "$f" >/dev/null || { echo "typecheck failed: $f"; exit 1; }; done
