#!/bin/sh
# check.sh PXX [--tier quick|thorough] : run one property's check from /verif against /repo
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore -m vt.main "$@"
