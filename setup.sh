#!/bin/bash
# Builds the extensions of /repo's working tree and the Java overrides of the
# specification into /verif/.work (every check does the same when needed).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "from vh.env import ext_dir, java_dir; print(ext_dir(), java_dir())"
