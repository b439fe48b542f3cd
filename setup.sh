#!/bin/bash
# Nothing to install: brings pytorch3d._C up to date, as every check does for itself.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
exec /opt/venv/bin/python -m mc.build
