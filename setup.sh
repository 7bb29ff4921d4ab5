#!/bin/bash
# Unpacks the vendored Hypothesis wheels (offline) into /verif/.deps.
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -m pbt.boot
