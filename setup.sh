#!/bin/bash
# Unpacks the property-testing library (pure Python wheels, offline) into /verif/.deps.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -B vf/deps.py .deps
