#!/bin/bash
# Unpacks the pure python / cp312 wheels the checks need next to the framework (offline).
cd "$(dirname "$0")" && exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from vf import bootstrap; print('hypothesis from', bootstrap.ensure())"
