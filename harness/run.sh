#!/bin/bash
exec /opt/venv/bin/python -B "$(dirname "$0")/runcheck.py" "$@"
