#!/bin/bash
# Exit 0 if the property holds for the demonstrated case, 1 otherwise.
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
