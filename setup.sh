#!/bin/bash
# Builds the harness (the whole library from /repo's sources plus the drivers) under .build
set -e
cd "$(dirname "$0")"
python3 -c "from vlib import harness; harness.build(('all',))"
