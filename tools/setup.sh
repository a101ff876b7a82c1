#!/bin/bash
# Builds the front end and exports the current program and the specifications (cached in build/).
cd "$(dirname "$0")/.." && bash tools/build.sh && python3 engine/extract.py >/dev/null
