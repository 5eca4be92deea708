#!/bin/bash
# Builds the symbolic executor, the harness IR and the replay binaries.
cd "$(dirname "$0")" && exec python3 check.py --build
