#!/bin/bash
# replay.sh FILE: rebuilds the simulator from /repo's current tree and re-executes the case; exit 1 if it (still) violates
B=$(python3 "$(dirname "$0")/build.py") || exit 2
exec "$B" replay "$1" verbose
