#!/bin/bash
# Builds the symbolic executor from the committed sources (offline).
set -e
cd "$(dirname "$0")"
make -s -C engine -j8 OUT=../build
