#!/bin/sh
# Compiles the Java evaluation of spec/MP.tla.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
python3 -c 'import sys; sys.path.insert(0, "lib"); import check; check.compile_java()'
