#!/bin/sh
# ./check.sh <property> [--tier quick|thorough]
cd "$(dirname "$0")" && exec python3 lib/check.py "$@"
