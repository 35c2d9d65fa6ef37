#!/bin/sh
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" && exec python3 lib/check.py "$@"
