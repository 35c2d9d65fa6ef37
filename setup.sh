#!/bin/sh
# builds the harness and the command-line compiler from /repo's working tree
cd "$(dirname "$0")" && exec python3 -c "import sys; sys.path.insert(0, 'lib'); import pv; pv.build()"
