#!/bin/bash
# bash check.sh <PROPERTY> [quick|thorough]   (rebuilds from /repo's working tree)
cd "$(dirname "$0")" || exit 2
exec python3 tools/check.py "$@"
