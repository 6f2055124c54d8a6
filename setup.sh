#!/bin/bash
# Builds the machinery once; every check rebuilds whatever /repo's tree makes stale.
cd "$(dirname "$0")" || exit 2
exec python3 tools/check.py --setup
