#!/bin/sh
# Warms the build cache; every check rebuilds what it needs from /repo anyway.
cd "$(dirname "$0")" || exit 1
python3 check.py --warm
exit 0
