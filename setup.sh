#!/bin/bash
# Builds what the checks share, from /repo's working tree, into /verif/.build (ignored by git).
# Each check rebuilds (incrementally) if /repo differs from what is here
cd "$(dirname "$0")" || exit 1
/usr/bin/python3 lib/prebuild.py
