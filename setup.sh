#!/bin/bash
# Warms the build cache: every check builds what it needs itself.
cd "$(dirname "$0")" || exit 2
exec python3-vt lib/vf.py --setup
