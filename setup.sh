#!/bin/bash
# Sanity of the tool chain the checks rely on; nothing built here is needed later
# (every check builds what it needs itself).
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c 'import torch, numpy, scipy, gym'
d=$(mktemp -d); gcc -O1 -shared -fPIC -w -o "$d/faultpoint.so" native/faultpoint.c -ldl; rm -rf "$d"
mkdir -p evidence
