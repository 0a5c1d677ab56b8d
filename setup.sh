#!/bin/bash
# Builds every simulator once (the checks rebuild whatever changed).
cd "$(dirname "$0")" || exit 1
exec python3 lib/build.py
