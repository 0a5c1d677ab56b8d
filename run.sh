#!/bin/bash
# run.sh <property> [quick|thorough]   decide one property
# run.sh --replay <file>               execute a recorded violation again
cd "$(dirname "$0")" || exit 2
exec python3 lib/check.py "$@"
