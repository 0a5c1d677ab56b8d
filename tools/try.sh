#!/bin/bash
# tools/try.sh <patch or -R:commit> <property>...   run checks against a changed scratch copy of /repo
D=/tmp/hext-try-$$
mkdir -p $D
trap 'rm -rf /tmp/hext-try-'$$ EXIT
git -C /repo archive HEAD | tar -x -C $D
case "$1" in
  -R:*) git -C /repo show "${1#-R:}" | (cd $D && patch -p1 -R -s) || exit 9;;
  none) ;;
  *) (cd $D && patch -p1 -s) < "$1" || exit 9;;
esac
shift
cd "$(dirname "$0")/.."
for p in "$@"; do SIM_REPO=$D bash run.sh $p quick; echo "[$p exit $?]"; done
