#!/bin/bash
# check.sh ID [quick|thorough]: decides one property on /repo's working tree.
# Exit 0: it held on everything explored; 1: a VIOLATION line names a replay file; 2: the check could not run.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
bash "$here/build.sh" "$id" || { echo "error: the build failed" >&2; exit 2; }
export YAMD_RANDOM_BIN=$here/harness/target/random/debug/yamd_utils
export YAMD_SCHED_BIN=$here/harness/target/sched/debug/yamd-mc-sched
export YAMD_PLAIN_LIB=$here/harness/target/plain/release/libyamd_mc_plain.so
export YAMD_UTILS_BIN=$here/harness/target/stat/debug/yamd_utils
exec "$here/harness/target/release/mc" check "$id" "$tier" "$here"
