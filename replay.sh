#!/bin/bash
# replay.sh FILE: judges the one case a VIOLATION line names, in a process of its own. Exit 1 and the reason: it fails.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
export YAMD_RANDOM_BIN=$here/harness/target/random/debug/yamd_utils
export YAMD_SCHED_BIN=$here/harness/target/sched/debug/yamd-mc-sched
export YAMD_PLAIN_LIB=$here/harness/target/plain/release/libyamd_mc_plain.so
export YAMD_UTILS_BIN=$here/harness/target/stat/debug/yamd_utils
exec "$here/harness/target/release/mc" replay "$1"
