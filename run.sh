#!/bin/bash
# usage: run.sh <property> quick|thorough   - rebuilds from /repo's working tree and runs one check
#        run.sh replay <file>               - re-runs one recorded case
#        run.sh build                       - only builds
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
log=$(mktemp)
build() { # directory, options
  (cd "$1" && cargo build --offline -q $2) > "$log" 2>&1 || { echo "build failed" >&2; tail -30 "$log" >&2; rm -f "$log"; exit 2; }
}
build harness
case "$1" in build|replay|C20) build cli;; esac
case "$1" in build|replay|C10) build harness --release;; esac
rm -f "$log"
case "$1" in
  build) exit 0;;
  replay) exec harness/target/debug/rlcheck replay "$2";;
  *) exec harness/target/debug/rlcheck run "$1" "$2";;
esac
