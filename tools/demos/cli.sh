#!/bin/bash
# Runs the command line tool twice with the same output name: the second, smaller image must
# replace the first one completely.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
s=$(mktemp -d) || exit 3
trap 'rm -rf "$s"' EXIT
CARGO_TARGET_DIR="$s/target" cargo build --offline -q --bin rawloader > "$s/log" 2>&1 || { tail -20 "$s/log"; exit 3; }
cp "$here/input.raw" "$s/in.raw"
"$s/target/debug/rawloader" "$s/in.raw" "$s/fresh.ppm" > /dev/null || exit 1
head -c 3000000 /dev/zero | tr '\0' 'x' > "$s/old.ppm"
"$s/target/debug/rawloader" "$s/in.raw" "$s/old.ppm" > /dev/null || exit 1
cmp "$s/fresh.ppm" "$s/old.ppm" || exit 1
# an input that is called like an output is left alone
cp "$here/input.raw" "$s/named.ppm"
"$s/target/debug/rawloader" "$s/named.ppm" > /dev/null || exit 1
cmp "$here/input.raw" "$s/named.ppm" || exit 1
cmp "$s/fresh.ppm" "$s/named.ppm.ppm" || exit 1
# nothing is written for a file that cannot be decoded
head -c 5000 /dev/zero | tr '\0' 'z' > "$s/bad.raw"
"$s/target/debug/rawloader" "$s/bad.raw" "$s/none.ppm" > /dev/null && exit 1
[ -e "$s/none.ppm" ] && exit 1
# the average is the whole part of sum by count, one or three samples to the pixel
"$s/target/debug/rawloader" "$s/in.raw" "$s/fresh.ppm" | awk '
  /^Image size is/ { split($4, d, "x"); n = d[1] * d[2] }
  /^Image sum:/ { sum = $3 }
  /^Image avg:/ { avg = $3 }
  END { exit !(avg == int(sum / n) || avg == int(sum / n / 3)) }' || exit 1
exit 0
