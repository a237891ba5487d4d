#!/bin/bash
# Nothing to build ahead of a check: checks copy and build what they need from
# /repo themselves. This makes sure the toolchain is there and the
# specifications parse.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
d=$(mktemp -d)
cp spec/*.tla "$d"/
cd "$d"
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$m.log" 2>&1 || { cat "$m.log"; exit 1; }
  if grep -q -i "fatal\|\*\*\* Errors" "$m.log"; then cat "$m.log"; exit 1; fi
done
rm -r "$d"
echo setup ok
