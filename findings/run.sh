#!/bin/bash
# Usage: run.sh [REPO]  - runs every reproduction against the real code, one process each.
repo=${1:-/repo}; here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
ov=$(mktemp --suffix=.json); trap 'rm -f "$ov"' EXIT
printf '{"Replace":{' > $ov; sep=
for f in $here/*/*_test.go; do p=$(basename $(dirname $f)); printf '%s"%s/%s/%s":"%s"' "$sep" $repo $p $(basename $f) $f >> $ov; sep=,; done
printf '}}' >> $ov
cd $repo
for f in $here/*/*_test.go; do p=$(basename $(dirname $f)); for t in $(grep -oE '^func (TestFinding[A-Za-z0-9]+)' $f | cut -d' ' -f2); do
  race=; [ $t = TestFindingRace ] && race=-race; if timeout 60 go test $race -vet=off -overlay $ov -count=1 -run "^$t\$" ./$p >/tmp/fout 2>&1; then echo "ok   $p/$t"; else echo "FAIL $p/$t: $(grep -m1 -E 'findings_verif_test.go|panic:|fatal|level=fatal|cannot' /tmp/fout)"; fi
done; done
