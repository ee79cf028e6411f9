#!/bin/bash
# fleet.sh Cxx FROM TO [args]: many seeds of one check, for false alarms.
p=$1; a=$2; b=$3; shift 3
d=$(mktemp -d /tmp/fleet.XXXX); here=$(cd "$(dirname "$0")/.." && pwd)
"$here/build.sh" $d ${MODE:-pure} || exit 2
ok=0; bad=0; t0=$SECONDS
for s in $(seq $a $b); do
  TMPDIR=$d $d/verifh -prop $p -seed $s -replay $d/rep$s.json -known $here/KNOWN_FINDINGS.txt "$@" >$d/out 2>$d/err; rc=$?
  if [ $rc = 0 ]; then ok=$((ok+1)); else bad=$((bad+1)); echo "seed $s rc $rc: $(tail -2 $d/out | cut -c1-${W:-600})"; grep -m3 -A12 -E '^(panic|fatal)' $d/err | cut -c1-300; fi
done
echo "$p: $ok ok, $bad bad, $((SECONDS-t0)) s; last: $(tail -1 $d/out | cut -c1-${W:-600})"
[ $bad = 0 ] && rm -rf "$d" || echo "kept $d"
