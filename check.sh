#!/bin/bash
# check.sh PROPERTY: decides one property on /repo's current working tree.
# VERIF_SEED chooses the seeds, VERIF_TIER=quick|thorough the depth.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
prop=$1
seed=${VERIF_SEED:-1}
tier=${VERIF_TIER:-quick}
case "$prop" in C06|C07) variant=mt;; C14) variant=mm;; C15) variant=tg;; *) variant=st;; esac
sim=$(./build.sh $variant) || { echo "ERROR: the simulator could not be built" >&2; exit 2; }
mkdir -p evidence replays
args="--prop $prop --seed $seed --workers ${VERIF_WORKERS:-$(nproc)} --out evidence/$prop.json --replaydir replays"
if [ "$tier" = thorough ]; then args="$args --thorough --cap ${VERIF_CAP:-3000}"; else args="$args --cap ${VERIF_CAP:-240}"; fi
# defects that are recorded, not repaired: known-findings.txt names the history that fails
grep "^finding: property=$prop " known-findings.txt | while read -r _ p replay class text; do
  out=$("$sim" --replay "${replay#replay=}" 2>/dev/null)
  if echo "$out" | grep -q "violated=1 ${class} "; then echo "KNOWN-FINDING: property=$prop $text"; fi
done
"$sim" $args
