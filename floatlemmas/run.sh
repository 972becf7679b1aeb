#!/bin/bash
# Discharges every float axiom of contracts/00_prelude.rs with CBMC (bit-precise, all inputs, no loops).
# Prints: LEMMA name PROVED|FAILED|SKIPPED secs. The midpoint lemma takes about 100 s: thorough tier only.
d=$(cd "$(dirname "$0")" && pwd)
tier=${1:-quick}
one() {
  f=$1; s=$(date +%s.%N)
  r=$(timeout 380 cbmc "$d/lemmas.c" --function "$f" --no-standard-checks 2>&1 | grep -o "VERIFICATION [A-Z]*")
  # the hypotheses can be met: with the conclusion replaced by false the query has to fail
  v=$(timeout 60 cbmc "$d/lemmas.c" -DVACUITY --function "$f" --no-standard-checks 2>&1 | grep -o "VERIFICATION [A-Z]*")
  e=$(date +%s.%N); t=$(echo "$e - $s" | bc)
  if [ "$r" = "VERIFICATION SUCCESSFUL" ] && [ "$v" = "VERIFICATION FAILED" ]; then echo "LEMMA $f PROVED 0$t"; else echo "LEMMA $f FAILED 0$t"; fi
}
export -f one; export d
names=$(grep -oE 'proof fn axiom_[a-z_]+\((([a-z]: F64(, )?)*)\)' "$d/../contracts/00_prelude.rs" | grep -oE 'axiom_[a-z_]+' | sed 's/axiom_//' | sort -u)
todo=""
for n in $names; do
  if [ "$n" = mid ] && [ "$tier" = quick ]; then echo "LEMMA mid SKIPPED 0"; continue; fi
  todo="$todo $n"
done
echo $todo | tr ' ' '\n' | xargs -P 4 -I{} bash -c 'one {}'
