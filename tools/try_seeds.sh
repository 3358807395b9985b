#!/bin/bash
# usage: try_seeds.sh [-a] ID...   runs the claimed property's check (-a: every check) against
# planted changes applied to /repo, undoing each one afterwards. Not used by any check.
here="$(cd "$(dirname "$0")/.." && pwd)"
all=; [ "$1" = -a ] && { all=1; shift; }
[ $# = 0 ] && set -- $(ls "$here/seeded")
for id in "$@"; do
  d="$here/seeded/$id"
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  prop=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
  list=$prop; [ -n "$all" ] && list="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15"
  caught=
  for p in $list; do
    o=$(cd "$here" && ./check.sh $p quick 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$o"; then
      caught="$caught $p"
      [ $p = $prop ] && v=$(grep -m1 "^violated" <<<"$o" | cut -c1-160)
    elif [ $rc != 0 ]; then caught="$caught $p:rc=$rc"; fi
  done
  git -C /repo checkout -q -- .
  case " $caught " in *" $prop "*) s=caught ;; *) s=MISSED; v= ;; esac
  echo "$s $id ($prop) by:$caught | $v"
done
