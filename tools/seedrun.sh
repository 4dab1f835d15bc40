#!/bin/bash
# seedrun.sh all|own ID... : apply planted changes to scratch copies of /repo and run the
# checks on them (own: only the check of the property the change is about). One line per
# check that reports a violation, or MISSED.
mode=$1; shift
for id in "$@"; do
  s=/verif/seeded/$id; d=/tmp/sr_$id; b=/tmp/srb_$id
  rm -rf "$d" "$b"; cp -a /repo "$d" && git -C "$d" apply "$s/patch.diff" || { echo "$id: does not apply"; continue; }
  own=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  export VSIM_REPO=$d VSIM_BUILD=$b
  /verif/check.sh build || { echo "$id: BUILD FAILED"; continue; }
  props=$own
  [ "$mode" = all ] && props="A01 A02 A03 A04 A05 A06 B01 B02 B03 B04 B05 B06 B07 B08 B09 B10"
  hit=""; line=""
  for p in $props; do
    out=$(timeout 900 "$b/vsim" check -verif "$b" -build "$b" -prop "$p" 2>&1); rc=$?
    [ $rc = 1 ] && hit="$hit $p" && [ "$p" = "$own" ] && line=$(echo "$out" | grep -B1 VIOLATION | head -1 | cut -c1-200)
    [ $rc -gt 1 ] && hit="$hit $p(rc=$rc)"
  done
  case " $hit " in *" $own "*) v=caught;; *) v=MISSED;; esac
  echo "$id [$own] $v by:$hit |$line"
  rm -rf "$d" "$b"
done
