#!/bin/bash
# try_seeds.sh [id...]: run each seeded change's own check against it, in copies of /repo (development tool)
cd "$(dirname "$0")/.."
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
one() {
  id=$1; W=/tmp/try-$id; rm -rf "$W"; mkdir -p "$W"
  cp -a /repo "$W/repo"; git -C "$W/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id NOAPPLY"; return; }
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  VERIF_REPO="$W/repo" VERIF_OUT="$W/out" timeout 900 bash run.sh "${PROP:-$prop}" > "$W/log" 2>&1; rc=$?
  v=$(grep -m1 "^VIOLATION property=${PROP:-$prop}" "$W/log")
  echo "$id ${PROP:-$prop} rc=$rc $(( $(date +%s) - s ))s $( [ $rc = 1 ] && [ -n "$v" ] && echo CAUGHT || echo MISSED )"
  [ $rc != 1 ] && tail -3 "$W/log"
  rm -rf "/tmp/try-$id"
}
export -f one
printf '%s\n' $ids | xargs -P 5 -I{} bash -c 'one {}'
