#!/bin/bash
# Confirm planted bugs: tools/seed.sh ID...   (patch applies, builds, tests pass, demo fails with it and passes without)
# and see whether the property's check catches them (CHECK=1).  Works in a scratch copy; /repo is not touched
# except with CHECK=1, which applies the patch to /repo and undoes it.
here=$(dirname "$(dirname "$(readlink -f "$0")")")
for id in "$@"; do
  d=$here/seeded/$id
  prop=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
  w=$(mktemp -d /tmp/seedXXXXXX)
  cp -a /repo "$w/repo"
  demo=$w/demo; cp -r "$d" "$demo"; rm -f "$demo"/*.diff "$demo"/meta.json
  (cd /repo && bash "$demo/demo.sh" >/dev/null 2>&1); clean=$?
  if ! git -C "$w/repo" apply "$d/patch.diff"; then echo "$id: PATCH DOES NOT APPLY"; rm -rf "$w"; continue; fi
  (cd "$w/repo" && PYTHONPATH="$w/repo" /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests >"$w/t" 2>&1); t=$?
  (cd "$w/repo" && PYTHONPATH="$w/repo" bash "$demo/demo.sh" >"$w/out" 2>&1); bad=$?
  msg="$id ($prop): clean=$clean tests=$t patched=$bad"
  [ $clean = 0 ] && [ $t = 0 ] && [ $bad != 0 ] && msg="$msg ok" || { msg="$msg *** NOT CONFIRMED"; tail -n 3 "$w/t" "$w/out"; }
  if [ -n "$CHECK" ]; then
    git -C /repo apply "$d/patch.diff"
    (cd "$here" && python3-vt run.py ${CHECKPROP:-$prop} >"$w/c" 2>&1); c=$?
    git -C /repo checkout -- .
    grep -q "^VIOLATION property=${CHECKPROP:-$prop} " "$w/c" && [ $c = 1 ] && msg="$msg CAUGHT $(grep -c . "$w/c")" || msg="$msg *** MISSED (exit $c)"
  fi
  echo "$msg"
  rm -rf "$w"
done
