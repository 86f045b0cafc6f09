#!/bin/bash
# plant.sh ID : (re)creates /verif/seeded/ID/patch.diff from the scratch copy /tmp/seed/ID, and confirms it:
# builds, passes the stable tests, demo 0 without and nonzero with the patch.
# usage: plant.sh new ID   -> makes the copy;  plant.sh done ID -> diff + confirm + remove the copy
set -u
id=$2; d=/tmp/seed/$id; s=/verif/seeded/$id
case $1 in
new) mkdir -p /tmp/seed; rm -rf "/tmp/seed/$id"; cp -a /repo "$d";;
done)
  mkdir -p "$s"; (cd "$d" && git diff) > "$s/patch.diff"
  [ -s "$s/patch.diff" ] || { echo "$id: EMPTY PATCH"; exit 1; }
  . /opt/vp/env.sh
  (cd "$d" && go build ./... ) || { echo "$id: NO BUILD"; exit 1; }
  (cd "$d" && go vet ./... >/dev/null 2>&1; go test ./... 2>&1 | grep -v '^ok\|no test files' | head -20) 
  (cd /repo && timeout 300 bash "$s/demo.sh" >/tmp/seed/$id.clean 2>&1); a=$?
  (cd "$d" && timeout 300 bash "$s/demo.sh" >/tmp/seed/$id.bug 2>&1); b=$?
  echo "$id: clean=$a patched=$b"; [ $a = 0 ] || tail -5 /tmp/seed/$id.clean; tail -3 /tmp/seed/$id.bug
  (cd /repo && git apply --check "$s/patch.diff") || echo "$id: does not apply"
  rm -rf "/tmp/seed/$id";;
esac
