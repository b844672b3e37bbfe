#!/bin/bash
# try.sh PATCH ID [tier]: run a check of the framework in $FROM (default /verif) against a scratch
# copy of /repo with PATCH applied ("-" for none); /repo and the framework itself are not touched.
set -e
FROM=${FROM:-/verif}
W=$(mktemp -d /tmp/try.XXXXXX)
[ -n "$KEEP" ] || trap 'rm -rf "$W"' EXIT
mkdir "$W/v"
git -C /repo archive --prefix=repo/ HEAD | tar -x -C "$W"
cp -r "$FROM/sim" "$FROM/check.py" "$FROM/known_findings.txt" "$W/v/"
[ -d /repo/.cargo ] && cp -r /repo/.cargo "$W/repo/" || true
cp -n /repo/Cargo.lock "$W/repo/" 2>/dev/null || true
[ "$1" = - ] || (cd "$W/repo" && git init -q . && git apply "$1")
sed -i "s#\"/repo\"#\"$W/repo\"#" "$W"/v/sim/Cargo.toml "$W"/v/sim/core/Cargo.toml
sed -i "s#/repo#$W/repo#g" "$W/v/check.py"
for id in $2; do
  python3 "$W/v/check.py" "$id" ${3:-quick} || true
done
