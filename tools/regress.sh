#!/bin/bash
# For each fix: a copy of the tree without it, and the check of its property on it.
# Keeps the minimal failing case in corpus/.   tools/regress.sh [key ...]
root=$(mktemp -d /tmp/regress.XXXX)
cd "$(dirname "$0")/.." || exit 2
here=$PWD
grep -v '^#' tools/fixes.txt | while IFS='|' read -r key hash prop title; do
  [ $# -gt 0 ] && [[ " $* " != *" $key "* ]] && continue
  git clone -q /repo "$root/$key" || exit 2
  ( cd "$root/$key" && for h in $hash; do git -c user.name=x -c user.email=x@x revert --no-edit "$h" >/dev/null 2>&1 || echo "$key: revert of $h failed"; done )
  for p in $prop; do
    out=$(ESTRADE_REPO="$root/$key" timeout 600 ./check "$p" 2>/dev/null)
    rc=$?
    rep=$(grep -o 'replay=.*' <<<"$out" | head -1 | cut -d= -f2)
    echo "$key $p rc=$rc $(grep '  scenario' <<<"$out" | cut -c1-150)"
    if [ -n "$rep" ]; then
      mkdir -p "$here/corpus/$p"
      cp "$rep" "$here/corpus/$p/$key.json"
    fi
  done
  rm -rf "$root/$key"
done
rmdir "$root"
