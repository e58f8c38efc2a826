#!/bin/bash
# Tries behaviour-preserving edits (/verif/refactorings/*.diff) in a scratch clone of
# /repo: every check named (default: all) must stay quiet.
#   tools/refactor.sh [id...]     env CHECKS="C01 C02"
cd "$(dirname "$0")/.." || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf "${t:?}"' EXIT
git clone -q /repo "$t/repo" || exit 2
[ $# -gt 0 ] || set -- $(cd refactorings && ls *.diff | sed 's/\.diff$//')
all=$(seq -f C%02g 1 26)
bad=0
for id in "$@"; do
  git -C "$t/repo" checkout -q -- . && git -C "$t/repo" clean -fdq
  git -C "$t/repo" apply "$PWD/refactorings/$id.diff" || { echo "$id: does not apply"; bad=1; continue; }
  case $id in
    v2-*|v1-*) c="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C15 C16 C17 C18 C21 C23";;
    ts-*) c="C01 C02 C03 C04 C05 C06 C07 C11 C15 C21 C22 C23";;
    rust-*) c="C01 C02 C03 C04 C05 C06 C07 C11 C12 C13 C14 C15 C18 C20 C23";;
    c-*) c="C13 C14 C23";;
    gengo-*) c="C16 C17 C18 C19 C20 C21 C22 C24 C25 C26";;
    genrust-*) c="C18 C19 C20 C25 C26";;
    gents-*) c="C19 C21 C22 C25 C26";;
    *) c=$all;;
  esac
  for p in ${CHECKS:-$c}; do
    o=$(REPO_DIR=$t/repo timeout 900 ./check $p ${TIER:-quick} 2>&1); r=$?
    [ $r = 0 ] || { bad=1; echo "$id: $p exits $r"; echo "$o" | grep -v KNOWN-FINDING | head -4 | cut -c1-300; }
  done
  echo "$id: done"
done
exit $bad
