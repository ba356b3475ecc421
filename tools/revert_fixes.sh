#!/bin/bash
# Sensitivity: undoes each fix commit of /repo in turn (working tree only) and
# lists the checks that report it. Restores /repo afterwards.
cd /repo || exit 2
for c in $(git log --format=%h --grep='^fix:'); do
    git revert -n "$c" >/dev/null 2>&1 || { echo "$c: does not revert alone"; git revert --abort 2>/dev/null; git reset -q --hard HEAD; continue; }
    git reset -q
    hits=""
    for p in $(/verif/sim/target/release/sim list); do
        out=$(/verif/check.sh "$p" quick 2>&1); rc=$?
        [ $rc = 1 ] && hits="$hits $p"
        [ $rc -gt 1 ] && hits="$hits $p(error $rc)"
    done
    echo "$c $(git log -1 --format=%s "$c"): $hits"
    git checkout -q -- .
done
rm -rf /repo/.git/REVERT_HEAD
git -C /repo status --short
