#!/bin/bash
# revert.sh COMMIT ID...: take a fix commit of /repo back in a scratch copy and run the
# monitors of the named properties against it (they must report it).
set -u
c=$1; shift
d=$(mktemp -d /tmp/rev.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"; cp -r /verif "$d/verif" 
git -C "$d/repo" diff "$c" "$c^" -- > "$d/p"
git -C "$d/repo" update-index -q --refresh
git -C "$d/repo" apply -3 "$d/p" 2>"$d/err" || { echo "$c: does not revert"; head -3 "$d/err"; exit 3; }
grep -rl '^<<<<<<<' "$d/repo" --include=*.go && { echo "$c conflict"; exit 3; }
sed -i "s#=> /repo#=> $d/repo#" "$d/verif/mon/go.mod"
sed -i "s#^repo=/repo#repo=$d/repo#" "$d/verif/run.sh"
for id in "$@"; do
	(cd "$d/verif" && VERIF_SEED=${SEED:-1} ./run.sh "$id" quick >"$d/o" 2>&1; echo "$c $id exit=$? $(grep -m1 -A1 VIOLATION "$d/o" | tr '\n' ' ' | cut -c1-200)")
done
