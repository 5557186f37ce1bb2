#!/bin/bash
# bash tools/try_copy.sh [ID...]: like try_seeds.sh, in a scratch copy (MC_SRC=dir takes the explorer's sources from there,
# the ID "clean" with CHECKS="C01 ..." stands for no change; SEEDS=dir the planted bugs), so /repo and /verif stay as they are.
w=$(mktemp -d /tmp/try.XXXXXX) || exit 1
trap 'rm -rf "$w"' EXIT
git clone -q /repo "$w/repo" && mkdir "$w/verif" "$w/verif/evidence" && cp -a /verif/{check.sh,env.sh,known-findings.txt} "$w/verif/" && cp -a "${MC_SRC:-/verif/mc}" "$w/verif/mc" || exit 1
sed -i "s|=> /repo|=> $w/repo|" "$w/verif/mc/go.mod"
export MC_REPO=$w/repo
seeds=${SEEDS:-/verif/seeded}
for d in ${@:-$(ls "$seeds")}; do
	[ "$d" = clean ] || git -C "$w/repo" apply "$seeds/$d/patch.diff" || { echo "$d does not apply"; continue; }
	for p in ${CHECKS:-$(jq -r .property "$seeds/$d/meta.json")}; do
		s=$SECONDS; out=$(bash "$w/verif/check.sh" $p ${TIER:-quick} 2>&1); rc=$?
		[ "$rc" = 2 ] && echo "$out" | tail -5
		echo "$d $p rc=$rc $((SECONDS-s))s $(echo "$out" | grep -A2 VIOLATION | sed -n '2,3p' | tr '\n' ' ' | cut -c1-260)"
	done
	git -C "$w/repo" checkout -q -- .
done
