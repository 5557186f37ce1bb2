#!/bin/bash
# bash tools/try_seeds.sh [ID...]: runs the check of each planted bug's property (or CHECKS="C01 ...") against it.
cd /verif || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for d in ${@:-$(ls seeded)}; do
	git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
	for p in ${CHECKS:-$(jq -r .property seeded/$d/meta.json)}; do
		s=$SECONDS; out=$(bash check.sh $p quick 2>&1); rc=$?
		echo "$d $p rc=$rc $((SECONDS-s))s $(echo "$out" | grep -A2 VIOLATION | sed -n '2,3p' | tr '\n' ' ' | cut -c1-260)"
	done
	git -C /repo checkout -q -- .
done
