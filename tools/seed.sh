#!/bin/bash
# tools/seed.sh ID... : for planted bugs under seeded/, in a scratch copy of /repo:
# does the patch apply, build, pass the tests; does the demonstration tell the two
# trees apart; and which of the given checks (CHECKS="C01 C02", default: the bug's
# property) report it. For development only: nothing registered calls it.
cd "$(dirname "$0")/.." || exit 3
verif=$PWD
one() {
	id=$1
	d=$verif/seeded/$id
	w=$(mktemp -d /tmp/seedw.XXXXXXXX)
	cp -a /repo "$w/repo"
	cd "$w/repo" || exit 3
	log="$w/log"
	res="$id:"
	if [ -z "$NODEMO" ]; then
		bash "$d/demo.sh" > "$log" 2>&1; a=$?
		res="$res clean-demo=$a"
		[ $a = 0 ] || tail -5 "$log"
	fi
	if ! git apply "$d/patch.diff" 2> "$log"; then echo "$res DOES NOT APPLY"; cat "$log"; rm -rf -- "$w"; return; fi
	(
		export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 PATH="/opt/veriftools/go1.27.3/bin:$PATH"
		cp go.mod "$w/m.mod"; cp go.sum "$w/m.sum"
		export GOFLAGS="-mod=mod -modfile=$w/m.mod"
		go build $(go list ./... | grep -vx zRep/test) > "$log" 2>&1 || { echo NOBUILD; tail -5 "$log"; exit 1; }
		go test -json -vet=off -count=1 $(go list -e ./... | grep -vx 'zRep/util/shuffle' | grep -vx zRep/test) > "$w/t.json" 2>/dev/null
		echo "passed $(grep -c '"Action":"pass","Package":"[^"]*","Test"' "$w/t.json") of 20, failed $(grep -c '"Action":"fail","Package":"[^"]*","Test"' "$w/t.json")"
	) > "$w/tr" 2>&1
	res="$res $(cat "$w/tr" | tr '\n' ' ')"
	if [ -z "$NODEMO" ]; then
		bash "$d/demo.sh" > "$log" 2>&1; b=$?
		res="$res bug-demo=$b ($(grep -m1 BROKEN "$log" | cut -c1-120))"
	fi
	prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	for c in ${CHECKS-$prop}; do
		[ "$c" = none ] && continue
		mkdir "$w/o.$c"
		y=; case $c in C01|C02|C03|C04|C09|C11|C12|C23|C26) y=1;; C24) y=net;; esac
		if YIELD=$y ZREPO="$w/repo" "$verif/tools/build.sh" "$w/o.$c" > "$log" 2>&1; then
			TMPDIR="$w/o.$c" "$w/o.$c/zcheck" -prop "$c" -evidence "$w/ev.json" -known "$verif/known_findings.txt" -replay "$w/rp" > "$w/out" 2>&1
			res="$res $c=$? [$(grep -m1 '^found' "$w/out" | cut -c1-160)] $(tail -1 "$w/out" | grep -o '[0-9.]* s$')"
		else
			res="$res $c=NOBUILD"; tail -5 "$log"
		fi
	done
	echo "$res"
	rm -rf -- "$w"
}
for id in "$@"; do one "$id"; done
