#!/bin/bash
# check.sh ID [quick|thorough]: builds the checker from /repo's working tree and
# decides one property. Exit 0: held on everything explored; 1: VIOLATION; other: error.
cd "$(dirname "$0")" || exit 3
id=$1
tier=${2:-${VERIF_TIER:-quick}}
tmp=$(mktemp -d /tmp/zcheck.XXXXXXXX) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
unset YIELD
case $id in
C01|C02|C03|C04|C09|C11|C12|C23|C26) export YIELD=1 ;; # with the nodes' statements under a scheduler
C24) export YIELD=net ;; # and the connections too
esac
build() {
	tools/build.sh "$tmp" > "$tmp/log" 2>&1 && return
	case $id in
	C23|C24|C26) return 1 ;;
	esac
	# the real main loops are left out
	[ -n "$YIELD" ] && unset YIELD && rm -rf -- "$tmp/ov" && tools/build.sh "$tmp" > "$tmp/log" 2>&1
}
if ! build; then
	tail -40 "$tmp/log"
	echo "the checker does not build"
	exit 3
fi
export TMPDIR="$tmp/tmp"
mkdir "$TMPDIR"
"$tmp/zcheck" -prop "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -evidence "$PWD/evidence/$id.json" \
	-known "$PWD/known_findings.txt" -replay "$PWD/evidence/replay" ${ZARGS:-}
