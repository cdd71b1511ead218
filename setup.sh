#!/bin/bash
# warms the build cache; the checks build what they need themselves
cd "$(dirname "$0")" || exit 3
tmp=$(mktemp -d /tmp/zsetup.XXXXXXXX) || exit 3
tools/build.sh "$tmp"
rc=$?
rm -rf -- "$tmp"
exit $rc
