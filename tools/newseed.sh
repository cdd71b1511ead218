#!/bin/bash
# tools/newseed.sh ID PROPERTY: a new planted bug from the demonstration library
d=$(dirname "$0")/../seeded/$1
mkdir -p "$d" && cp "$(dirname "$0")"/demolib/{lib.go,primes.go,go.sum,demo.sh} "$d"
