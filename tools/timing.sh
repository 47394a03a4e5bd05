#!/bin/bash
# time every target of an executable: tools/timing.sh build/exe/X [scale]
d=$(mktemp -d); for t in $($1 --list | awk '{print $1}'); do s=$(date +%s.%N); timeout 300 $1 --seed 1 --scale ${2:-100} --only $t --out $d/o >/dev/null 2>&1; echo "$t rc=$? $(echo "$(date +%s.%N)-$s" | bc)"; done; rm -r $d
